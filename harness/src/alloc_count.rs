//! Counting allocator: a deterministic per-case bound on memory requested, and
//! a CPU-time alarm, so a case that never ends is recognised in its worker.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

pub struct Counting;
static TOTAL: AtomicU64 = AtomicU64::new(0);
static ARMED: AtomicBool = AtomicBool::new(false);
/// bytes one case may request in total
const LIMIT: u64 = 1 << 30;

unsafe extern "C" {
  fn _exit(code: i32) -> !;
  fn setitimer(which: i32, new: *const ItimerVal, old: *mut ItimerVal) -> i32;
  fn signal(sig: i32, handler: usize) -> usize;
}
#[repr(C)]
struct TimeVal {
  sec: i64,
  usec: i64,
}
#[repr(C)]
struct ItimerVal {
  interval: TimeVal,
  value: TimeVal,
}

unsafe impl GlobalAlloc for Counting {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    bump(l.size());
    unsafe { System.alloc(l) }
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    unsafe { System.dealloc(p, l) }
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    bump(n.saturating_sub(l.size()));
    unsafe { System.realloc(p, l, n) }
  }
}

fn bump(n: usize) {
  let t = TOTAL.fetch_add(n as u64, Relaxed) + n as u64;
  if t > LIMIT && ARMED.load(Relaxed) {
    unsafe { _exit(crate::engine::EXIT_ALLOC) }
  }
}

extern "C" fn on_prof(_: i32) {
  unsafe { _exit(crate::engine::EXIT_CPU) }
}

/// CPU seconds (not wall clock) one case may use; ordinary cases need
/// milliseconds.
const CPU_LIMIT: i64 = 60;

pub fn arm() {
  ARMED.store(true, Relaxed);
  unsafe {
    signal(27 /* SIGPROF */, on_prof as usize);
  }
}

pub fn reset() {
  TOTAL.store(0, Relaxed);
  if ARMED.load(Relaxed) {
    let v = ItimerVal {
      interval: TimeVal { sec: 0, usec: 0 },
      value: TimeVal { sec: CPU_LIMIT, usec: 0 },
    };
    unsafe {
      setitimer(2 /* ITIMER_PROF */, &v, std::ptr::null_mut());
    }
  }
}
