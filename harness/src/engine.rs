//! A small property-based-testing engine: choice-tape generation, tape
//! shrinking, sharded case execution with crash isolation, known findings,
//! replay files and evidence.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write as _};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- tape / src

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
  pub fn new(seed: u64) -> Self {
    let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
    r.next();
    r.next();
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
  }
}

/// Source of every random choice. A case is a pure function of its tape.
pub struct Src {
  tape: Vec<u32>,
  pos: usize,
  rng: Option<Rng>,
  dump: Option<std::fs::File>,
}

impl Src {
  pub fn random(seed: u64) -> Self {
    Src {
      tape: Vec::new(),
      pos: 0,
      rng: Some(Rng::new(seed)),
      dump: std::env::var("VH_DUMPTAPE").ok().and_then(|p| std::fs::File::create(p).ok()),
    }
  }
  pub fn replay(tape: &[u32]) -> Self {
    Src { tape: tape.to_vec(), pos: 0, rng: None, dump: None }
  }
  pub fn tape(&self) -> &[u32] {
    &self.tape[..self.pos.min(self.tape.len())]
  }
  fn raw(&mut self, n: u32) -> u32 {
    debug_assert!(n > 0);
    let v = if self.pos < self.tape.len() {
      self.tape[self.pos] % n
    } else if let Some(rng) = &mut self.rng {
      let v = (rng.next() % n as u64) as u32;
      self.tape.push(v);
      if let Some(f) = &mut self.dump {
        let _ = f.write_all(format!("{v} ").as_bytes());
      }
      v
    } else {
      0
    };
    self.pos += 1;
    v
  }
  /// uniform in `0..n` (0 is the simplest)
  pub fn below(&mut self, n: usize) -> usize {
    if n <= 1 {
      return 0;
    }
    self.raw(n as u32) as usize
  }
  /// uniform in `lo..=hi`
  pub fn range(&mut self, lo: usize, hi: usize) -> usize {
    lo + self.below(hi - lo + 1)
  }
  /// true with probability pct/100; false is simplest
  pub fn chance(&mut self, pct: u32) -> bool {
    // high values are "true" so that shrinking to 0 gives false
    self.raw(100) >= 100 - pct.min(100)
  }
  pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T {
    let i = self.below(xs.len());
    xs[i]
  }
  pub fn one<T: Clone>(&mut self, xs: &[T]) -> T {
    let i = self.below(xs.len());
    xs[i].clone()
  }
  pub fn weighted(&mut self, ws: &[u32]) -> usize {
    let total: u32 = ws.iter().sum();
    let mut v = self.raw(total);
    for (i, w) in ws.iter().enumerate() {
      if v < *w {
        return i;
      }
      v -= w;
    }
    ws.len() - 1
  }
}

// ------------------------------------------------------------------- outcome

#[derive(Clone, Debug)]
pub struct Fail {
  /// stable signature of what failed (used for known findings and to keep the
  /// shrinker on the same failure)
  pub sig: String,
  pub msg: String,
}

impl Fail {
  pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
    Fail { sig: sig.into(), msg: msg.into() }
  }
}

pub type Outcome = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
  ($sig:expr, $($arg:tt)*) => { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) };
}
#[macro_export]
macro_rules! ensure {
  ($cond:expr, $sig:expr, $($arg:tt)*) => {
    if !$cond { return Err($crate::engine::Fail::new($sig, format!($($arg)*))) }
  };
}

/// Per-case recorder.
#[derive(Default)]
pub struct Cx {
  pub labels: Vec<String>,
  pub nontrivial: bool,
  pub case: String,
  pub discarded: bool,
}

impl Cx {
  pub fn label(&mut self, l: impl Into<String>) {
    self.labels.push(l.into());
  }
  pub fn label_if(&mut self, c: bool, l: &str) {
    if c {
      self.labels.push(l.to_string());
    }
  }
  /// The case as written out: used for distinctness, samples and replays.
  pub fn case(&mut self, s: impl Into<String>) {
    self.case = s.into();
    if SHOW_CASE.load(std::sync::atomic::Ordering::Relaxed) {
      println!("{}", self.case);
      let _ = std::io::stdout().flush();
    }
  }
  pub fn nontrivial(&mut self, b: bool) {
    self.nontrivial |= b;
  }
}

pub struct Prop {
  pub id: &'static str,
  pub run: fn(&mut Src, &mut Cx) -> Outcome,
  pub quick: u64,
  pub thorough: u64,
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
}

// --------------------------------------------------------------- panic guard

#[derive(Clone, Debug)]
pub struct PanicInfo {
  pub file: String,
  pub line: u32,
  pub msg: String,
}

thread_local! {
  static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}

pub fn install_hook() {
  std::panic::set_hook(Box::new(|info| {
    let (file, line) = info
      .location()
      .map(|l| (l.file().to_string(), l.line()))
      .unwrap_or_default();
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      String::from("<non-string panic>")
    };
    LAST_PANIC.with(|c| *c.borrow_mut() = Some(PanicInfo { file, line, msg }));
  }));
}

impl PanicInfo {
  /// Signature stable under edits elsewhere in the file: file + the source
  /// text of the panicking line.
  pub fn sig(&self) -> String {
    let path = if self.file.starts_with('/') {
      self.file.clone()
    } else {
      format!("/repo/{}", self.file)
    };
    let text = std::fs::read_to_string(&path)
      .ok()
      .and_then(|s| {
        s.lines()
          .nth(self.line.saturating_sub(1) as usize)
          .map(|l| l.trim().to_string())
      })
      .unwrap_or_default();
    let short = self
      .file
      .rsplit_once("/repo/")
      .map(|x| x.1.to_string())
      .unwrap_or_else(|| self.file.trim_start_matches("/repo/").to_string());
    format!("panic@{short}: {text}")
  }
}

/// Run code under test; a panic becomes an Err.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
  LAST_PANIC.with(|c| *c.borrow_mut() = None);
  match catch_unwind(AssertUnwindSafe(f)) {
    Ok(v) => Ok(v),
    Err(_) => Err(
      LAST_PANIC
        .with(|c| c.borrow_mut().take())
        .unwrap_or(PanicInfo { file: "?".into(), line: 0, msg: "?".into() }),
    ),
  }
}

// ------------------------------------------------------------------ known

#[derive(Clone, Debug)]
pub struct Known {
  pub property: String,
  pub sig: String,
  pub what: String,
  pub tape: Option<Vec<u32>>,
  pub input: Option<String>,
}

pub const VERIF: &str = "/verif";

pub fn load_known(prop: &str) -> Vec<Known> {
  let path = format!("{VERIF}/known-findings.jsonl");
  let Ok(s) = std::fs::read_to_string(path) else {
    return vec![];
  };
  let mut out = vec![];
  for l in s.lines() {
    let l = l.trim();
    if l.is_empty() {
      continue;
    }
    let j = crate::json::parse(l).expect("known-findings.jsonl: bad json line");
    if j.str("status") != Some("open") || j.str("property") != Some(prop) {
      continue;
    }
    out.push(Known {
      property: prop.to_string(),
      sig: j.str("sig").unwrap_or("").to_string(),
      what: j.str("what").unwrap_or("").to_string(),
      tape: None,
      input: j.str("input").map(|s| s.to_string()),
    });
  }
  out
}

// ---------------------------------------------------------------- execution

fn hash_str(s: &str) -> u64 {
  let mut h: u64 = 0xcbf2_9ce4_8422_2325;
  for b in s.bytes() {
    h ^= b as u64;
    h = h.wrapping_mul(0x0000_0100_0000_01B3);
  }
  h
}

pub fn case_seed(prop: &str, seed: u64, idx: u64) -> u64 {
  let mut r = Rng::new(hash_str(prop) ^ seed.wrapping_mul(0xD6E8_FEB8_6659_FD93));
  let a = r.next();
  Rng::new(a ^ idx.wrapping_mul(0xA076_1D64_78BD_642F)).next()
}

pub fn run_case(p: &Prop, src: &mut Src) -> (Outcome, Cx) {
  let mut cx = Cx::default();
  crate::alloc_count::reset();
  let r = guard(|| (p.run)(src, &mut cx));
  let out = match r {
    Ok(o) => o,
    Err(pi) => Err(Fail::new(
      pi.sig(),
      format!("panicked at {}:{}: {}", pi.file, pi.line, pi.msg),
    )),
  };
  (out, cx)
}

pub fn shrink(p: &Prop, tape: Vec<u32>, sig: &str, budget: usize, current: &str) -> Vec<u32> {
  shrink_with(tape, budget, &mut |cand| {
    let _ = std::fs::write(current, tape_str(cand));
    let mut src = Src::replay(cand);
    let (out, _) = run_case(p, &mut src);
    match out {
      Err(f) if f.sig == sig => {
        let used = src.pos.min(cand.len());
        Some(cand[..used].to_vec())
      }
      _ => None,
    }
  })
}

/// `oracle` returns the (possibly truncated) tape when it still fails alike.
pub fn shrink_with(
  tape: Vec<u32>,
  budget: usize,
  oracle: &mut dyn FnMut(&[u32]) -> Option<Vec<u32>>,
) -> Vec<u32> {
  let deadline = Instant::now() + Duration::from_secs(60);
  let mut best = tape;
  let mut evals = 0usize;
  let mut try_tape = |cand: &[u32], evals: &mut usize| -> Option<Vec<u32>> {
    if *evals >= budget || Instant::now() > deadline {
      return None;
    }
    *evals += 1;
    oracle(cand)
  };
  loop {
    let before = best.clone();
    // delete chunks
    let mut size = (best.len() / 2).max(1);
    while size >= 1 {
      let mut i = 0;
      while i + size <= best.len() {
        let mut cand = best.clone();
        cand.drain(i..i + size);
        if let Some(b) = try_tape(&cand, &mut evals) {
          best = b;
        } else {
          i += size.max(1);
        }
      }
      size /= 2;
    }
    // zero chunks
    for size in [16usize, 4, 1] {
      let mut i = 0;
      while i + size <= best.len() {
        if best[i..i + size].iter().any(|v| *v != 0) {
          let mut cand = best.clone();
          cand[i..i + size].iter_mut().for_each(|v| *v = 0);
          if let Some(b) = try_tape(&cand, &mut evals) {
            best = b;
          }
        }
        i += size;
      }
    }
    // lower values
    for i in 0..best.len() {
      if i >= best.len() || best[i] == 0 {
        continue;
      }
      let mut lo = 0u32;
      let mut hi = best[i];
      while lo < hi {
        let mid = lo + (hi - lo) / 2;
        let mut cand = best.clone();
        if i >= cand.len() {
          break;
        }
        cand[i] = mid;
        if let Some(b) = try_tape(&cand, &mut evals) {
          best = b;
          hi = mid;
          if i >= best.len() {
            break;
          }
        } else {
          lo = mid + 1;
        }
      }
    }
    if best == before || evals >= budget || Instant::now() > deadline {
      return best;
    }
  }
}

fn esc(s: &str) -> String {
  s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t").replace('\r', "\\r")
}
fn unesc(s: &str) -> String {
  let mut o = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c == '\\' {
      match it.next() {
        Some('n') => o.push('\n'),
        Some('t') => o.push('\t'),
        Some('r') => o.push('\r'),
        Some(c) => o.push(c),
        None => {}
      }
    } else {
      o.push(c)
    }
  }
  o
}

fn tape_str(t: &[u32]) -> String {
  t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}

/// Runs shard `shard` of `nshards`; writes a line protocol on stdout.
pub fn worker(p: &Prop, seed: u64, cases: u64, shard: u64, nshards: u64, start: u64, progress: &str) {
  let mut labels: BTreeMap<String, u64> = BTreeMap::new();
  let mut seen: HashSet<u64> = HashSet::new();
  let mut evals = 0u64;
  let mut discarded = 0u64;
  let known = load_known(p.id);
  let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
  let mut samples = 0;
  let keep_going = std::env::var("VH_KEEP_GOING").is_ok();
  let mut shrunk: HashSet<String> = HashSet::new();
  let stdout = std::io::stdout();
  let mut pf = std::fs::OpenOptions::new()
    .create(true)
    .write(true)
    .truncate(false)
    .open(progress)
    .expect("progress file");
  let mut idx = shard;
  while idx < start {
    idx += nshards;
  }
  while idx < cases {
    use std::io::Seek;
    let _ = pf.seek(std::io::SeekFrom::Start(0));
    let _ = pf.write_all(format!("{idx:>20}").as_bytes());
    let mut src = Src::random(case_seed(p.id, seed, idx));
    let (out, cx) = run_case(p, &mut src);
    if cx.discarded {
      discarded += 1;
    } else {
      evals += 1;
      for l in &cx.labels {
        *labels.entry(l.clone()).or_default() += 1;
      }
      if cx.nontrivial {
        seen.insert(hash_str(&cx.case));
        if samples < 2 && evals > 3 {
          samples += 1;
          let mut o = stdout.lock();
          let _ = writeln!(o, "SAMPLE\t{}", esc(&cx.case));
        }
      }
    }
    if let Err(f) = out {
      if known.iter().any(|k| k.sig == f.sig) {
        *known_hits.entry(f.sig.clone()).or_default() += 1;
      } else {
        if !shrunk.insert(f.sig.clone()) {
          idx += nshards;
          continue;
        }
        {
          let mut o = stdout.lock();
          let _ = writeln!(o, "RAWFAIL\t{idx}\t{}\t{}", esc(&f.sig), esc(&f.msg));
          let _ = o.flush();
        }
        let tape = shrink(p, src.tape().to_vec(), &f.sig, 6000, &format!("{progress}.cur"));
        let _ = std::fs::remove_file(format!("{progress}.cur"));
        let mut s2 = Src::replay(&tape);
        let (o2, cx2) = run_case(p, &mut s2);
        let f2 = o2.err().unwrap_or(f);
        let mut o = stdout.lock();
        let _ = writeln!(
          o,
          "FAIL\t{idx}\t{}\t{}\t{}\t{}",
          esc(&f2.sig),
          esc(&f2.msg),
          esc(&cx2.case),
          tape_str(&tape)
        );
        let _ = o.flush();
        if !keep_going {
          break;
        }
      }
    }
    idx += nshards;
  }
  let mut o = stdout.lock();
  let _ = writeln!(o, "EVALS\t{evals}\t{discarded}");
  for (l, n) in labels {
    let _ = writeln!(o, "LABEL\t{}\t{n}", esc(&l));
  }
  for (l, n) in known_hits {
    let _ = writeln!(o, "KNOWN\t{}\t{n}", esc(&l));
  }
  for h in seen {
    let _ = writeln!(o, "HASH\t{h}");
  }
  let _ = writeln!(o, "DONE");
}

#[derive(Default)]
struct ShardOut {
  evals: u64,
  discarded: u64,
  labels: BTreeMap<String, u64>,
  known: BTreeMap<String, u64>,
  hashes: Vec<u64>,
  samples: Vec<String>,
  fails: Vec<(u64, String, String, String, String)>,
  raw: Vec<(u64, String, String)>,
  done: bool,
}

/// Shrinks a crashing case by re-running candidates in subprocesses.
fn shrink_crash(
  exe: &std::path::Path,
  id: &str,
  seed: u64,
  idx: u64,
  prog: &str,
  what: &str,
) -> (String, String) {
  let run = |tape: &str, mode: &str| -> (Option<std::process::ExitStatus>, String) {
    match Command::new(exe).args([mode, id, tape]).stderr(Stdio::null()).output() {
      Ok(o) => (Some(o.status), String::from_utf8_lossy(&o.stdout).into_owned()),
      Err(_) => (None, String::new()),
    }
  };
  let crashes = |tape: &str| -> bool {
    use std::os::unix::process::ExitStatusExt;
    match run(tape, "known").0 {
      Some(st) => match (st.signal(), st.code()) {
        (Some(sig), _) => what == format!("crash: killed by signal {sig}"),
        (_, Some(EXIT_ALLOC)) => what == "unbounded memory use",
        (_, Some(EXIT_CPU)) => what == "did not terminate",
        _ => false,
      },
      None => false,
    }
  };
  let cur = std::fs::read_to_string(format!("{prog}.cur")).unwrap_or_default();
  let start = if !cur.is_empty() && crashes(&cur) {
    cur
  } else {
    let dump = format!("{prog}.dump");
    let _ = Command::new(exe)
      .args(["one", id, &seed.to_string(), &idx.to_string()])
      .env("VH_DUMPTAPE", &dump)
      .stdout(Stdio::null())
      .stderr(Stdio::null())
      .status();
    std::fs::read_to_string(&dump).unwrap_or_default()
  };
  let t: Vec<u32> = start.split_whitespace().filter_map(|v| v.parse().ok()).collect();
  if t.is_empty() || !crashes(&tape_str(&t)) {
    return (String::new(), String::new());
  }
  let budget = if what == "did not terminate" { 0 } else { 500 };
  let best = shrink_with(t, budget, &mut |c| crashes(&tape_str(c)).then(|| c.to_vec()));
  let best = tape_str(&best);
  let case = run(&best, "case").1;
  (best, case)
}

pub const EXIT_ALLOC: i32 = 77;
pub const EXIT_CPU: i32 = 78;

pub fn check(p: &Prop, tier: &str, seed: u64, cases: u64) -> i32 {
  let t0 = Instant::now();
  let n = std::env::var("VH_SHARDS")
    .ok()
    .and_then(|s| s.parse().ok())
    .unwrap_or_else(|| {
      std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 8)
    }) as u64;
  let exe = std::env::current_exe().unwrap();
  let tmp = std::env::temp_dir().join(format!("vh-{}-{}", p.id, std::process::id()));
  std::fs::create_dir_all(&tmp).unwrap();
  let mut handles = vec![];
  for shard in 0..n {
    let exe = exe.clone();
    let tmp = tmp.clone();
    let id = p.id;
    handles.push(std::thread::spawn(move || -> Result<ShardOut, String> {
      let prog = tmp.join(format!("p{shard}"));
      let keep_going = std::env::var("VH_KEEP_GOING").is_ok();
      let mut total = ShardOut::default();
      let mut start = 0u64;
      loop {
      let mut child = Command::new(&exe)
        .args(["worker", id, &seed.to_string(), &cases.to_string()])
        .args([&shard.to_string(), &n.to_string(), &start.to_string()])
        .arg(&prog)
        .env("VH_SCRATCH", tmp.join(format!("s{shard}")))
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
      let out = child.stdout.take().unwrap();
      let reader = std::thread::spawn(move || {
        let mut so = ShardOut::default();
        for line in BufReader::new(out).lines() {
          let Ok(line) = line else { break };
          let f: Vec<&str> = line.split('\t').collect();
          match f[0] {
            "EVALS" => {
              so.evals = f[1].parse().unwrap_or(0);
              so.discarded = f[2].parse().unwrap_or(0);
            }
            "LABEL" => *so.labels.entry(unesc(f[1])).or_default() += f[2].parse().unwrap_or(0),
            "KNOWN" => *so.known.entry(unesc(f[1])).or_default() += f[2].parse().unwrap_or(0),
            "HASH" => so.hashes.push(f[1].parse().unwrap_or(0)),
            "SAMPLE" => so.samples.push(unesc(f[1])),
            "RAWFAIL" => so.raw.push((f[1].parse().unwrap_or(0), unesc(f[2]), unesc(f[3]))),
            "FAIL" => so.fails.push((
              f[1].parse().unwrap_or(0),
              unesc(f[2]),
              unesc(f[3]),
              unesc(f[4]),
              f[5].to_string(),
            )),
            "DONE" => so.done = true,
            _ => {}
          }
        }
        so
      });
      // watchdog on wall-clock silence: an error, never a verdict
      let mut last = String::new();
      let mut last_t = Instant::now();
      let status = loop {
        match child.try_wait() {
          Ok(Some(st)) => break st,
          Ok(None) => {}
          Err(e) => return Err(e.to_string()),
        }
        std::thread::sleep(Duration::from_millis(30));
        let cur = std::fs::read_to_string(&prog).unwrap_or_default();
        if cur != last {
          last = cur;
          last_t = Instant::now();
        } else if last_t.elapsed() > Duration::from_secs(300) {
          let _ = child.kill();
          let _ = child.wait();
          return Err(format!("shard {shard}: no progress at case {}", last.trim()));
        }
      };
      let mut so = reader.join().map_err(|_| "reader panicked".to_string())?;
      if !so.done {
        use std::os::unix::process::ExitStatusExt;
        let idx: u64 = std::fs::read_to_string(&prog)
          .unwrap_or_default()
          .trim()
          .parse()
          .unwrap_or(0);
        let what = match (status.signal(), status.code()) {
          (Some(sig), _) => format!("crash: killed by signal {sig}"),
          (_, Some(EXIT_ALLOC)) => "unbounded memory use".to_string(),
          (_, Some(EXIT_CPU)) => "did not terminate".to_string(),
          (_, c) => return Err(format!("shard {shard}: worker exited with {c:?} at case {idx}")),
        };
        if status.signal() == Some(9) {
          return Err(format!("shard {shard}: worker was killed (out of memory?) at case {idx}"));
        }
        if so.raw.len() > so.fails.len()
          && let Some((i, sig, msg)) = so.raw.last().cloned()
        {
          so.fails.push((i, sig, format!("{msg} (unshrunk)"), String::new(), String::new()));
        }
        let dup = total.fails.iter().any(|f| f.1 == what);
        if !dup {
          let (tape, case) = shrink_crash(&exe, id, seed, idx, &prog.display().to_string(), &what);
          so.fails.push((idx, what.clone(), what, case, tape));
        }
        if keep_going {
          // development aid: carry on behind the crash
          total.fails.extend(so.fails);
          start = idx + 1;
          continue;
        }
      }
      let fails = std::mem::take(&mut total.fails);
      so.fails.extend(fails);
      return Ok(so);
      }
    }));
  }
  let mut all = ShardOut::default();
  let mut errors = vec![];
  let mut hashes: HashSet<u64> = HashSet::new();
  for h in handles {
    match h.join() {
      Ok(Ok(so)) => {
        all.evals += so.evals;
        all.discarded += so.discarded;
        for (k, v) in so.labels {
          *all.labels.entry(k).or_default() += v;
        }
        for (k, v) in so.known {
          *all.known.entry(k).or_default() += v;
        }
        hashes.extend(so.hashes);
        all.samples.extend(so.samples);
        all.fails.extend(so.fails);
      }
      Ok(Err(e)) => errors.push(e),
      Err(_) => errors.push("shard thread panicked".into()),
    }
  }
  if let Some(d) = tmp.to_str().filter(|d| d.starts_with("/tmp/vh-")) {
    let _ = std::fs::remove_dir_all(d);
  }
  let known = load_known(p.id);
  all.fails.retain(|f| !known.iter().any(|k| k.sig == f.1));
  all.fails.sort_by(|a, b| a.0.cmp(&b.0));

  // ---- known findings: reproduce each listed one on its recorded input
  for k in &known {
    println!("KNOWN-FINDING: property={} {}", p.id, k.what);
  }

  // ---- evidence
  let mut ev = String::new();
  let samples: Vec<String> = all
    .samples
    .iter()
    .take(6)
    .map(|s| crate::json::quote(&truncate(s, 1500)))
    .collect();
  let labels: Vec<String> = all
    .labels
    .iter()
    .map(|(k, v)| format!("{}: {v}", crate::json::quote(k)))
    .collect();
  let knowns: Vec<String> = all
    .known
    .iter()
    .map(|(k, v)| format!("{}: {v}", crate::json::quote(k)))
    .collect();
  let _ = write!(
    ev,
    "{{\n \"property\": \"{}\",\n \"tier\": \"{tier}\",\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"discarded\": {},\n  \"rule\": {},\n  \"labels\": {{{}}},\n  \"known_finding_hits\": {{{}}},\n  \"samples\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
    p.id,
    all.evals,
    hashes.len(),
    all.discarded,
    crate::json::quote(p.rule),
    labels.join(", "),
    knowns.join(", "),
    samples.join(",\n   "),
    p.assumptions.iter().map(|s| crate::json::quote(s)).collect::<Vec<_>>().join(", "),
    t0.elapsed().as_secs_f64(),
    all.fails.len(),
  );
  let _ = std::fs::create_dir_all(format!("{VERIF}/evidence"));
  let _ = std::fs::write(format!("{VERIF}/evidence/{}.json", p.id), ev);

  println!(
    "{}: {} cases ({} discarded), {} distinct non-trivial, {:.1}s",
    p.id,
    all.evals,
    all.discarded,
    hashes.len(),
    t0.elapsed().as_secs_f64()
  );
  for e in &errors {
    eprintln!("ERROR: {e}");
  }
  if !all.fails.is_empty() {
    let mut shown: HashSet<String> = HashSet::new();
    for (idx, sig, msg, case, tape) in &all.fails {
      if !shown.insert(sig.clone()) {
        continue;
      }
      if shown.len() > 40 {
        break;
      }
      let name = format!("{}-{:016x}.replay", p.id, hash_str(sig));
      let dir = format!("{VERIF}/replays");
      let _ = std::fs::create_dir_all(&dir);
      let path = format!("{dir}/{name}");
      let _ = std::fs::write(
        &path,
        format!(
          "property={}\nseed={seed}\nindex={idx}\nsig={}\ntape={tape}\nmsg={}\n--- case ---\n{case}\n",
          p.id,
          esc(sig),
          esc(msg)
        ),
      );
      println!("--- failing case (index {idx}, sig {sig}):\n{}\n--- {}", truncate(case, 3000), truncate(msg, 3000));
      println!("VIOLATION property={} replay={path}", p.id);
    }
    return 1;
  }
  if !errors.is_empty() {
    return 2;
  }
  0
}

pub fn truncate(s: &str, n: usize) -> String {
  if s.len() <= n {
    return s.to_string();
  }
  let mut e = n;
  while !s.is_char_boundary(e) {
    e -= 1;
  }
  format!("{}…[{} bytes more]", &s[..e], s.len() - e)
}

/// Re-run a replay file. Exit 1 if it still fails.
pub fn replay(p: &Prop, path: &str) -> i32 {
  let s = std::fs::read_to_string(path).expect("replay file");
  let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{k}=")).map(|v| v.to_string()));
  let tape = get("tape").unwrap_or_default();
  let mut src = if tape.trim().is_empty() {
    let seed = get("seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let idx = get("index").and_then(|s| s.parse().ok()).unwrap_or(0);
    Src::random(case_seed(p.id, seed, idx))
  } else {
    let t: Vec<u32> = tape.split_whitespace().map(|v| v.parse().unwrap()).collect();
    Src::replay(&t)
  };
  let (out, cx) = run_case(p, &mut src);
  println!("{}", cx.case);
  match out {
    Ok(()) => {
      println!("PASS");
      0
    }
    Err(f) => {
      println!("FAIL [{}] {}", f.sig, f.msg);
      println!("VIOLATION property={} replay={path}", p.id);
      1
    }
  }
}

/// Prints the case a tape stands for, as far as it gets before a crash.
pub fn show_case(p: &Prop, tape: &str) -> i32 {
  let t: Vec<u32> = tape.split_whitespace().map(|v| v.parse().unwrap()).collect();
  SHOW_CASE.store(true, std::sync::atomic::Ordering::Relaxed);
  let mut src = Src::replay(&t);
  let _ = run_case(p, &mut src);
  0
}

pub fn one(p: &Prop, seed: u64, idx: u64) -> i32 {
  let mut src = Src::random(case_seed(p.id, seed, idx));
  let (out, cx) = run_case(p, &mut src);
  println!("{}", cx.case);
  match out {
    Ok(()) => 0,
    Err(f) => {
      println!("FAIL [{}] {}", f.sig, f.msg);
      1
    }
  }
}

static SHOW_CASE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub fn replay_tape(p: &Prop, tape: &str) -> i32 {
  let t: Vec<u32> = tape.split_whitespace().map(|v| v.parse().unwrap()).collect();
  let mut src = Src::replay(&t);
  let (out, _) = run_case(p, &mut src);
  match out {
    Ok(()) => 0,
    Err(f) => {
      println!("SIG\t{}", f.sig);
      1
    }
  }
}
