#![allow(clippy::all, dead_code)]
mod alloc_count;
mod conv;
mod engine;
mod generate;
mod html;
mod json;
mod props;
mod sem;

#[global_allocator]
static A: alloc_count::Counting = alloc_count::Counting;

fn in_big_stack(f: impl FnOnce() -> i32 + Send + 'static) -> i32 {
  // 8 MiB: what a main thread gets, so recursion that overflows here would
  // overflow for users too
  std::thread::Builder::new()
    .stack_size(8 << 20)
    .spawn(f)
    .unwrap()
    .join()
    .unwrap_or(101)
}

fn main() {
  let a: Vec<String> = std::env::args().skip(1).collect();
  if a.get(1).is_some_and(|id| id == "C23") {
    // the time zone where it is another day now
    let secs = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
    unsafe { std::env::set_var("TZ", if secs / 3600 % 24 < 12 { "AAA+12" } else { "AAA-12" }) };
  }
  let code = match a.first().map(|s| s.as_str()) {
    Some("list") => {
      for p in props::all() {
        println!("{}", p.id);
      }
      0
    }
    Some("check") => {
      let p = props::get(&a[1]);
      let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
      let tier = a.get(2).cloned().unwrap_or(tier);
      let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
      let cases = std::env::var("VH_CASES")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
      let tier = if tier == "thorough" { "thorough" } else { "quick" };
      engine::check(&p, tier, seed, cases)
    }
    Some("worker") => {
      engine::install_hook();
      alloc_count::arm();
      in_big_stack(move || {
        let p = props::get(&a[1]);
        let n = |i: usize| a[i].parse::<u64>().unwrap();
        engine::worker(&p, n(2), n(3), n(4), n(5), n(6), &a[7]);
        0
      })
    }
    Some("replay") => {
      engine::install_hook();
      alloc_count::arm();
      in_big_stack(move || {
        let p = props::get(&a[1]);
        engine::replay(&p, &a[2])
      })
    }
    Some("case") | Some("one") => {
      engine::install_hook();
      alloc_count::arm();
      in_big_stack(move || {
        let p = props::get(&a[1]);
        if a[0] == "case" {
          engine::show_case(&p, &a[2])
        } else {
          engine::one(&p, a[2].parse().unwrap(), a[3].parse().unwrap())
        }
      })
    }
    Some("known") => {
      // reproduce one known finding's recorded tape; exit 1 if it fails with
      // the recorded signature
      engine::install_hook();
      alloc_count::arm();
      in_big_stack(move || {
        let p = props::get(&a[1]);
        engine::replay_tape(&p, &a[2])
      })
    }
    Some("conv") => {
      // conv [html|html5s] [strict] < src   (for exploring by hand)
      engine::install_hook();
      use std::io::Read;
      let mut s = String::new();
      std::io::stdin().read_to_string(&mut s).unwrap();
      in_big_stack(move || {
        let mut o = conv::Opts::default();
        for x in &a[1..] {
          match x.as_str() {
            "html5s" => o.be = conv::Be::Html5s,
            "strict" => o.strict = true,
            "standalone" => o.embedded = false,
            "article" => o.doctype = Some(asciidork_core::DocType::Article),
            "book" => o.doctype = Some(asciidork_core::DocType::Book),
            "manpage" => o.doctype = Some(asciidork_core::DocType::Manpage),
            "unsafe" => o.safe = asciidork_core::SafeMode::Unsafe,
            "path" => o.file = conv::FileKind::Path("/d/x.adoc".into()),
            "inline" => o.doctype = Some(asciidork_core::DocType::Inline),
            kv => {
              let (k, v) = kv.split_once('=').unwrap_or((kv, ""));
              if let Some(f) = k.strip_prefix("f:") {
                o.base_dir.get_or_insert("/d".into());
                let f = if f.starts_with('/') { f.to_string() } else { format!("/d/{f}") };
                let v = v.replace("\\n", "\n").replace("\\r", "\r");
                o.files.get_or_insert_with(Default::default).insert(f, v.into_bytes());
                continue;
              }
              o = o.attr(k, v);
            }
          }
        }
        match engine::guard(|| conv::convert(&s, &o)) {
          Ok(c) => {
            for d in &c.diags {
              println!("DIAG {}:{}+{} {:?} | {}", d.line_num, d.underline_start, d.underline_width, d.line, d.message);
            }
            println!("{}", c.html());
            if let Some(h) = &c.html {
              match html::parse(h) {
                Ok(_) => {}
                Err(e) => println!("MALFORMED {e}"),
              }
            }
            0
          }
          Err(p) => {
            println!("PANIC {} {}:{} {}", p.sig(), p.file, p.line, p.msg);
            1
          }
        }
      })
    }
    _ => {
      eprintln!("usage: vh list | check ID [quick|thorough] | replay ID FILE");
      2
    }
  };
  std::process::exit(code);
}
