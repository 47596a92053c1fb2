//! Properties relating the outputs of several conversions of related inputs.
use crate::conv::*;
use crate::engine::*;
use crate::generate::*;
use crate::props::c01;
use crate::props::prep::{differ, doc_lines, strip};
use crate::props::wf::{settings_for, show_opts};
use crate::{ensure, fail};
use asciidork_core::*;
use asciidork_parser::prelude::*;

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "C02",
      run: run_repeat,
      quick: 180_000,
      thorough: 3_000_000,
      rule: "random and malformed documents under random settings, converted again after other documents, in other threads and in a shared arena; non-trivial: the output has 3+ elements or there is a diagnostic",
      assumptions: &["settings that ask for the current time are not used"],
    },
    Prop {
      id: "C21",
      run: run_endings,
      quick: 240_000,
      thorough: 4_000_000,
      rule: "random and malformed documents with the line endings, trailing spaces, final and leading blank lines varied; non-trivial: 3+ lines",
      assumptions: &[],
    },
    Prop {
      id: "C24",
      run: run_concat,
      quick: 180_000,
      thorough: 3_000_000,
      rule: "2-4 random block documents joined by breaks, or as sections, with comments and false conditionals of junk in between, against the joined outputs; non-trivial: 3+ blocks",
      assumptions: &[],
    },
  ]
}

fn elements(html: &str) -> usize {
  html.matches('<').count()
}

fn diag(d: &Diagnostic) -> String {
  format!("{:?} {} {}", d.source_file, d.plain_text(), d.message)
}

// ---------------------------------------------------------------- C02

/// text with many anchors and references, broken ones too
fn xrefs(s: &mut Src) -> String {
  let mut out = String::new();
  for i in 0..s.range(1, 12) {
    let id = s.one(&["a", "b", "c", "d", "Foo Bar", "e.adoc#x"]);
    match s.below(10) {
      9 => {
        let mut tags = vec![];
        for _ in 0..s.range(1, 4) {
          tags.push(s.one(&["aa", "bb", "cc", "tag-1", "tag-2", "tag-3", "!ee", "*", "!*"]));
        }
        out.push_str(&format!("include::inc.adoc[tags={}]\n\n", tags.join(";")));
      }
      0 => out.push_str(&format!("[[{id}]]\n== t{i}\n\n")),
      1 => out.push_str(&format!("[[{id}]]p{i}\n\n")),
      2 => out.push_str(&format!("[#{id}]\n.T{i}\n----\nx\n----\n\n")),
      3 => out.push_str(&format!("xref:{id}[]\n\n")),
      4 => out.push_str(&format!("xref:{id}[x] <<z{i}>>\n\n")),
      5 => out.push_str(&format!("== {id}\n\n")),
      6 => out.push_str(&format!("footnote:{id}[x] footnote:{id}[]\n\n")),
      7 => out.push_str(&format!(":{}: x\n\n", s.one(&["p", "q", "r"]))),
      _ => out.push_str(&format!("<<{id}>> {{p}} {{q}}\n")),
    }
  }
  out
}

fn run_repeat(s: &mut Src, cx: &mut Cx) -> Outcome {
  let src = match s.below(4) {
    0 | 1 => xrefs(s),
    2 => c01::doc(s),
    _ => doc_lines(s).map(|l| l.join("\n")).unwrap_or_default(),
  };
  let mut o = settings_for(s);
  o.strict = s.chance(15);
  if s.chance(30) {
    o = o.attr("attribute-missing", "warn");
  }
  let mode = s.below(4);
  if mode != 3 {
    let mut inc = String::new();
    for _ in 0..s.below(6) {
      inc.push_str(s.pick(&["// tag::aa[]\n", "// end::aa[]\n", "// tag::bb[]\n", "// end::bb[]\n", "x\n", "y\n"]));
    }
    o.safe = SafeMode::Unsafe;
    o.base_dir = Some("/d".into());
    o.file = FileKind::Path("/d/main.adoc".into());
    o = o.files([("inc.adoc".to_string(), inc.clone().into_bytes()), ("/d/inc.adoc".to_string(), inc.into_bytes())].into());
  }
  let other = if s.chance(50) { c01::doc(s) } else { xrefs(s) };
  cx.case(format!("{} strict={} mode={mode}\n{src}\n--- in between:\n{other}", show_opts(&o), o.strict));
  let a = convert(&src, &o);
  cx.nontrivial(elements(a.html()) >= 3 || !a.diags.is_empty());
  let b = match mode {
    0 => convert(&src, &o),
    1 => {
      convert(&other, &o);
      convert(&src, &o)
    }
    2 => {
      let (src, o) = (src.clone(), o.clone());
      std::thread::Builder::new().stack_size(8 << 20).spawn(move || convert(&src, &o)).unwrap().join().unwrap()
    }
    _ => {
      // two parsers alive at once in one arena
      let bump = Bump::new();
      let other: &str = bump.alloc_str(&other);
      let mut p = Parser::from_str(&src, SourceFile::Tmp, &bump);
      let mut q = Parser::from_str(other, SourceFile::Tmp, &bump);
      p.apply_job_settings(settings(&o));
      q.apply_job_settings(settings(&Opts::default()));
      let q = q.parse();
      let r = match p.parse() {
        Ok(r) => {
          let w = r.warnings.clone();
          let h = match o.be {
            Be::Html => asciidork_dr_html_backend::convert(r.document),
            Be::Html5s => asciidork_backend_html5s::convert(r.document),
          };
          Conv { html: h.ok(), diags: w, asked: vec![] }
        }
        Err(d) => Conv { html: None, diags: d, asked: vec![] },
      };
      drop(q);
      r
    }
  };
  let name = ["again", "after another", "in another thread", "in a shared arena"][mode];
  if a.html() != b.html() {
    let (x, y) = differ(a.html(), b.html());
    fail!(format!("output {name}"), "converting the same document {name} gives another output\nfirst  …{x}\nsecond …{y}");
  }
  let (x, y): (Vec<String>, Vec<String>) = (a.diags.iter().map(diag).collect(), b.diags.iter().map(diag).collect());
  ensure!(x == y, format!("diagnostics {name}"), "converting the same document {name} gives other diagnostics\nfirst  {x:#?}\nsecond {y:#?}");
  Ok(())
}

// ---------------------------------------------------------------- C21

fn rstrip_lines(html: &str) -> String {
  let l: Vec<_> = html.split('\n').map(|l| l.split([' ', '\t']).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")).collect();
  l.join("\n").replace(" <", "<").replace("\n<", "<")
}

/// what is underlined of the line shown
fn width(d: &Diagnostic) -> u32 {
  d.underline_width.min((d.line.chars().count() as u32).saturating_sub(d.underline_start))
}

fn run_endings(s: &mut Src, cx: &mut Cx) -> Outcome {
  let soup = s.chance(40);
  let src = if soup {
    c01::doc(s)
  } else {
    match doc_lines(s) {
      Some(l) => l.join("\n"),
      None => String::new(),
    }
  };
  if src.contains('\r') || src.contains('\u{feff}') || src.is_empty() {
    cx.discarded = true;
    return Ok(());
  }
  let be = if s.chance(25) { Be::Html5s } else { Be::Html };
  let o = Opts::default().be(be);
  let mode = s.below(if soup { 2 } else { 5 });
  let mut var = String::new();
  match mode {
    0 => var = src.replace('\n', "\r\n"),
    1 => {
      for l in src.split_inclusive('\n') {
        match l.strip_suffix('\n') {
          Some(l) => {
            var.push_str(l);
            var.push_str(if s.chance(50) { "\r\n" } else { "\n" });
          }
          None => var.push_str(l),
        }
      }
    }
    2 => {
      var = src.trim_end_matches('\n').to_string();
      for _ in 0..s.below(4) {
        var.push_str(s.pick(&["\n", "\r\n", " \n", "\n"]));
      }
    }
    3 => {
      for _ in 0..s.range(1, 3) {
        var.push_str(s.pick(&["\n", "\r\n", "\n"]));
      }
      var.push_str(&src);
    }
    _ => {
      for l in src.split_inclusive('\n') {
        match l.strip_suffix('\n') {
          Some(l) if !l.ends_with('+') => {
            var.push_str(l);
            if s.chance(20) {
              var.push_str(s.pick(&[" ", "  ", "\t", " \t "]));
            }
            var.push('\n');
          }
          _ => var.push_str(l),
        }
      }
    }
  }
  let name = ["CRLF", "mixed line endings", "final newlines", "leading newlines", "trailing spaces"][mode];
  cx.case(format!("{be:?} {name}\n{var:?}\n{src}"));
  cx.nontrivial(src.lines().count() >= 3);
  cx.label(name);
  let (a, b) = (convert(&src, &o), convert(&var, &o));
  let (x, y) = if matches!(mode, 2 | 4) { (rstrip_lines(a.html()), rstrip_lines(b.html())) } else { (a.html().to_string(), b.html().to_string()) };
  if x != y {
    let (p, q) = differ(&x, &y);
    fail!(format!("{name} {}", strip(&p)), "{name} change the output\nexpected …{p}\nbut got  …{q}");
  }
  let dy = if mode == 3 { var.lines().count() - src.lines().count() } else { 0 } as u32;
  if src.contains("===") {
    // positions within AsciiDoc cells are approximate
    let (x, y): (Vec<_>, Vec<_>) = (a.diags.iter().map(|d| &d.message).collect(), b.diags.iter().map(|d| &d.message).collect());
    ensure!(x == y, format!("diags {name}"), "{name} change the diagnostics\nexpected {x:?}\nbut got  {y:?}");
    return Ok(());
  }
  let (x, y): (Vec<_>, Vec<_>) = (
    a.diags.iter().map(|d| (d.line_num + dy, d.message.clone(), d.underline_start, width(d))).collect(),
    b.diags.iter().map(|d| (d.line_num, d.message.clone(), d.underline_start, width(d))).collect(),
  );
  ensure!(x == y, format!("diags {name}"), "{name} change the diagnostics\nexpected {x:?}\nbut got  {y:?}");
  Ok(())
}

// ---------------------------------------------------------------- C24

/// lines that leave no trace in the output, between blocks
fn nothing(s: &mut Src) -> String {
  let mut out = String::new();
  for _ in 0..s.below(3) {
    match s.below(5) {
      0 => out.push_str(&format!("// {}\n\n", s.pick(&["x", "include::x[]", "----", "[[id]]", "== x", "ifdef::x[]", "endif::[]", "|==="]))),
      1 => {
        let f = "/".repeat(s.range(4, 4));
        let mut junk = c01::rand_text(s, 10);
        junk = junk.replace('\r', "");
        while junk.contains("////") {
          junk = junk.replace("////", "//");
        }
        junk = junk.lines().filter(|l| !["include::", "ifdef::", "ifndef::", "ifeval::", "endif::"].iter().any(|d| l.contains(d))).collect::<Vec<_>>().join("\n");
        out.push_str(&format!("{f}\n{junk}\n{f}\n\n"));
      }
      2 => {
        let mut junk = c01::rand_text(s, 10);
        junk = junk.lines().filter(|l| !["ifdef::", "ifndef::", "ifeval::", "endif::"].iter().any(|d| l.contains(d))).collect::<Vec<_>>().join("\n");
        out.push_str(&format!("ifdef::not-defined-{}[]\n{junk}\nendif::[]\n\n", s.below(3)));
      }
      3 => out.push_str(&format!(":zz-{}: {}\n\n", s.below(3), s.pick(&["x", "*y*", "{empty}", "http://a.b[c]"]))),
      _ => out.push('\n'),
    }
  }
  out
}

/// blocks that put the parser into unusual states
const STATEFUL: [&str; 44] = [
  "[%nowrap]\n....\na\n b\n....",
  "[%nowrap]\n----\na\n b\n----",
  "[%hardbreaks]\nx\ny",
  "[subs=none]\n{empty}",
  "[subs=\"+macros,-quotes\"]\n{empty}",
  "[verse]\n{empty}",
  "[listing]\n{empty}",
  "[stem]\n{empty}",
  "[literal,line-comment=%]\n....\na % <1>\n....\n<1> z",
  "[listing]\na % <1>\n\n[literal]\nb -- <2>\n\n<1> x\n<2> y",
  "[bibliography]\n* [[[b1]]] x\n* [[[b2,2]]] y",
  "* [[[c1]]] x\n* [[[c2,2]]] y",
  "----\na # <1>\nb // <2>\n----\n<1> x\n<2> y",
  "----\na <1> <2>\n----\n<1> x\n<2> y",
  "<1> x\n<.> y",
  "----\nx <.>\ny <.>\n----\n<.> x\n<.> y",
  "[source,line-comment=%]\n----\na % <1>\n----\n<1> z",
  "----\na % <1>\n----\n<1> z",
  "[source,subs=\"+quotes,-callouts\"]\n----\n*a* <1>\n----",
  "[subs=none]\n*a* {foo} <b>",
  "[subs=+quotes]\n....\n*a* {foo} <b>\n....",
  "[verse]\n*a* {foo}\n  b",
  "[stem]\n++++\n*a*\n++++",
  "++++\n*a* {foo}\n++++",
  "> a\n> * b\n>> c",
  ">> d",
  "\"x\n*y*\"\n-- z",
  "a:: b\nc::: d\n e",
  "a::\n\n b",
  "* a\n+\n--\n* b\n\n** c\n--",
  "[qanda]\na:: b",
  "[horizontal]\na:: b\nc:: d",
  "|===\na|* a\n!x\n|*b* l|*c*\n|===",
  "[cols=\"1m,1a\"]\n|===\n|a |\n[cols=2*]\n!===\n!x !y\n!===\n|===",
  ",===\na,\"b\n*c*\"\n,===",
  ":===\na:b\\:c\n:===",
  "[format=dsv,separator=;]\n|===\na;b\n|===",
  "xref:zz[a *b*] link:u[v,w=x] ((i)) (((j,k))) +++*x*+++ pass:q[*y*] $$*z*$$",
  "kbd:[a+b] btn:[c] menu:d[e] a +\nb",
  "[#i1.r1%o1,foo=\"x y\"]\n.Tt\nu",
  "* [x] a\n* [ ] b",
  ". a\n.. b\n... c",
  "[start=4]\n. x",
  "toc::[]",
];

fn run_concat(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = if s.chance(25) { Be::Html5s } else { Be::Html };
  let mut o = Opts::default().be(be);
  for k in ["table-caption", "figure-caption", "example-caption"] {
    o.attrs.push((k.into(), AttrValue::Bool(false), true));
  }
  if s.chance(30) {
    o = o.attr("icons", s.pick(&["font", ""]));
  }
  let sections = s.chance(40);
  let mut parts = vec![];
  let mut blocks = 0;
  for i in 0..s.range(2, 4) {
    let cfg = Cfg { budget: s.range(1, 7) as i32, html5s: be == Be::Html5s, ..Cfg::default() };
    let s2 = s.below(100);
    let mut g = G::new(s, cfg);
    g.n = 1000 * i;
    let d = if s2 < 45 {
      blocks += 2;
      let n = g.s.range(1, 2);
      (0..n).map(|_| format!("{}\n", g.s.pick(&STATEFUL))).collect::<Vec<_>>().join("\n'''\n\n")
    } else {
      let (d, t) = g.document();
      blocks += t.count();
      d
    };
    parts.push(if sections { format!("== Part {i}\n\n{d}") } else { d });
  }
  let mut doc = nothing(s);
  let mut want = String::new();
  for (i, p) in parts.iter().enumerate() {
    if i > 0 {
      doc.push('\n');
      if !sections {
        doc.push_str("'''\n\n");
        want.push_str(convert("'''", &o).html());
      }
      doc.push_str(&nothing(s));
    }
    doc.push_str(p);
    doc.push('\n');
    want.push_str(convert(p, &o).html());
  }
  doc.push('\n');
  if !sections {
    doc.push_str("'''\n\n");
    want.push_str(convert("'''", &o).html());
  }
  doc.push_str(&nothing(s));
  cx.case(format!("{be:?}\n{doc}"));
  cx.nontrivial(blocks > 3);
  let got = convert(&doc, &o);
  if got.html() != want {
    let (p, q) = differ(&want, got.html());
    fail!(format!("joined {}", strip(&p)), "the parts converted together differ from the parts converted one by one\nexpected …{p}\nbut got  …{q}");
  }
  Ok(())
}
