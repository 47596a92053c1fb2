//! C09: anchors and cross references. C10: footnotes. C11: callouts.
use super::incl;
use crate::conv::*;
use crate::engine::*;
use crate::html::{self, El, Node};
use crate::{ensure, fail};
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
  vec![
  Prop {
    id: "C09",
    run: run_refs,
    quick: 220_000,
    thorough: 4_000_000,
    rule: "random documents of sections, blocks, lists, tables and included files with anchors of every form anywhere, and references of every form to them, to missing anchors and to other documents, against a model of targets and texts; non-trivial: 2+ anchors and 2+ references",
    assumptions: &["anchors and references are not nested in the texts of others", "includes resolved from memory"],
  },
  Prop {
    id: "C10",
    run: run_notes,
    quick: 260_000,
    thorough: 4_000_000,
    rule: "random documents of sections, blocks, lists, tables, titles and included files with footnotes (anonymous, named, referred to again before or after, nested, held in attributes) anywhere, against a model of their numbers and texts; non-trivial: 3+ footnote references",
    assumptions: &["every named footnote is defined somewhere", "includes resolved from memory"],
  },
  ]
}

// ---------------------------------------------------------------- hosts

/// what fills the holes of a document
pub trait Fill {
  /// inline text without newlines
  fn inl(&mut self, s: &mut Src, host: Host) -> String;
  /// lines above a block
  fn meta(&mut self, s: &mut Src, kind: Kind) -> Vec<String>;
  /// the block after the last `meta`, with the first word in it
  fn done(&mut self, _word: &str) {}
  fn heading(&mut self, s: &mut Src, discrete: bool) -> (Vec<String>, String);
  fn image_attrs(&mut self, _s: &mut Src) -> String {
    String::new()
  }
  fn word(&mut self) -> String;
  /// the file the next block goes to
  fn file(&mut self, _s: &mut Src) -> usize {
    0
  }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Host {
  Text,
  Term,
  Cell,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
  Para,
  List,
  Block,
  Table,
  Image,
  Verbatim,
}

type Lines = Vec<String>;

fn hosts(s: &mut Src, f: &mut dyn Fill, depth: usize, cell: bool) -> Lines {
  let mut out;
  let k = s.weighted(&[40, 12, 8, 10, if depth < 2 { 14 } else { 0 }, if cell { 0 } else { 10 }, 6, 5, 5, if depth == 0 { 6 } else { 0 }]);
  let w = f.word();
  let text = if cell { Host::Cell } else { Host::Text };
  match k {
    0 => {
      out = f.meta(s, Kind::Para);
      f.done(&w);
      let i = f.inl(s, text);
      out.push(format!("{w} {i}"));
      for _ in 0..s.weighted(&[60, 25, 15]) {
        // no line may look like the start of a block
        let w = f.word();
        let i = f.inl(s, text);
        out.push(if s.chance(80) || i.trim() != i || i.starts_with("[[") { format!("{w} {i}") } else { format!("{i} {w}") });
      }
    }
    1 | 2 => {
      out = f.meta(s, Kind::List);
      f.done(&w);
      for j in 0..s.range(1, 3) {
        let i = f.inl(s, text);
        let first = if j == 0 { w.clone() } else { f.word() };
        let m = if k == 1 { "*" } else { "." };
        out.push(if j == 0 || s.chance(70) { format!("{m} {first} {i}") } else { format!("{m}{m} {first} {i}") });
        if s.chance(20) {
          out.push("+".into());
          let w = f.word();
          let i = f.inl(s, text);
          out.push(format!("{w} {i}"));
        }
      }
      out.push(String::new());
      out.push("// -".into());
    }
    3 => {
      out = f.meta(s, Kind::List);
      f.done(&w);
      for j in 0..s.range(1, 2) {
        let first = if j == 0 { w.clone() } else { f.word() };
        let t = f.inl(s, Host::Term);
        let i = f.inl(s, text);
        let w2 = f.word();
        out.push(format!("{first} {t}:: {w2} {i}"));
      }
      out.push(String::new());
      out.push("// -".into());
    }
    4 => {
      out = f.meta(s, Kind::Block);
      f.done(&w);
      let d = ["====", "****", "____", "--"][if depth == 0 { s.below(4) } else { 3 }];
      let d = if depth == 1 && d == "--" { "=====" } else { d };
      out.push(d.into());
      out.push(w);
      for _ in 0..s.range(1, 2) {
        out.push(String::new());
        out.extend(hosts(s, f, depth + 1, cell));
      }
      out.push(String::new());
      out.push(d.into());
    }
    5 => {
      out = f.meta(s, Kind::Table);
      f.done(&w);
      let cols = s.range(1, 3);
      let adoc = s.chance(30);
      let head = s.chance(30);
      let foot = s.chance(20);
      let mut spec = vec!["1".to_string(); cols];
      if adoc {
        spec[cols - 1].push('a');
      }
      let o = match (head, foot) {
        (true, true) => ",options=\"header,footer\"",
        (true, false) => ",%header",
        (false, true) => ",%footer",
        _ => "",
      };
      if o.starts_with(",%") {
        out.push(format!("[{},cols=\"{}\"]", &o[1..], spec.join(",")));
      } else {
        out.push(format!("[cols=\"{}\"{o}]", spec.join(",")));
      }
      out.push("|===".into());
      let rows = s.range(2, 4);
      for r in 0..rows {
        let mut line = String::new();
        for c in 0..cols {
          let w = if r == 0 && c == 0 { w.clone() } else { f.word() };
          let i = f.inl(s, Host::Cell);
          line.push_str(&format!("|{w} {i} "));
        }
        out.push(line.trim_end().to_string());
        if adoc && s.chance(50) && r > 0 && !(foot && r + 1 == rows) {
          out.push(String::new());
          out.extend(hosts(s, f, 2, true));
        }
      }
      out.push("|===".into());
    }
    6 => {
      out = f.meta(s, Kind::Para);
      f.done(&w);
      let i = f.inl(s, text);
      out.push(format!("{}: {w} {i}", s.pick(&["NOTE", "TIP", "WARNING"])));
    }
    7 => {
      out = f.meta(s, Kind::Verbatim);
      f.done(&w);
      let d = s.pick(&["----", "...."]);
      out.extend([d.to_string(), format!("{w} [[no]] <<no>> footnote:[no]"), d.to_string()]);
    }
    8 => {
      out = f.meta(s, Kind::Image);
      let attrs = f.image_attrs(s);
      f.done("");
      out.push(format!("image::{w}.png[{attrs}]"));
    }
    _ => {
      let (m, h) = f.heading(s, true);
      out = m;
      out.push(format!("{} {h}", s.pick(&["==", "===", "===="])));
    }
  }
  out
}

/// blocks and sections in sequence, a chunk of lines each
fn flow(s: &mut Src, f: &mut dyn Fill, lo: usize, hi: usize) -> Vec<(usize, Lines)> {
  let mut out = vec![];
  let mut level = 1;
  for _ in 0..s.range(lo, hi) {
    let file = f.file(s);
    if s.chance(25) {
      let max = (level + 1).min(4);
      level = s.range(2, max);
      let (m, h) = f.heading(s, false);
      let mut l = m;
      l.push(format!("{} {h}", "=".repeat(level)));
      out.push((file, l));
    } else {
      out.push((file, hosts(s, f, 0, false)));
    }
  }
  out
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, PartialEq)]
enum Mark {
  /// the element has the word in its text
  Within(String),
  /// the element is an empty anchor before the word
  Before(String),
  /// the text of the element
  Is(String),
}

#[derive(Clone, Debug)]
struct Target {
  id: String,
  /// what references without a text show
  text: Option<String>,
  mark: Mark,
  /// the chunk it is in
  file: usize,
}

#[derive(Default)]
struct Refs {
  n: usize,
  targets: Vec<Target>,
  pending: Option<Target>,
  refs: usize,
  file: usize,
  files: usize,
  twice: bool,
  split: bool,
  srcs: Vec<String>,
  /// whether the reference can go over two lines
  wraps: Vec<bool>,
  dup: Option<String>,
}

const TEXTS: [(&str, &str); 9] = [
  ("Big *cats*", "Big cats"),
  ("`co` de", "co de"),
  ("_it_", "it"),
  ("A&B", "A&B"),
  ("one two", "one two"),
  ("it's", "it’s"),
  ("a < b", "a < b"),
  ("&#169; x", "© x"),
  ("x (C) y", "x © y"),
];

impl Refs {
  fn id(&mut self, s: &mut Src) -> String {
    if self.twice && self.dup.is_none() && !self.targets.is_empty() && s.chance(50) {
      let id = s.one(&self.targets).id;
      self.dup = Some(id.clone());
      return id;
    }
    self.n += 1;
    format!("{}{}", s.pick(&["id", "a-b", "_x", "X_y", "é", "x:y", "p"]), self.n)
  }
  fn text(&mut self, s: &mut Src) -> (String, String) {
    let (a, b) = s.one(&TEXTS);
    self.n += 1;
    (format!("{a} R{}", self.n), format!("{b} R{}", self.n))
  }
}

impl Fill for Refs {
  fn file(&mut self, s: &mut Src) -> usize {
    self.files += 1;
    self.file = if self.split && s.chance(40) { self.files } else { 0 };
    self.file
  }

  fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }

  fn inl(&mut self, s: &mut Src, host: Host) -> String {
    let mut parts = vec![];
    for _ in 0..s.weighted(&[40, 35, 15, 10]) {
      let w = self.word();
      match s.weighted(&[30, 25, 45]) {
        0 => parts.push(s.pick(&["foo", "*bo* ld", "x_y", "a, b", "(c)"]).to_string()),
        1 => {
          let id = self.id(s);
          let (rs, rt) = self.text(s);
          let mut t = Target { id: id.clone(), text: None, mark: Mark::Before(w.clone()), file: self.file };
          match s.below(5) {
            0 => parts.push(format!("[[{id}]]{w}")),
            1 => {
              t.text = Some(rt);
              parts.push(format!("[[{id},{}{rs}]]{w}", s.pick(&["", " "])));
            }
            2 => parts.push(format!("anchor:{id}[]{w}")),
            3 => {
              t.text = Some(rt);
              parts.push(format!("anchor:{id}[{rs}]{w}"));
            }
            _ => {
              t.text = Some(w.clone());
              t.mark = Mark::Is(w.clone());
              parts.push(format!("[#{id}]#{w}#"));
            }
          }
          self.targets.push(t);
        }
        _ => {
          self.refs += 1;
          self.wraps.push(matches!(host, Host::Text | Host::Cell));
          parts.push(format!("q{}= \u{2}{}\u{2}", self.refs - 1, self.refs - 1));
        }
      }
    }
    if host == Host::Term {
      parts.push("t".into());
    }
    parts.join(" ")
  }

  fn meta(&mut self, s: &mut Src, kind: Kind) -> Vec<String> {
    let mut out = vec![];
    let mut text = None;
    if s.chance(25) && kind != Kind::Image {
      let (a, b) = self.text(s);
      out.push(format!(".{a}"));
      text = Some(b);
    }
    if s.chance(40) {
      let id = self.id(s);
      let (rs, rt) = self.text(s);
      let l = match s.below(5) {
        0 => format!("[[{id}]]"),
        1 => {
          text = Some(rt);
          format!("[[{id},{rs}]]")
        }
        2 => format!("[#{id}]"),
        3 => format!("[id={id}]"),
        _ => {
          text = Some(rt);
          format!("[#{id},reftext=\"{rs}\"]")
        }
      };
      let reftext = l.contains(',');
      if s.chance(50) {
        out.push(l);
      } else {
        out.insert(0, l);
      }
      // a later line overrides
      if s.chance(10) {
        self.n += 1;
        out.insert(0, if reftext && s.chance(50) { format!("[[z{},Other]]", self.n) } else { format!("[[z{}]]", self.n) });
      }
      self.pending = Some(Target { id, text, mark: Mark::Within(String::new()), file: self.file });
    }
    out
  }

  fn image_attrs(&mut self, s: &mut Src) -> String {
    self.n += 1;
    let n = self.n;
    match s.below(4) {
      0 => {
        if let Some(t) = self.pending.as_mut().filter(|t| t.text.is_none()) {
          t.text = Some(format!("Im age {n}"));
        }
        format!("title=\"Im age {n}\"")
      }
      // the macro's own id and text are those of the image
      1 => {
        let id = self.id(s);
        let text = match s.below(3) {
          0 => Some(("title", format!("Im age {n}"))),
          1 => Some(("reftext", format!("Ref {n}"))),
          _ => None,
        };
        let a = text.as_ref().map(|(k, t)| format!(",{k}={t}")).unwrap_or_default();
        let above = self.pending.take();
        let above = above.and_then(|t| t.text);
        let text = match text {
          Some(("title", t)) => above.or(Some(t)),
          t => t.map(|t| t.1).or(above),
        };
        self.pending = Some(Target { id: id.clone(), text, mark: Mark::Within(String::new()), file: self.file });
        format!("id={id}{a}")
      }
      _ => String::new(),
    }
  }

  fn done(&mut self, w: &str) {
    if let Some(mut t) = self.pending.take() {
      t.mark = Mark::Within(w.into());
      self.targets.push(t);
    }
  }

  fn heading(&mut self, s: &mut Src, discrete: bool) -> (Vec<String>, String) {
    self.n += 1;
    let n = self.n;
    let (src, text, auto) = match s.below(4) {
      0 => (format!("Ti tle{n}"), format!("Ti tle{n}"), format!("_ti_tle{n}")),
      1 => (format!("*Bo*ld {n}"), format!("*Bo*ld {n}"), format!("_bold_{n}")),
      2 => (format!("*Bo* _it_ {n}"), format!("Bo it {n}"), format!("_bo_it_{n}")),
      _ => (format!("A & b{n}"), format!("A & b{n}"), format!("_a_b{n}")),
    };
    let (src, text, auto) = if src.starts_with("*Bo*ld") { (format!("Bold {n}"), format!("Bold {n}"), auto) } else { (src, text, auto) };
    let (rs, rt) = self.text(s);
    let mut out = vec![];
    let mut shown = text.clone();
    let mut id = auto;
    match s.weighted(&[50, 12, 12, 14, 12]) {
      0 => {}
      1 => {
        id = self.id(s);
        out.push(format!("[[{id}]]"));
      }
      2 => {
        id = self.id(s);
        shown = rt;
        out.push(format!("[[{id},{rs}]]"));
      }
      3 => {
        id = self.id(s);
        out.push(format!("[#{id}]"));
      }
      _ => {
        shown = rt;
        out.push(format!("[reftext=\"{rs}\"]"));
      }
    }
    if discrete {
      let d = s.pick(&["[discrete]", "[float]"]).to_string();
      if s.chance(50) { out.push(d) } else { out.insert(0, d) }
    }
    self.targets.push(Target { id, text: Some(shown), mark: Mark::Is(text), file: self.file });
    (out, src)
  }
}

struct Want {
  href: String,
  /// `None`: anything
  text: Option<String>,
}

fn run_refs(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = s.one(&[Be::Html, Be::Html5s]);
  let mut f = Refs { twice: s.chance(5), split: s.chance(30), ..Default::default() };
  let chunks = flow(s, &mut f, 1, 8);
  let (mut prefix, mut suffix) = (String::new(), ".html".to_string());
  let mut o = Opts::default();
  if s.chance(10) {
    prefix = s.pick(&["../", "d-"]).into();
    o = o.attr("relfileprefix", &prefix);
  }
  if s.chance(10) {
    suffix = s.pick(&["/", ".htm"]).into();
    o = o.attr("relfilesuffix", &suffix);
  }
  // fill in the references
  let mut want: Vec<Want> = vec![];
  let mut missing: Vec<String> = vec![];
  let mut by: Vec<String> = vec![];
  for k in 0..f.refs {
    let (mut rs, rt) = f.text(s);
    if f.wraps[k] && s.chance(20) {
      rs = if s.chance(80) { rs.replacen(' ', "\n", 1) } else { rs.replace(' ', "\n") };
    }
    let explicit = s.chance(30);
    let (src, w) = match s.weighted(&[if f.targets.is_empty() { 0 } else { 75 }, 10, 15]) {
      0 => {
        let t = s.one(&f.targets);
        let text = if explicit {
          Some(rt)
        } else if f.dup.as_ref() == Some(&t.id) {
          None
        } else {
          Some(t.text.clone().unwrap_or(format!("[{}]", t.id)))
        };
        let id = &t.id;
        let path = if t.file > 0 && f.dup.as_ref() != Some(id) && s.chance(30) { format!("f{}.adoc#", t.file) } else { s.pick(&["", "", "#"]).to_string() };
        let text_known = if path.ends_with(".adoc#") && !explicit && t.text.is_none() { None } else { text };
        // a `:` right after `xref:` makes no macro
        let short = s.chance(60) || id.starts_with(':');
        let src = match (short, explicit) {
          (true, true) => format!("<<{path}{id},{}{rs}>>", s.pick(&["", " ", if f.wraps[k] { "\n" } else { "" }])),
          (true, false) => format!("<<{path}{id}{}>>", s.pick(&["", "", ","])),
          (false, true) => format!("xref:{path}{id}[{rs}]"),
          (false, false) => format!("xref:{path}{id}[]"),
        };
        (src, Want { href: format!("#{id}"), text: text_known })
      }
      1 => {
        let id = format!("nope{k}");
        missing.push(id.clone());
        let src = match (s.chance(60), explicit) {
          (true, true) => format!("<<{id},{rs}>>"),
          (true, false) => format!("<<{id}>>"),
          (false, true) => format!("xref:{id}[{rs}]"),
          (false, false) => format!("xref:{id}[]"),
        };
        (src, Want { text: Some(if explicit { rt } else { format!("[{id}]") }), href: format!("#{id}") })
      }
      _ => {
        let name = format!("{}doc{k}", s.pick(&["", "dir/", "../", "a.b/"]));
        let frag = s.pick(&["", "sec", "_s1"]);
        let hash = if frag.is_empty() { String::new() } else { format!("#{frag}") };
        let (src, ext, target) = match s.below(4) {
          0 => (format!("<<{name}.adoc#{frag},{rs}>>"), true, format!("{name}.adoc#{frag}")),
          1 => (format!("<<{name}#{frag},{rs}>>"), true, format!("{name}#{frag}")),
          2 => (format!("xref:{name}.adoc{hash}[{rs}]"), true, format!("{name}.adoc{hash}")),
          _ => (format!("xref:{name}.pdf{hash}[{rs}]"), false, String::new()),
        };
        by.push(target);
        (src, Want { href: format!("{prefix}{name}{}{hash}", if ext { &*suffix } else { ".pdf" }), text: Some(rt) })
      }
    };
    want.push(w);
    f.srcs.push(src);
  }
  let put = |l: &str| -> String {
    let mut o = String::new();
    for (i, p) in l.split('\u{2}').enumerate() {
      o.push_str(if i % 2 == 1 { &f.srcs[p.parse::<usize>().unwrap()] } else { p });
    }
    o
  };
  let mut main = String::new();
  let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
  for (file, lines) in &chunks {
    let text: String = lines.iter().map(|l| put(l) + "\n").collect();
    if *file == 0 {
      main.push_str(&text);
    } else {
      main.push_str(&format!("include::f{file}.adoc[]\n"));
      files.insert(format!("/proj/f{file}.adoc"), text.into_bytes());
    }
    main.push('\n');
  }
  let mut shown = format!("{be:?}\n{main}");
  for (k, v) in &files {
    shown.push_str(&format!("\n--- {k}\n{}", String::from_utf8_lossy(v)));
  }
  cx.case(shown);
  cx.nontrivial(f.targets.len() >= 2 && f.refs >= 2);
  let o = Opts { attrs: o.attrs, ..incl::opts(be, files) };
  let c = convert(&main, &o);
  let html = c.html();
  let root = html::parse(html).map_err(|e| Fail::new("html", e))?;

  // anchors
  let ids = root.ids();
  for t in &f.targets {
    if f.dup.as_ref() == Some(&t.id) {
      continue;
    }
    let n = ids.get(&t.id).copied().unwrap_or(0);
    ensure!(n == 1, format!("id {n} times"), "`{}` ({:?}) in {html}", t.id, t.mark);
    marked(&root, t).map_err(|e| Fail::new("anchor", format!("`{}`: {e} in {html}", t.id)))?;
  }

  // references
  let mut got: BTreeMap<usize, (String, String)> = BTreeMap::new();
  let mut bad = None;
  root.walk(&mut |e| {
    for (i, k) in e.kids.iter().enumerate() {
      let Node::Text(t) = k else { continue };
      let Some(q) = t.rfind('q').filter(|q| t[*q..].ends_with("= ")) else { continue };
      let Ok(n) = t[q + 1..t.len() - 2].parse::<usize>() else { continue };
      let Some(Node::El(a)) = e.kids.get(i + 1) else { continue };
      if a.tag == "a" && got.insert(n, (a.attr("href").unwrap_or("").into(), norm(&a.text()))).is_some() {
        bad = Some(n);
      }
    }
  });
  ensure!(bad.is_none(), "reference twice", "q{bad:?} in {html}");
  for (k, w) in want.iter().enumerate() {
    let Some((href, text)) = got.get(&k) else {
      fail!("no reference", "`{}` (q{k}) is no link in {html}", f.srcs[k]);
    };
    ensure!(*href == w.href, "href", "`{}` (q{k}) goes to {href}, not {} in {html}", f.srcs[k], w.href);
    if let Some(t) = &w.text {
      ensure!(text == t, "text", "`{}` (q{k}) shows {text:?}, not {t:?} in {html}", f.srcs[k]);
    }
  }

  // reports
  let mut expected: Vec<String> = missing.iter().chain(by.iter().filter(|t| !t.is_empty())).map(|m| format!("Invalid cross reference, no anchor found for `{m}`")).collect();
  if f.dup.is_some() {
    expected.push("Duplicate anchor id".into());
  }
  let mut reported: Vec<String> = c.diags.iter().map(|d| d.message.clone()).collect();
  expected.sort();
  reported.sort();
  ensure!(expected == reported, "reports", "expected {expected:?}, got {reported:?}");
  Ok(())
}

fn norm(s: &str) -> String {
  s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn marked(root: &El, t: &Target) -> Result<(), String> {
  let e = root.find(|e| e.id() == Some(&t.id)).unwrap();
  match &t.mark {
    Mark::Within(w) => {
      let mut found = w.is_empty();
      e.walk(&mut |e| found |= e.own_text().split(|c: char| !c.is_alphanumeric()).any(|x| x == w));
      if !found {
        return Err(format!("not the block of {w}: {}", e.show()));
      }
    }
    Mark::Is(w) => {
      if norm(&e.text()) != *w {
        return Err(format!("not {w:?}: {:?}", e.text()));
      }
    }
    Mark::Before(w) => {
      let mut ok = false;
      root.walk(&mut |p| {
        for (i, k) in p.kids.iter().enumerate() {
          if let Node::El(a) = k
            && a.id() == Some(&t.id)
          {
            ok = a.kids.is_empty() && matches!(p.kids.get(i + 1), Some(Node::Text(x)) if x.trim_start().split(|c: char| !c.is_alphanumeric()).next() == Some(w));
          }
        }
      });
      if !ok {
        return Err(format!("not right before {w}"));
      }
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug)]
struct Note {
  name: Option<String>,
  /// what the list of footnotes shows; `None`: refers to a named one
  text: Option<String>,
  /// the note in its text
  inner: Option<usize>,
}

#[derive(Default)]
struct Notes {
  n: usize,
  notes: Vec<Note>,
  /// names, text, and whether defined
  names: Vec<(String, String, String, bool)>,
  /// attributes holding a definition: attribute, index of the name
  attrs: Vec<(String, usize)>,
  split: bool,
  files: usize,
}

const NOTES: [(&str, &str); 8] = [("x \\] y", "x ] y"), ("https://e.co[lk, x]", "lk, x"), ("a, b", "a, b"), ("\"q\" = 'r'", "\"q\" = 'r'"), ("`+[+`c", "`+[+`c"), ("{blank}e", "e"), ("kbd:[F1] k", "F1 k"), ("x:y[z\\]", "x:y[z]")];

impl Notes {
  fn text(&mut self, s: &mut Src, newline: bool) -> (String, String) {
    let (a, b) = if s.chance(70) { s.one(&TEXTS) } else { s.one(&NOTES[..4]) };
    self.n += 1;
    let sep = if newline && s.chance(25) { "\n" } else { " " };
    (format!("N{}{sep}{a}", self.n), format!("N{} {b}", self.n))
  }

  fn note(&mut self, s: &mut Src, host: Option<Host>) -> String {
    let newline = matches!(host, Some(Host::Text | Host::Cell));
    match s.weighted(&[50, 15, 20, if self.attrs.is_empty() { 0 } else { 15 }]) {
      0 => {
        let (mut src, mut shown) = self.text(s, newline);
        let mut inner = None;
        if s.chance(8) {
          let (a, b) = self.text(s, false);
          inner = Some(self.notes.len());
          src = format!("{src} q{}= footnote:[{a}] z", self.notes.len());
          shown = format!("{shown} q{}= [] z", self.notes.len());
          self.notes.push(Note { name: None, text: Some(b), inner: None });
        }
        self.notes.push(Note { name: None, text: Some(shown), inner });
        format!("q{}= footnote:[{src}]", self.notes.len() - 1)
      }
      1 => {
        let i = self.name(s);
        self.define(s, i)
      }
      2 => {
        let i = if self.names.is_empty() || s.chance(20) { self.name(s) } else { s.below(self.names.len()) };
        self.notes.push(Note { name: Some(self.names[i].0.clone()), text: None, inner: None });
        format!("q{}= footnote:{}[]", self.notes.len() - 1, self.names[i].0)
      }
      _ => {
        let (a, i) = s.one(&self.attrs);
        self.names[i].3 = true;
        self.notes.push(Note { name: Some(self.names[i].0.clone()), text: Some(self.names[i].2.clone()), inner: None });
        format!("q{}= {{{a}}}", self.notes.len() - 1)
      }
    }
  }

  fn name(&mut self, s: &mut Src) -> usize {
    self.n += 1;
    let (a, b) = self.text(s, false);
    self.names.push((format!("{}{}", s.pick(&["n", "a-b", "_", "X_", "é"]), self.n), a, b, false));
    self.names.len() - 1
  }

  /// with the same text if defined again
  fn define(&mut self, _s: &mut Src, i: usize) -> String {
    self.names[i].3 = true;
    let (name, src, shown, _) = self.names[i].clone();
    self.notes.push(Note { name: Some(name.clone()), text: Some(shown), inner: None });
    format!("q{}= footnote:{name}[{src}]", self.notes.len() - 1)
  }
}

impl Fill for Notes {
  fn file(&mut self, s: &mut Src) -> usize {
    self.files += 1;
    if self.split && s.chance(40) { self.files } else { 0 }
  }

  fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }

  fn inl(&mut self, s: &mut Src, host: Host) -> String {
    let mut parts = vec![];
    for _ in 0..s.weighted(&[40, 40, 15, 5]) {
      match s.weighted(&[20, 65, 15]) {
        0 => parts.push(s.pick(&["foo", "*bo* ld", "\\footnote:[no]", "+footnote:[no]+", "`+footnote:no[no]+`", "a, b", "footnote: [no]", "footnote"]).to_string()),
        1 => {
          let n = self.note(s, Some(host));
          let end = s.pick(&["", "", ".", ", x"]);
          parts.push(format!("{n}{end}"));
        }
        _ => {
          let n = self.note(s, Some(Host::Term));
          parts.push(if n.contains('#') { n } else { format!("##b {n} z##") });
        }
      }
    }
    if host == Host::Term {
      parts.push("t".into());
    }
    parts.join(" ")
  }

  fn meta(&mut self, s: &mut Src, _kind: Kind) -> Vec<String> {
    let mut out = vec![];
    if s.chance(20) {
      let w = self.word();
      let n = self.note(s, None);
      out.push(format!(".{w} {n}"));
    }
    out
  }

  fn heading(&mut self, s: &mut Src, discrete: bool) -> (Vec<String>, String) {
    let w = self.word();
    let h = if s.chance(40) { format!("{w} {}", self.note(s, None)) } else { w };
    (if discrete { vec!["[discrete]".into()] } else { vec![] }, h)
  }
}

fn run_notes(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = s.one(&[Be::Html, Be::Html5s]);
  let mut f = Notes { split: s.chance(30), ..Default::default() };
  let mut head = String::new();
  if s.chance(30) {
    head.push_str(s.pick(&[":toc:\n", ":sectnums:\n"]));
  }
  for _ in 0..s.weighted(&[60, 25, 15]) {
    let i = f.name(s);
    let (name, src, ..) = f.names[i].clone();
    let a = format!("fn{i}");
    // quotes are matched before references to attributes; `c` and `q` are all the substitutions a `pass` value gets
    let plain = src.ends_with("one two") || src.ends_with("a, b");
    let pass = !["(C)", "'", "//", "&#"].iter().any(|x| src.contains(x));
    if !plain && !pass {
      continue;
    }
    head.push_str(&if plain && (!pass || s.chance(60)) { format!(":{a}: footnote:{name}[{src}]\n") } else { format!(":{a}: pass:c,q[footnote:{name}[{src}]]\n") });
    f.attrs.push((a, i));
  }
  let mut chunks = flow(s, &mut f, 1, 8);
  if s.chance(15) {
    let n = f.note(s, None);
    let d = s.pick(&["----", "...."]);
    chunks.push((0, vec![format!("[subs=\"{}\"]", s.pick(&["+macros,+quotes,+replacements,+attributes", "normal"])), d.into(), format!("v {n} x"), d.into()]));
  }
  if s.chance(15) {
    let n = f.note(s, None);
    chunks.push((0, vec!["[verse]".into(), format!("v {n} x")]));
  }
  for i in 0..f.names.len() {
    if !f.names[i].3 {
      let d = f.define(s, i);
      chunks.push((0, vec![format!("last {d}")]));
    }
  }
  let mut main = head;
  if !main.is_empty() {
    main.push('\n');
  }
  let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
  for (file, lines) in &chunks {
    let text: String = lines.iter().map(|l| format!("{l}\n")).collect();
    if *file == 0 {
      main.push_str(&text);
    } else {
      main.push_str(&format!("include::f{file}.adoc[]\n"));
      files.insert(format!("/proj/f{file}.adoc"), text.into_bytes());
    }
    main.push('\n');
  }
  let mut shown = format!("{be:?}\n{main}");
  for (k, v) in &files {
    shown.push_str(&format!("\n--- {k}\n{}", String::from_utf8_lossy(v)));
  }
  cx.case(shown);
  cx.nontrivial(f.notes.len() >= 3);
  let c = convert(&main, &incl::opts(be, files));
  let html = c.html();
  ensure!(c.diags.is_empty(), "reports", "{}", c.diags[0].plain_text());
  let root = html::parse(html).map_err(|e| Fail::new("html", e))?;

  // the references in document order, those in the list of footnotes apart
  let list = root.find(|e| if be == Be::Html { e.id() == Some("footnotes") } else { e.is("section", "footnotes") });
  ensure!(list.is_some() != f.notes.is_empty(), "list", "list of footnotes: {} in {html}", list.is_some());
  let (mut got, mut total, mut in_list) = (vec![], 0, 0);
  collect(&root, be, &mut got, &mut total);
  if let Some(l) = list {
    collect(l, be, &mut vec![], &mut in_list);
  }
  let outer: Vec<_> = f.notes.iter().enumerate().filter(|(i, _)| !f.notes.iter().any(|n| n.inner == Some(*i))).collect();
  ensure!(total == f.notes.len(), "count", "{total} references to footnotes, not {} in {html}", f.notes.len());
  ensure!(in_list == f.notes.len() - outer.len(), "count in list", "{in_list} references in the list of footnotes in {html}");

  // number them
  let mut defs: Vec<(Option<String>, String)> = vec![];
  let mut number = vec![0; f.notes.len()];
  let mut first = vec![true; f.notes.len()];
  for (k, ..) in &got {
    ensure!(*k < f.notes.len(), "marker", "q{k} in {html}");
    let n = &f.notes[*k];
    if n.inner.is_none() && outer.iter().all(|(i, _)| i != k) {
      continue;
    }
    if let Some(i) = n.inner {
      defs.push((None, f.notes[i].text.clone().unwrap()));
      number[i] = defs.len();
    }
    if let Some(name) = &n.name
      && let Some(i) = defs.iter().position(|d| d.0.as_ref() == Some(name))
    {
      number[*k] = i + 1;
      first[*k] = false;
      continue;
    }
    let text = match (&n.text, n.inner) {
      (Some(t), None) => t.clone(),
      (Some(t), Some(i)) => t.replace("= []", &format!("= [{}]", number[i])),
      (None, _) => f.names.iter().find(|x| Some(&x.0) == n.name.as_ref()).unwrap().2.clone(),
    };
    defs.push((n.name.clone(), text));
    number[*k] = defs.len();
  }
  for (k, num, href, id, name) in &got {
    let n = number[*k];
    ensure!(num.parse() == Ok(n), "number", "q{k} has number {num}, not {n} in {html}");
    let target = if be == Be::Html { format!("#_footnotedef_{n}") } else { format!("#_footnote_{n}") };
    ensure!(*href == target, "href", "q{k} goes to {href}, not {target} in {html}");
    let want = first[*k].then(|| format!("_footnoteref_{n}"));
    ensure!(*id == want, "id", "q{k} has id {id:?}, not {want:?} in {html}");
    if be == Be::Html {
      let want = f.notes[*k].name.clone().filter(|_| first[*k]).map(|n| format!("_footnote_{n}"));
      ensure!(*name == want, "name", "q{k} has id {name:?}, not {want:?} in {html}");
    }
  }

  // the list
  let mut items = vec![];
  if let Some(l) = list {
    l.walk(&mut |e| {
      if e.is(if be == Be::Html { "div" } else { "li" }, "footnote") {
        items.push(e.clone());
      }
    });
  }
  ensure!(items.len() == defs.len(), "list length", "{} footnotes listed, not {} in {html}", items.len(), defs.len());
  for (i, (e, (_, want))) in items.iter().zip(&defs).enumerate() {
    let n = i + 1;
    let id = if be == Be::Html { format!("_footnotedef_{n}") } else { format!("_footnote_{n}") };
    ensure!(e.id() == Some(&*id), "list id", "footnote {n} has id {:?} in {html}", e.id());
    let back = e.all(|a| a.tag == "a" && a.attr("href") == Some(&format!("#_footnoteref_{n}")));
    ensure!(back.len() == 1, "list back", "footnote {n} has {} links back in {html}", back.len());
    let text = norm(&e.text());
    let text = if be == Be::Html { text.strip_prefix(&format!("{n}. ")) } else { text.strip_suffix(" ↩") };
    ensure!(text == Some(want), "list text", "footnote {n} is {text:?}, not {want:?} in {html}");
  }
  let ids = root.ids();
  for (id, n) in &ids {
    ensure!(*n == 1 || !id.starts_with("_footnote"), "ids", "{n} times `{id}` in {html}");
  }
  Ok(())
}

/// index of the marker, number, target, id, id of a named one
type RefSeen = (usize, String, String, Option<String>, Option<String>);

fn collect(e: &El, be: Be, out: &mut Vec<RefSeen>, total: &mut usize) {
  for (i, k) in e.kids.iter().enumerate() {
    let Node::El(r) = k else { continue };
    let is_ref = if be == Be::Html { r.is("sup", "footnote") || r.is("sup", "footnoteref") } else { r.is("a", "footnote-ref") };
    if !is_ref {
      collect(r, be, out, total);
      continue;
    }
    *total += 1;
    let a = if be == Be::Html { r.find(|a| a.tag == "a") } else { Some(r) };
    let before = match i.checked_sub(1).map(|i| &e.kids[i]) {
      Some(Node::Text(t)) => t.as_str(),
      _ => "",
    };
    let marker = before.strip_suffix("= ").and_then(|t| t.rsplit_once('q')).and_then(|(_, n)| n.parse().ok());
    let text = r.text();
    let num = text.strip_prefix('[').and_then(|t| t.strip_suffix(']')).unwrap_or("?").to_string();
    let own = |x: &El| x.id().map(|s| s.to_string());
    out.push((marker.unwrap_or(usize::MAX), num, a.and_then(|a| a.attr("href")).unwrap_or("").into(), a.and_then(own), if be == Be::Html { own(r) } else { None }));
  }
}
