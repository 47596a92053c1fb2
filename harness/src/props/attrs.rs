//! C19: attributes and references to them.
use crate::conv::*;
use crate::engine::*;
use crate::html;
use crate::props::prep::{differ, doc_lines, strip};
use crate::{ensure, fail};
use asciidork_core::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C19",
    run,
    quick: 220_000,
    thorough: 4_000_000,
    rule: "random documents with words moved to attributes, and random histories of attribute entries, API attributes and references against a model; non-trivial: 2+ references",
    assumptions: &[],
  }]
}

fn run(s: &mut Src, cx: &mut Cx) -> Outcome {
  if s.chance(45) { transparent(s, cx) } else { history(s, cx) }
}

// ---------------------------------------------------------------- references stand for their values

/// replace words `w12` in a line
fn words(line: &str, mut f: impl FnMut(&str) -> Option<String>) -> String {
  let b = line.as_bytes();
  let (mut out, mut i) = (String::new(), 0);
  while i < b.len() {
    let word_before = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
    if b[i] == b'w' && !word_before {
      let mut j = i + 1;
      while j < b.len() && b[j].is_ascii_digit() {
        j += 1;
      }
      if j > i + 1 && !b.get(j).is_some_and(|c| c.is_ascii_alphanumeric() || *c == b'_') {
        match f(&line[i..j]) {
          Some(r) => out.push_str(&r),
          None => out.push_str(&line[i..j]),
        }
        i = j;
        continue;
      }
    }
    let c = line[i..].chars().next().unwrap();
    out.push(c);
    i += c.len_utf8();
  }
  out
}

/// references within verbatim and raw text stay, treat them as the word they stand for
fn verbatim_refs(html: &str) -> String {
  let mut out = String::new();
  let mut rest = html;
  loop {
    let (a, b) = (rest.find("<pre"), rest.find("<x-raw"));
    let Some(at) = a.into_iter().chain(b).min() else { break };
    let end_tag = if Some(at) == a { "</pre>" } else { "</x-raw>" };
    let Some(len) = rest[at..].find(end_tag) else { break };
    out.push_str(&rest[..at]);
    let body = &rest[at..at + len];
    if body.starts_with("<pre class=\"content\">") {
      out.push_str(body);
    } else {
      let mut b = body;
      while let Some(p) = b.find("{w").into_iter().chain(b.find("{W")).min() {
        out.push_str(&b[..p]);
        b = &b[p + 1..];
        if let Some(e) = b.find('}')
          && b[1..e].bytes().all(|c| c.is_ascii_digit())
        {
          out.push_str(&b[..e].to_lowercase());
          b = &b[e + 1..];
        } else {
          out.push('{');
        }
      }
      out.push_str(b);
    }
    rest = &rest[at + len..];
  }
  out.push_str(rest);
  out
}

fn transparent(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = if s.chance(25) { Be::Html5s } else { Be::Html };
  let Some(lines) = doc_lines(s) else {
    cx.discarded = true;
    return Ok(());
  };
  let mut refs = BTreeSet::new();
  let mut n = 0;
  let pct = s.range(10, 90) as u32;
  let mut out = vec![];
  let title = lines.first().is_some_and(|l| l == "= Title");
  for l in &lines {
    out.push(words(l, |w| {
      if !s.chance(pct) {
        return None;
      }
      n += 1;
      refs.insert(w.to_string());
      Some(format!("{{{}}}", if s.chance(10) { w.to_uppercase() } else { w.to_string() }))
    }));
  }
  let mut o = Opts::default().be(be);
  let how = s.below(if title { 2 } else { 3 });
  let mut entries = vec![];
  for w in &refs {
    match how {
      0 => o = o.attr(w, w),
      _ => entries.push(match s.below(8) {
        0 => format!(":{w}:   {w} "),
        1 => format!(":{}: {w}", w.to_uppercase()),
        2 => format!(":x{w}: {w}\n:{w}: {{x{w}}}"),
        _ => format!(":{w}: {w}"),
      }),
    }
  }
  let (mut a, mut b) = (lines.join("\n"), out.join("\n"));
  match how {
    0 => {}
    1 => {
      let at = if title { "= Title\n".len() } else { 0 };
      let header = entries.iter().map(|e| format!("{e}\n")).collect::<String>();
      // without a title, a blank line ends the header
      b.insert_str(at, &header);
      a.insert_str(at, if entries.is_empty() { "" } else { ":zz: 1\n" });
    }
    _ => {
      let body = format!("start\n\n{}\n", entries.iter().map(|e| format!("{e}\n")).collect::<String>());
      b.insert_str(0, &body);
      a.insert_str(0, "start\n\n:zz: 1\n\n");
    }
  }
  cx.case(format!("{be:?} {}\n{b}", ["api", "header", "body"][how]));
  cx.nontrivial(n >= 2);
  cx.label(["api", "header", "body"][how]);
  let (x, y) = (convert(&a, &Opts::default().be(be)), convert(&b, &o));
  let (x, y) = (verbatim_refs(x.html()), verbatim_refs(y.html()));
  if x != y {
    let (p, q) = differ(&x, &y);
    fail!(format!("transparent {}", strip(&p)), "words moved to attributes change the output\nexpected …{p}\nbut got  …{q}");
  }
  Ok(())
}

// ---------------------------------------------------------------- values over the course of a document

const NAMES: [&str; 5] = ["a", "b-c", "d_1", "9x", "_y"];

const BUILTIN: [(&str, &str); 25] = [
  ("empty", ""),
  ("blank", ""),
  ("sp", " "),
  ("nbsp", "\u{a0}"),
  ("zwsp", "\u{200b}"),
  ("wj", "\u{2060}"),
  ("apos", "'"),
  ("quot", "\""),
  ("lsquo", "\u{2018}"),
  ("rsquo", "\u{2019}"),
  ("ldquo", "\u{201c}"),
  ("rdquo", "\u{201d}"),
  ("deg", "\u{b0}"),
  ("plus", "+"),
  ("brvbar", "\u{a6}"),
  ("vbar", "|"),
  ("amp", "&"),
  ("lt", "<"),
  ("gt", ">"),
  ("startsb", "["),
  ("endsb", "]"),
  ("caret", "^"),
  ("asterisk", "*"),
  ("tilde", "~"),
  ("backslash", "\\"),
];

struct Model {
  env: BTreeMap<String, Option<String>>,
  locked: BTreeSet<String>,
  missing: &'static str,
}

impl Model {
  fn get(&self, n: &str) -> Option<&str> {
    let n = n.to_lowercase();
    match self.env.get(&n) {
      Some(v) => v.as_deref(),
      None => BUILTIN.iter().find(|b| b.0 == n).map(|b| b.1),
    }
  }
  fn set(&mut self, n: &str, v: Option<String>) {
    let n = n.to_lowercase();
    if !self.locked.contains(&n) {
      self.env.insert(n, v);
    }
  }
  /// None: the line is dropped; second: number of missing references
  fn text(&self, pieces: &[Piece], missing: &mut usize, in_value: bool) -> Option<String> {
    let mut out = String::new();
    for p in pieces {
      match p {
        Piece::Text(t) => out.push_str(t),
        Piece::Escaped(n) => out.push_str(&format!("{{{n}}}")),
        Piece::Ref(n) => match self.get(n) {
          Some(v) => out.push_str(v),
          None => {
            *missing += 1;
            match self.missing {
              "drop" => {}
              "drop-line" if in_value => {}
              "drop-line" => return None,
              _ => out.push_str(&format!("{{{n}}}")),
            }
          }
        },
      }
    }
    Some(out)
  }
}

#[derive(Clone, Debug)]
enum Piece {
  Text(String),
  Ref(String),
  Escaped(String),
}

fn show(p: &[Piece]) -> String {
  p.iter()
    .map(|p| match p {
      Piece::Text(t) => t.clone(),
      Piece::Ref(n) => format!("{{{n}}}"),
      Piece::Escaped(n) => format!("\\{{{n}}}"),
    })
    .collect()
}

fn name(s: &mut Src) -> String {
  let n = s.pick(&NAMES);
  match s.below(10) {
    0 => n.to_uppercase(),
    1 => "undef".into(),
    2 | 3 => s.one(&BUILTIN).0.into(),
    _ => n.into(),
  }
}

fn value(s: &mut Src) -> Vec<Piece> {
  let mut out = vec![];
  for i in 0..s.range(1, 4) {
    out.push(match s.weighted(&[6, 4, 1]) {
      0 => Piece::Text(s.pick(&["v", "two words", "1", "x<y", "p&q", "a-b", "5%", "*s*", "k=l", "m:n"]).to_string()),
      1 if i == 0 && s.chance(50) => Piece::Text("r".into()),
      1 => Piece::Ref(name(s)),
      _ => Piece::Escaped(s.pick(&["a", "b-c", "undef"]).to_string()),
    });
    out.push(Piece::Text("q".into()));
  }
  out.insert(0, Piece::Text("p".into()));
  out
}

/// an attribute entry
fn entry(s: &mut Src, m: &mut Model, cx: &mut Cx) -> String {
  let mut n = s.pick(&NAMES).to_string();
  if s.chance(10) {
    n = s.one(&BUILTIN[3..]).0.into();
    if n == "sp" {
      n = "nbsp".into();
    }
  }
  let shown = if s.chance(12) { n.to_uppercase() } else { n.clone() };
  match s.weighted(&[10, 2, 1, 1]) {
    1 => {
      m.set(&n, Some(String::new()));
      format!(":{shown}:{}", s.pick(&["", " ", ""]))
    }
    2 => {
      m.set(&n, None);
      format!(":!{shown}:")
    }
    3 => {
      m.set(&n, None);
      format!(":{shown}!:")
    }
    _ => {
      let v = value(s);
      let mut k = 0;
      let t = m.text(&v, &mut k, true).unwrap();
      let mut src = show(&v);
      if s.chance(15)
        && let Some(at) = src.find("two ")
      {
        cx.label("multi-line");
        src.replace_range(at + 4..at + 4, s.pick(&["\\\n", "\\\n  "]));
      }
      m.set(&n, Some(t));
      format!(":{shown}:{}{src}{}", s.pick(&[" ", "  ", " ", "\t"]), s.pick(&["", "", " "]))
    }
  }
}

fn history(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = if s.chance(25) { Be::Html5s } else { Be::Html };
  let mut o = Opts::default().be(be);
  let mut m = Model { env: BTreeMap::new(), locked: BTreeSet::new(), missing: "skip" };
  for n in NAMES {
    if s.chance(25) {
      let v: Option<String> = if s.chance(25) { None } else { Some(s.pick(&["api", "", "{a}", "x y", "<api>"]).to_string()) };
      let readonly = s.chance(50);
      m.env.insert(n.into(), v.clone());
      if readonly {
        m.locked.insert(n.into());
      }
      o.attrs.push((n.into(), v.map(AttrValue::String).unwrap_or(AttrValue::Bool(false)), readonly));
    }
  }
  if s.chance(30) {
    m.missing = s.one(&["drop", "drop-line", "warn", "skip"]);
    o = o.attr("attribute-missing", m.missing);
  }
  let mut doc = String::new();
  let header = s.chance(60);
  if header {
    for _ in 0..s.below(3) {
      let e = entry(s, &mut m, cx);
      doc.push_str(&format!("{e}\n"));
    }
    doc.push_str("= Title\n");
    for _ in 0..s.below(5) {
      let e = entry(s, &mut m, cx);
      doc.push_str(&format!("{e}\n"));
      if s.chance(10) {
        doc.push_str("// comment\n");
      }
    }
    doc.push('\n');
  }
  doc.push_str("start\n\n");
  let mut want: Vec<(String, String)> = vec![];
  let (mut missing, mut refs) = (0, 0);
  let mut open = vec![];
  for i in 0..s.range(1, 9) {
    match s.weighted(&[4, 6, 1, 1]) {
      0 => {
        for _ in 0..s.range(1, 3) {
          let e = entry(s, &mut m, cx);
          doc.push_str(&format!("{e}\n"));
        }
        doc.push('\n');
      }
      2 => {
        let d = s.one(&["====", "****", "--", "____"]);
        if open.iter().all(|x: &&str| *x != d) && !(d == "--" && !open.is_empty()) {
          open.push(d);
          doc.push_str(&format!("{d}\n"));
        }
      }
      3 => {
        if let Some(d) = open.pop() {
          doc.push_str(&format!("{d}\n\n"));
        }
      }
      _ => {
        let mut p = vec![];
        for _ in 0..s.range(1, 4) {
          p.push(Piece::Text("x".into()));
          if s.chance(8) {
            p.push(Piece::Escaped(s.pick(&["a", "b-c"]).to_string()));
          } else {
            p.push(Piece::Ref(name(s)));
            refs += 1;
          }
        }
        let (key, end) = (format!("k{i} "), format!(" z{i}"));
        let src = format!("{key}{}x{end}", show(&p));
        let place = s.weighted(&[8, 2, 2, 2, 2, 2, 2, 2, 2, 2]);
        let n0 = missing;
        let verbatim = place == 8;
        let t = if verbatim { Some(format!("{}", p.iter().map(|p| show(std::slice::from_ref(p))).collect::<String>())) } else { m.text(&p, &mut missing, false) };
        if m.missing == "drop-line" && t.is_none() {
          // the line goes, with whatever syntax it has
          missing = n0;
          doc.push_str(&format!("before{i}\n{src}\nafter{i}\n\n"));
          want.push((format!("before{i}"), format!("before{i}after{i}")));
          continue;
        }
        let t = t.unwrap();
        if (place == 4 || place == 5) && (t.contains('|') || show(&p).contains('|')) {
          // a cell separator, or not
          doc.push_str(&format!("{src}\n\n"));
        } else {
          doc.push_str(&match place {
            1 => format!("* {src}\n\n//-\n\n"),
            2 => format!(". {src}\n\n//-\n\n"),
            3 => format!("NOTE: {src}\n\n"),
            4 => format!("|===\n|{src}\n|===\n\n"),
            5 => format!("[cols=1a]\n|===\n|{src}\n|===\n\n"),
            6 => format!("term:: {src}\n\n//-\n\n"),
            7 => format!(".{src}\npara\n\n"),
            8 => format!("----\n{src}\n----\n\n"),
            9 => format!("[verse]\n{src}\n\n"),
            _ => format!("{src}\n\n"),
          });
        }
        want.push((key.clone(), format!("{key}{t}x{end}")));
      }
    }
  }
  while let Some(d) = open.pop() {
    doc.push_str(&format!("{d}\n\n"));
  }
  cx.case(format!("{be:?} {:?}\n{doc}", o.attrs));
  cx.nontrivial(refs >= 2);
  cx.label(format!("missing {}", m.missing));
  let c = convert(&doc, &o);
  let root = match html::parse(c.html()) {
    Ok(r) => r,
    Err(e) => fail!("html", "{e}"),
  };
  let text = root.text();
  let squash = |t: &str| t.split_whitespace().collect::<String>();
  let all = squash(&text);
  for (k, w) in &want {
    ensure!(all.contains(&squash(w)), format!("value {}", strip(w)), "expected the text {w:?} for {k}\nin {text}");
  }
  let warned = c.diags.iter().filter(|d| d.message.contains("missing attribute")).count();
  let expected = if m.missing == "warn" { missing } else { 0 };
  ensure!(warned == expected, "warnings", "expected {expected} warnings about missing attributes, got {:?}", c.diags);
  Ok(())
}
