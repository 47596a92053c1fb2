//! C17, C20: what the preprocessor lets through is the document.
use crate::conv::*;
use crate::engine::*;
use crate::generate::*;
use crate::{ensure, fail};
use asciidork_core::AttrValue;
use std::collections::BTreeMap;

pub fn conditionals() -> Prop {
  Prop {
    id: "C20",
    run: run_cond,
    quick: 200_000,
    thorough: 4_000_000,
    rule: "random block documents with line ranges wrapped in satisfied conditionals and junk wrapped in unsatisfied ones, nested; non-trivial: 3+ conditionals",
    assumptions: &["conditionals are not placed in comment blocks", "`ifndef` with `+` only on attributes of one kind (see DESIGN.md)"],
  }
}

struct Cond<'a> {
  s: &'a mut Src,
  attrs: BTreeMap<String, Option<String>>,
  n: usize,
  out: Vec<String>,
  reference: Vec<String>,
}

const NAMES: [&str; 9] = ["d1", "d2", "d3", "u1", "u2", "f1", "e1", "e2", "e-3_x"];

impl Cond<'_> {
  fn defined(&self, n: &str) -> bool {
    matches!(self.attrs.get(n), Some(Some(_)))
  }

  /// a condition of the wanted truth: (opening directive up to `[`, its end names), or an `ifeval` line
  fn open(&mut self, want: bool, single: bool) -> (String, String) {
    loop {
      match self.s.below(if single { 6 } else { 10 }) {
        0..=2 => {
          let n = self.s.pick(&NAMES).to_string();
          let d = if self.defined(&n) == want { "ifdef" } else { "ifndef" };
          return (format!("{d}::{n}["), n);
        }
        k @ 3..=5 => {
          let names: Vec<String> = (0..self.s.range(2, 3)).map(|_| self.s.pick(&NAMES).to_string()).collect();
          let sep = if self.s.chance(50) { "," } else { "+" };
          let defs: Vec<bool> = names.iter().map(|n| self.defined(n)).collect();
          let (any, all) = (defs.iter().any(|x| *x), defs.iter().all(|x| *x));
          let not = k == 5;
          let truth = match (not, sep) {
            (false, ",") => any,
            (false, _) => all,
            (true, ",") => !any,
            (true, _) => {
              if any != all {
                continue;
              }
              !any
            }
          };
          if truth != want {
            continue;
          }
          let l = names.join(sep);
          return (format!("{}::{l}[", if not { "ifndef" } else { "ifdef" }), l);
        }
        _ => {
          let (e, truth) = self.eval();
          if truth != want {
            continue;
          }
          return (format!("ifeval::[{e}"), String::new());
        }
      }
    }
  }

  fn eval(&mut self) -> (String, bool) {
    let op = self.s.one(&["==", "!=", "<", "<=", ">", ">="]);
    let (l, r, ord) = match self.s.below(4) {
      0 => {
        let (a, b) = (self.s.below(30) as i64 - 10, self.s.below(30) as i64 - 10);
        (a.to_string(), b.to_string(), a.cmp(&b))
      }
      1 => {
        let (a, b) = (self.s.below(40), self.s.below(40));
        let f = |x: usize| format!("{}.{}", x / 10, x % 10);
        let fa = if a % 10 == 0 { (a / 10).to_string() } else { f(a) };
        (fa, f(b), a.cmp(&b))
      }
      2 => {
        let w = ["", "a", "ab", "b", "10", "9", "A", "é", "a b"];
        let (a, b) = (self.s.pick(&w).to_string(), self.s.pick(&w).to_string());
        let q = self.s.one(&["\"", "'"]);
        (format!("{q}{a}{q}"), format!("{q}{b}{q}"), a.cmp(&b))
      }
      _ => {
        // string value of an attribute, or nothing
        let n = self.s.pick(&NAMES).to_string();
        let v = self.attrs.get(&n).cloned().flatten().unwrap_or_default();
        let w = self.s.one(&["", "x", "y", "10", "1.5"]);
        (format!("\"{{{n}}}\""), format!("\"{w}\""), v.as_str().cmp(w))
      }
    };
    use std::cmp::Ordering::*;
    let t = match op {
      "==" => ord == Equal,
      "!=" => ord != Equal,
      "<" => ord == Less,
      "<=" => ord != Greater,
      ">" => ord == Greater,
      _ => ord != Less,
    };
    let sp = self.s.one(&[" ", "", "  "]);
    (format!("{l}{sp}{op}{sp}{r}"), t)
  }

  fn close(&mut self, names: &str) -> String {
    if !names.is_empty() && self.s.chance(40) { format!("endif::{names}[]") } else { "endif::[]".into() }
  }

  fn junk(&mut self, depth: usize) -> Vec<String> {
    let mut v = vec![];
    for _ in 0..self.s.range(0, 4) {
      match self.s.below(if depth < 3 { 20 } else { 14 }) {
        0 => v.push("junk".into()),
        1 => v.push(String::new()),
        2 => v.push("----".into()),
        3 => v.push("====".into()),
        4 => v.push("|===".into()),
        5 => v.push("== junk".into()),
        6 => v.push(self.s.one(&[":d1!:", ":e1: junk", ":e2!:"]).into()),
        7 => v.push(self.s.one(&["* junk", ". junk", "junk:: junk", "+"]).into()),
        8 => v.push("include::missing.adoc[]".into()),
        9 => v.push(self.s.one(&["junk endif::[]", "a endif::d1[] b", "junk ifdef::d1[]", " ifdef::d1[]", "\\ifdef::d1[]", "\\endif::[]", "junk ifeval::[1 == 1]"]).into()),
        10 => v.push(self.s.one(&["endif::[junk]", "endif::", "ifdef::d1", "ifdef::[]", "ifeval::d1[1 == 1]", "endif::[] junk", "ifdef::d1[] junk"]).into()),
        11 => v.push(self.s.one(&["////", "////", "\"\"", "____", "++++", "--", "```"]).into()),
        12 | 13 => {
          let k = self.s.chance(50);
          let (o, _) = self.open(k, true);
          v.push(format!("{o}junk]"));
        }
        _ => {
          let k = self.s.chance(50);
          let (o, n) = self.open(k, false);
          v.push(format!("{o}]"));
          v.extend(self.junk(depth + 1));
          v.push(self.close(&n));
        }
      }
    }
    v
  }

  fn emit(&mut self, lines: &[String], depth: usize) {
    let mut i = 0;
    while i < lines.len() {
      if depth < 4 && self.s.chance(25) {
        match self.s.weighted(&[40, 30, 15, 15]) {
          0 => {
            // wrap a range that stays
            let j = self.s.range(i, lines.len());
            let (o, n) = self.open(true, false);
            self.n += 1;
            self.out.push(format!("{o}]"));
            self.emit(&lines[i..j], depth + 1);
            let c = self.close(&n);
            self.out.push(c);
            i = j;
          }
          1 => {
            // a range that goes
            let (o, n) = self.open(false, false);
            self.n += 1;
            self.out.push(format!("{o}]"));
            let mut j = self.junk(0);
            if self.s.chance(20) {
              j.extend(lines.iter().take(3).cloned());
            }
            self.out.extend(j);
            let c = self.close(&n);
            self.out.push(c);
          }
          2 if !lines[i].is_empty() && !lines[i].contains('\n') => {
            let (o, _) = self.open(true, true);
            self.n += 1;
            self.out.push(format!("{o}{}]", lines[i]));
            self.note(&lines[i]);
            self.reference.push(lines[i].clone());
            i += 1;
          }
          _ => {
            let (o, _) = self.open(false, true);
            self.n += 1;
            let j = self.s.one(&["junk", "* junk", "----", ":d1!:", "a [b] c", "endif::[]", "ifdef::u1[]", ":e2: junk"]);
            self.out.push(format!("{o}{j}]"));
          }
        }
      } else {
        self.note(&lines[i]);
        self.out.push(lines[i].clone());
        self.reference.push(lines[i].clone());
        i += 1;
      }
    }
  }

  /// keeps track of the attribute entries (their names occur nowhere else)
  fn note(&mut self, l: &str) {
    for n in ["e1", "e2", "e-3_x"] {
      if l.starts_with(&format!(":{n}!:")) || l.starts_with(&format!(":!{n}:")) {
        self.attrs.insert(n.into(), None);
      } else if let Some(v) = l.strip_prefix(&format!(":{n}:")) {
        self.attrs.insert(n.into(), Some(v.trim().into()));
      }
    }
  }
}

/// the lines of a random document with attribute entries in between (`None`: has a comment block)
pub fn doc_lines(s: &mut Src) -> Option<Vec<String>> {
  let mut lines = vec![];
  let header = s.chance(40);
  if header {
    lines.push("= Title".to_string());
  }
  let parts = s.range(1, 3);
  for p in 0..parts {
    for _ in 0..s.below(3) {
      let n = s.one(&["e1", "e2", "e-3_x"]);
      lines.push(match s.below(3) {
        0 => format!(":{n}!:"),
        1 => format!(":!{n}:"),
        _ => format!(":{n}: {}", s.one(&["x", "y", "10", "1.5"])),
      });
    }
    if p > 0 || !lines.is_empty() {
      lines.push(String::new());
    }
    let cfg = Cfg { budget: s.range(1, 6) as i32, sections: s.chance(30), ..Cfg::default() };
    let (d, _) = G::new(s, cfg).document();
    lines.extend(d.lines().map(|x| x.to_string()));
    if s.chance(30) {
      lines.push(String::new());
      lines.push("{e1} {e2} {e-3_x}".into());
    }
    lines.push(String::new());
  }
  if lines.iter().any(|l| l == "////") {
    return None;
  }
  Some(lines)
}

/// the same, with more comment blocks: each is a single element
fn doc_units(s: &mut Src) -> Vec<String> {
  let mut out: Vec<String> = vec![];
  let Some(lines) = doc_lines(s) else { return vec!["////\nc\n////".into(), "x".into(), "y".into()] };
  for (i, l) in lines.into_iter().enumerate() {
    let blank = l.is_empty();
    out.push(l);
    if blank && i > 1 && s.chance(12) {
      let inner = s.pick(&["c1", "c1\n\nc2"]);
      out.push(format!("////\n{inner}\n////"));
      if s.chance(40) {
        out.push(String::new());
      }
    }
  }
  out
}

fn run_cond(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = if s.chance(20) { Be::Html5s } else { Be::Html };
  let lines = doc_units(s);
  let mut attrs = BTreeMap::new();
  attrs.insert("d1".to_string(), Some("x".to_string()));
  attrs.insert("d2".to_string(), Some("10".to_string()));
  attrs.insert("d3".to_string(), Some(String::new()));
  let mut c = Cond { s, attrs, n: 0, out: vec![], reference: vec![] };
  c.emit(&lines, 0);
  let (n, out, refr) = (c.n, c.out, c.reference);
  let nl = if s.chance(80) { "\n" } else { "" };
  let (doc, want) = (out.join("\n") + nl, refr.join("\n") + "\n");
  cx.case(format!("{be:?}\n{doc}"));
  cx.nontrivial(n >= 3);
  let mut o = Opts::default().be(be).attr("d1", "x").attr("d2", "10");
  o.attrs.push(("d3".into(), AttrValue::Bool(true), true));
  o.attrs.push(("f1".into(), AttrValue::Bool(false), true));
  let (a, b) = (convert(&doc, &o), convert(&want, &o));
  if a.html() != b.html() {
    let (x, y) = differ(b.html(), a.html());
    fail!(format!("cond {}", strip(&x)), "the document with conditionals differs from the text that remains\nexpected …{x}\nbut got  …{y}\n--- remaining text\n{want}");
  }
  ensure!(a.diags.len() == b.diags.len(), "cond diags", "diagnostics differ: {}", a.diags.first().map(|d| d.plain_text()).unwrap_or_default());
  Ok(())
}

/// the places where two outputs start to differ
pub fn differ(a: &str, b: &str) -> (String, String) {
  let k = a.chars().zip(b.chars()).take_while(|(x, y)| x == y).count();
  let from = k.saturating_sub(20);
  (a.chars().skip(from).take(160).collect(), b.chars().skip(from).take(160).collect())
}
pub fn strip(x: &str) -> String {
  x.chars().filter(|c| !c.is_ascii_digit()).skip(12).take(20).collect()
}
