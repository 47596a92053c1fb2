//! C06: problems are reported where they are, and only there.
use super::c01;
use super::incl;
use crate::conv::*;
use crate::engine::*;
use crate::generate::*;
use crate::{ensure, fail};
use asciidork_parser::prelude::*;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
  Prop {
    id: "C06",
    run,
    quick: 180_000,
    thorough: 3_000_000,
    rule: "a document with two or more planted problems, or a random document in which some problem is reported",
    assumptions: &[
      "the text quoted for a problem in an AsciiDoc table cell is compared loosely (only the line number is exact)",
      "lines end in \\n or \\r\\n, and there is no byte order mark",
    ],
  }
}

fn run(s: &mut Src, cx: &mut Cx) -> Outcome {
  if s.chance(35) { anywhere(s, cx) } else { planted(s, cx) }
}

// ------------------------------------------------- any document

fn text_of<'a>(d: &Diagnostic, src: &'a str, files: &'a BTreeMap<String, String>) -> Option<&'a str> {
  match &d.source_file {
    SourceFile::Path(p) if p.to_string() != "/proj/main.adoc" => files.get(&p.to_string()).map(|s| s.as_str()),
    _ => Some(src),
  }
}

fn placed(d: &Diagnostic, text: &str, cells: bool, included: bool) -> Outcome {
  let m = d.message.split('`').next().unwrap();
  let lines: Vec<&str> = text.trim_start_matches('\u{feff}').split('\n').collect();
  let n = d.line_num as usize;
  ensure!(n >= 1 && n <= lines.len(), format!("no such line: {m}"), "{d:?}");
  let l = lines[n - 1];
  let csv = text.contains(",===") || text.contains("format");
  let len = d.line.len() as u32;
  if cells && csv {
  } else if cells {
    ensure!(l.contains(d.line.trim()), format!("not the text of the line: {m}"), "{d:?}\nline {n} is {l:?}");
  } else {
    // an include can indent the lines
    let (a, b) = if included { (l.trim(), d.line.trim()) } else { (l.trim_end(), d.line.trim_end()) };
    ensure!(a == b, format!("not the line: {m}"), "{d:?}\nline {n} is {l:?}");
  }
  ensure!(d.underline_start + d.underline_width <= len + 1, format!("underlined past the line: {m}"), "{d:?}");
  ensure!(d.underline_width > 0 || len == 0, format!("nothing underlined: {m}"), "{d:?}");
  let at = |i: u32| i > len || d.line.is_char_boundary(i as usize);
  ensure!(at(d.underline_start), format!("within a character: {m}"), "{d:?}");
  Ok(())
}

/// no line breaks but `\n` and `\r\n`, no byte order mark
fn plain(t: String) -> String {
  let t = t.replace("\r\n", "\n").replace(['\r', '\u{feff}'], " ");
  t
}

fn anywhere(s: &mut Src, cx: &mut Cx) -> Outcome {
  let make = |s: &mut Src| plain(match s.below(3) {
    0 => {
      let cfg = Cfg { budget: s.range(2, 12) as i32, sections: s.chance(50), header: s.chance(40), ..Cfg::default() };
      let mut g = G::new(s, cfg);
      let d = g.document().0;
      c01::mutate(s, d)
    }
    _ => c01::doc(s),
  });
  let src = make(s);
  let mut files = BTreeMap::new();
  let mut bytes = BTreeMap::new();
  if s.chance(50) {
    for f in ["a.adoc", "b.adoc", "c.txt", "d.adoc"] {
      let t = make(s);
      bytes.insert(format!("/proj/{f}"), t.clone().into_bytes());
      files.insert(format!("/proj/{f}"), t);
    }
  }
  // an include directive that isn't one in whole, or can't be resolved,
  // is turned into a link, whose source is made up
  let made_up = |l: &str| l.starts_with("include::") && (l.find(']').is_some_and(|i| i + 1 < l.trim_end().len()) || l.contains('{') || files.is_empty());
  if src.lines().chain(files.values().flat_map(|f| f.lines())).any(made_up) {
    cx.discarded = true;
    return Ok(());
  }
  let mut o = incl::opts(if s.chance(30) { Be::Html5s } else { Be::Html }, bytes);
  for _ in 0..s.below(3) {
    let (k, v) = s.one(c01::ATTRS);
    o.attrs.push((k.into(), if v.is_empty() { asciidork_core::AttrValue::Bool(true) } else { asciidork_core::AttrValue::String(v.into()) }, s.chance(50)));
  }
  cx.case(format!("attrs={:?} files={files:?}\n{src:?}\n{src}", o.attrs));
  let c = convert(&src, &o);
  cx.nontrivial(!c.diags.is_empty());
  cx.label(match c.diags.len() {
    0 => "clean",
    1 => "1 problem",
    _ => "2+ problems",
  });
  for d in &c.diags {
    let Some(text) = text_of(d, &src, &files) else { fail!("no such file", "{d:?}") };
    let cells = src.contains("===") || text.contains("===");
    if let Err(f) = placed(d, text, cells, !std::ptr::eq(text, src.as_str())) {
      // a continued attribute entry in a cell
      if cells && text.lines().any(|l| l.starts_with(':') && l.ends_with(" \\")) {
        fail!("continued attribute entry in a table", "{d:?}\n{f:?}");
      }
      return Err(f);
    }
  }
  let r = convert(&src, &o.clone().strict(true));
  ensure!(r.html.is_none() == !c.diags.is_empty(), "strict", "lenient: {:?}\nstrict: {:?} {:?}", c.diags, r.html.is_none(), r.diags);
  for d in &r.diags {
    ensure!(c.diags.contains(d), format!("only in strict mode: {}", d.message), "{d:?}\n{:?}", c.diags);
  }
  Ok(())
}

// ------------------------------------------------- planted problems

#[derive(Clone, Debug)]
struct L {
  text: String,
  probs: Vec<(String, String)>,
}

struct B<'a> {
  s: &'a mut Src,
  n: usize,
  toc: bool,
  files: Vec<(String, Vec<L>)>,
  kinds: std::collections::BTreeSet<&'static str>,
}

fn l(t: impl Into<String>) -> L {
  L { text: t.into(), probs: vec![] }
}

fn p(t: impl Into<String>, msg: impl Into<String>, under: impl Into<String>) -> L {
  L { text: t.into(), probs: vec![(msg.into(), under.into())] }
}

const UNATTACHED: &str = "Unattached block metadata";

impl B<'_> {
  fn w(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }

  /// inline text, with the problems in it
  fn inl(&mut self, cell: bool) -> L {
    let mut out = l(self.w());
    for _ in 0..self.s.weighted(&[30, 50, 15, 5]) {
      let w = self.w();
      let (kind, t, pr): (&'static str, String, Option<(String, String)>) = match self.s.weighted(&[26, 14, 8, 6, 6, 6, 20, 6, 6]) {
        0 => {
          let t = match self.s.below(5) {
            0 => format!("<<no-{w}>>"),
            1 => format!("<<no-{w},a text>>"),
            2 => format!("xref:no-{w}[]"),
            3 => format!("xref:no-{w}[a text]"),
            _ => format!("*b <<no-{w}>>*"),
          };
          ("xref", t, Some((format!("Invalid cross reference, no anchor found for `no-{w}`"), format!("no-{w}"))))
        }
        1 => ("attribute", format!("{{no-{w}}}"), Some(("Skipping reference to missing attribute".into(), format!("{{no-{w}}}")))),
        2 => ("footnote", "footnote:[]".into(), Some(("Empty footnote content".into(), "[]".into()))),
        3 => ("index term", format!("(((a{w},b,c,d)))"), Some(("too many terms in concealed indexterm, max 3".into(), "(((".into()))),
        4 => ("formatted id", format!("[#a{w}#b{w}]*x*"), Some(("More than one id attribute".into(), "#".into()))),
        5 => {
          let id = format!("dup{w}");
          if self.s.chance(50) {
            ("inline anchor", format!("[[{id}]]x [[{id}]]y"), Some(("Duplicate anchor id".into(), id)))
          } else {
            ("inline anchor", format!("[#{id}]*x* [#{id}]_y_"), Some(("Duplicate anchor id".into(), id)))
          }
        }
        // nothing wrong
        6 => {
          let t = match self.s.below(9) {
            0 => "`+<<nope>>+`".to_string(),
            1 => "+<<nope>>+".into(),
            2 => "\\{nope}".into(),
            3 => "\\<<nope>>".into(),
            4 => "pass:[<<nope>> footnote:[]]".into(),
            5 => "footnote:[x]".into(),
            6 => format!("[[ok{w}]]x"),
            7 => "<<top>>".into(),
            _ => "((a,b,c,d))".into(),
          };
          ("nothing", t, None)
        }
        7 => ("xref in a footnote", format!("footnote:[<<no-{w}>>]"), Some((format!("Invalid cross reference, no anchor found for `no-{w}`"), format!("no-{w}")))),
        _ => ("index term macro", "indexterm:[]".into(), Some(("invalid index term macro".into(), "[]".into()))),
      };
      if cell && (t.contains('|') || t.contains(',')) {
        continue;
      }
      self.kinds.insert(kind);
      out.text.push(' ');
      if self.s.chance(15) {
        out.text.push_str("é日 ");
      }
      out.text.push_str(&t);
      out.probs.extend(pr);
    }
    let w = self.w();
    out.text.push_str(&format!(" {w}"));
    out
  }

  fn pre(&mut self, prefix: &str, cell: bool) -> L {
    let mut x = self.inl(cell);
    x.text.insert_str(0, prefix);
    x
  }

  /// `depth`: of delimited blocks; `cell`: within an AsciiDoc cell
  fn block(&mut self, depth: usize, cell: bool) -> Vec<L> {
    let mut out = vec![];
    if self.s.chance(15) {
      out.push(l("[.role]"));
    }
    if self.s.chance(15) {
      out.push(self.pre(".t", false));
    }
    match self.s.weighted(&[26, 14, 8, if depth < 2 { 12 } else { 0 }, if cell { 0 } else { 10 }, 8, 24, 6, if depth < 2 { 4 } else { 0 }]) {
      0 => {
        for _ in 0..self.s.range(1, 3) {
          out.push(self.inl(false));
        }
      }
      1 => {
        for _ in 0..self.s.range(1, 3) {
          out.push(self.pre("* ", false));
          if self.s.chance(25) {
            out.push(l("+"));
            out.push(self.inl(false));
          }
        }
        if self.s.chance(15) {
          self.kinds.insert("dangling");
          out.push(p("+", "Dangling list continuation", "+"));
          out.push(self.pre("* ", false));
        }
        out.push(l(""));
        out.push(l("// -"));
      }
      2 => {
        for _ in 0..self.s.range(1, 2) {
          let t = self.inl(false);
          let mut d = self.pre(":: ", false);
          d.text.insert_str(0, &t.text);
          d.probs.splice(0..0, t.probs);
          out.push(d);
        }
        out.push(l(""));
        out.push(l("// -"));
      }
      3 => {
        let d = ["====", "****", "____", "--"][if depth == 0 { self.s.below(4) } else { 3 }];
        let d = if depth == 1 { if cell { "--" } else { "=====" } } else { d };
        out.push(l(d));
        out.extend(self.blocks(depth + 1, cell, 2));
        out.push(l(d));
      }
      4 => {
        out.extend(self.table());
      }
      5 => {
        out.push(l("----"));
        out.push(l("<<nope>> {nope} footnote:[] ifdef::x"));
        out.push(l("[[a]] (((a,b,c,d))) <1>"));
        out.push(l("----"));
        if self.s.chance(60) {
          out.push(self.pre("<1> ", false));
          if self.s.chance(40) {
            self.kinds.insert("callout");
            let mut x = self.pre("<3> ", false);
            x.probs.push(("Unexpected callout number, expected `<2>`".into(), "<3>".into()));
            x.probs.push(("No callout found for number `3`".into(), "<3>".into()));
            out.push(x);
          } else if self.s.chance(30) {
            self.kinds.insert("callout");
            let mut x = self.pre("<2> ", false);
            x.probs.push(("No callout found for number `2`".into(), "<2>".into()));
            out.push(x);
          }
          out.push(l(""));
          out.push(l("// -"));
        }
      }
      6 => out = self.bad(out),
      7 => {
        out.clear();
        let w = self.w();
        match self.s.below(3) {
          0 => {
            out.push(l("////"));
            out.push(l(format!("<<nope>> {{nope}} {w}")));
            out.push(l("////"));
          }
          1 => {
            out.push(l("ifdef::no-such[]"));
            out.push(l("<<nope>> {nope}"));
            out.push(l("endif::[]"));
          }
          _ => {
            out.push(l("ifndef::no-such[]"));
            out.push(self.inl(false));
            out.push(l("endif::[]"));
          }
        }
      }
      _ => {
        let a = self.blocks(depth, cell, 2);
        let name = format!("f{}.adoc", self.files.len());
        let k = self.s.below(4);
        let mut body = vec![];
        let inc = match k {
          0 | 1 => {
            body.extend(a);
            format!("include::{name}[]")
          }
          2 => {
            body.push(l("before <<nope>>"));
            body.push(l("// tag::a[]"));
            body.extend(a);
            body.push(l("// end::a[]"));
            body.push(l("after {nope}"));
            format!("include::{name}[{}]", self.s.pick(&["tag=a", "tags=a", "tags=*"]))
          }
          _ => {
            let n = a.len();
            body.push(l("before <<nope>>"));
            body.push(l(""));
            body.extend(a);
            body.push(l(""));
            body.push(l("after {nope}"));
            format!("include::{name}[lines=3..{}]", n + 2)
          }
        };
        self.kinds.insert(["include", "include", "tagged include", "include of lines"][k]);
        self.files.push((format!("/proj/{name}"), body));
        out = vec![l(inc)];
      }
    }
    out
  }

  /// a block which is, or has, a problem
  fn bad(&mut self, mut out: Vec<L>) -> Vec<L> {
    let w = self.w();
    let kind;
    match self.s.below(15) {
      0 => {
        kind = "block ids";
        out.push(p(format!("[#a{w}#b{w}]"), "More than one id attribute", "#"));
        out.push(self.inl(false));
      }
      1 => {
        kind = "empty id";
        out.push(p("[id=]", "Invalid empty id attribute", "*"));
        out.push(self.inl(false));
      }
      2 => {
        kind = "duplicate block id";
        out.push(l(format!("[[dup{w}]]")));
        out.push(self.inl(false));
        out.push(l(""));
        let t = if self.s.chance(50) { format!("[[dup{w}]]") } else { format!("[#dup{w}]") };
        out.push(p(t, "Duplicate anchor id", format!("dup{w}")));
        out.push(self.inl(false));
      }
      3 => {
        kind = "block anchor";
        out.push(p("[[1 2]]", "Invalid block anchor", "[[1 2]]"));
        out.push(self.inl(false));
      }
      4 => {
        kind = "unset with value";
        out = vec![p(":!foo: bar", "Cannot unset attr with `!` AND provide value", ":!foo: bar")];
      }
      5 => {
        kind = "attribute value";
        out = vec![p(":attribute-missing: foo", "Invalid value for attr `attribute-missing`, expected one of `skip`, `warn`, `drop`, `drop-line`", ":attribute-missing: foo")];
      }
      6 if !self.toc => {
        kind = "toc macro";
        out.push(p("toc::[]", "Found macro placing Table of Contents, but TOC not enabled", "toc::[]"));
      }
      7 => {
        kind = "endif";
        out = vec![p("endif::[]", "This endif directive has no previous ifdef/ifndef", "endif::[]")];
        if self.s.chance(40) {
          out = vec![p("endif::foo[]", "This endif directive has no previous ifdef/ifndef", "endif::foo[]")];
        }
      }
      8 => {
        kind = "ifeval";
        let x = self.s.pick(&["1", "l", "e", "f", "1 = 1"]);
        out = vec![p(format!("ifeval::[{x}]"), "Invalid ifeval directive expression", format!("[\0{x}"))];
      }
      9 => {
        kind = "ifeval target";
        let x = self.s.pick(&["foo", "i", "eval", "if"]);
        out = vec![p(format!("ifeval::{x}[1 == 1]"), "ifeval directive may not include a target", format!("::\0{x}"))];
      }
      10 => {
        kind = "missing include";
        out = vec![p(format!("include::no-{w}.adoc[]"), "Include error: File not found", format!("no-{w}.adoc"))];
      }
      11 => {
        kind = "mismatched endif";
        let x = self.s.pick(&["other", "end", "e", "if", "d"]);
        out = vec![l("ifndef::no-such[]"), l("w"), p(format!("endif::{x}[]"), "Mismatched endif directive, expected `no-such`", format!("::\0{x}")), l("w"), l("endif::no-such[]")];
      }
      12 => {
        kind = "missing tag";
        let name = format!("f{}.txt", self.files.len());
        self.files.push((format!("/proj/{name}"), vec![l("a"), l("// tag::b[]"), l("w"), l("// end::b[]")]));
        out = vec![p(format!("include::{name}[tag=no-{w}]"), format!("Tag `no-{w}` not found in included file"), format!("no-{w}"))];
      }
      13 => {
        kind = "unclosed tag";
        let name = format!("f{}.txt", self.files.len());
        self.files.push((format!("/proj/{name}"), vec![l("a"), p(format!("// tag::t{w}[]"), format!("Tag `t{w}` was not closed"), format!("t{w}")), l("w")]));
        out = vec![l(format!("include::{name}[tag=t{w}]"))];
      }
      14 => {
        kind = "end tag";
        let name = format!("f{}.txt", self.files.len());
        self.files.push((format!("/proj/{name}"), vec![l("// tag::t[]"), l("a"), l("// end::t[]"), p("// end::t[]", "Unexpected end tag `t`", "t"), l("w")]));
        out = vec![l(format!("include::{name}[tag=t]"))];
      }
      _ => {
        kind = "two problems in a block";
        out.push(p(format!("[#a{w},id=b{w}]"), "More than one id attribute", "*"));
        out.push(self.inl(false));
        out.push(self.inl(false));
      }
    }
    self.kinds.insert(kind);
    out
  }

  fn table(&mut self) -> Vec<L> {
    let mut out = vec![];
    let w = self.w();
    match self.s.weighted(&[30, 30, 10, 8, 8, 8, 6]) {
      0 => {
        out.push(l("|==="));
        for _ in 0..self.s.range(1, 3) {
          let a = self.inl(true);
          let mut b = self.pre(" | ", true);
          b.text.insert_str(0, &format!("| {}", a.text));
          b.probs.splice(0..0, a.probs);
          out.push(b);
        }
        out.push(l("|==="));
      }
      1 => {
        self.kinds.insert("cell");
        out.push(l("[cols=\"1,1a\"]"));
        out.push(l("|==="));
        for _ in 0..self.s.range(1, 2) {
          let b = self.pre("| ", true);
          out.push(b);
          let cellb = self.blocks(1, true, 2);
          let same = self.s.chance(50) && !cellb[0].text.is_empty() && cellb[0].text.starts_with('w');
          for (i, x) in cellb.into_iter().enumerate() {
            if i == 0 {
              if same {
                out.push(L { text: format!("| {}", x.text), probs: x.probs });
                continue;
              }
              out.push(l("|"));
            }
            out.push(x);
          }
        }
        out.push(l("|==="));
      }
      2 => {
        self.kinds.insert("no separator");
        out.push(l("|==="));
        out.push(p(w.clone(), "Expected cell separator `|`", &w[..1]));
        out.push(l("| x | y"));
        out.push(l("|==="));
      }
      3 => {
        self.kinds.insert("column span");
        out.push(l("[cols=2]"));
        out.push(l("|==="));
        out.push(l("| x | y"));
        out.push(p("3+| z", "Cell column span (3) exceeds number of columns (2)", "3+"));
        out.push(l("|==="));
      }
      4 => {
        self.kinds.insert("csv quote");
        out.push(l(",==="));
        out.push(l("a,b"));
        out.push(p("c,d \"e\"", "Double quote not allowed here, entire field must be quoted", "\""));
        let n = out.len() - 1;
        let again = out[n].probs[0].clone();
        out[n].probs.push(again);
        out.push(l(",==="));
      }
      5 => {
        self.kinds.insert("csv unclosed");
        out.push(l(",==="));
        out.push(l("a,b"));
        out.push(p("c,\"d", "Unclosed CSV quote", "\""));
        out.push(l(",==="));
      }
      _ => {
        self.kinds.insert("separator");
        let first = self.s.pick(&["", ".ab,", "role=ab,", "title=ab,"]);
        out.push(p(format!("[{first}separator=ab]"), "Cell separator must be exactly one character", "separator=\0ab"));
        out.push(l("|==="));
        out.push(l("ax"));
        out.push(l("|==="));
      }
    }
    out
  }

  fn blocks(&mut self, depth: usize, cell: bool, max: usize) -> Vec<L> {
    let mut out: Vec<L> = vec![];
    for _ in 0..self.s.range(1, max) {
      if !out.is_empty() {
        out.push(l(""));
      }
      out.extend(self.block(depth, cell));
    }
    out
  }

  fn document(&mut self) -> Vec<L> {
    let mut out = vec![];
    if self.s.chance(50) {
      out.push(l("= Title"));
      match self.s.weighted(&[60, 10, 10, 10, 10]) {
        1 => {
          self.kinds.insert("toc without macro");
          self.toc = true;
          out.push(p(":toc: macro", "Table of Contents set to `macro` but macro (`toc::[]`) not found", ":toc: macro"));
        }
        2 => out.push(l("A Author <a@b.c>")),
        3 => out.push(l(":foo: bar")),
        _ => {}
      }
      out.push(l(""));
    }
    out.push(l("[[top]]"));
    out.push(l("first"));
    out.push(l(""));
    out.extend(self.blocks(0, false, 4));
    let mut levels = vec![0];
    for _ in 0..self.s.weighted(&[40, 30, 20, 10]) {
      out.push(l(""));
      if self.s.chance(10) {
        self.kinds.insert("level 0");
        levels = vec![0];
        out.push(p("= Level zero", "Level 0 section allowed only in doctype=book", "= Level zero"));
        out.push(l(""));
        out.extend(self.blocks(0, false, 2));
        continue;
      }
      let to = self.s.range(1, 4);
      let mut h = self.inl(false);
      h.text.insert_str(0, &format!("{} ", "=".repeat(to + 1)));
      while levels.last().is_some_and(|x| *x >= to) {
        levels.pop();
      }
      let level = *levels.last().unwrap();
      if to > level + 1 {
        self.kinds.insert("section level");
        h.probs.push((format!("Section title out of sequence: expected level {} `{}`", level + 1, "=".repeat(level + 2)), "=".repeat(to + 1)));
      }
      levels.push(to);
      out.push(h);
      out.push(l(""));
      out.extend(self.blocks(0, false, 3));
    }
    match self.s.below(8) {
      0 => {
        self.kinds.insert("unclosed block");
        let d = self.s.pick(&["====", "----", "****", "....", "____", "--", "```", "++++"]);
        out.push(l(""));
        out.push(p(d, "This delimiter was never closed", d));
        out.push(l("w"));
      }
      1 => {
        self.kinds.insert("unclosed table");
        out.push(l(""));
        out.push(p("|===", "Table never closed, started here", "|==="));
        out.push(l("| w"));
      }
      2 => {
        self.kinds.insert("unattached");
        out.push(l(""));
        out.push(p(".Nothing", UNATTACHED, ".Nothing"));
      }
      3 => {
        self.kinds.insert("unclosed ifdef");
        out.push(l(""));
        out.push(p("ifdef::no-such[]", "This ifdef directive was never closed", "ifdef::no-such[]"));
        out.push(l("w"));
      }
      _ => {}
    }
    out
  }
}

/// what is printed quotes the line, and has carets below the underlined text
fn printed(d: &Diagnostic) -> Outcome {
  let t = d.plain_text();
  let ls: Vec<Vec<char>> = t.lines().map(|l| l.chars().collect()).collect();
  ensure!(ls.len() >= 4, "printed: lines", "{t}");
  let at: String = ls[0].iter().collect();
  ensure!(at.trim().ends_with(&format!(":{}:{}", d.line_num, d.underline_start + 1)), "printed: place", "{d:?}\n{t}");
  let bar = |l: &Vec<char>| l.iter().position(|c| *c == '|');
  let (Some(a), Some(b)) = (bar(&ls[2]), bar(&ls[3])) else { fail!("printed: bars", "{t}") };
  ensure!(a == b, "printed: bars", "{t}");
  let quoted: String = ls[2][a + 1..].iter().collect();
  ensure!(quoted.trim_start() == d.line.trim_start(), "printed: line", "{d:?}\n{t}");
  let carets: Vec<usize> = (a..ls[3].len()).skip_while(|i| ls[3][*i] != '^').take_while(|i| ls[3][*i] == '^').collect();
  let under: String = carets.iter().filter_map(|i| ls[2].get(*i)).collect();
  let want = d.line.get(d.underline_start as usize..(d.underline_start + d.underline_width) as usize).unwrap_or("");
  ensure!(under == want, "printed: carets", "{d:?}\n{t}");
  ensure!(t.contains(&d.message), "printed: message", "{d:?}\n{t}");
  Ok(())
}

fn planted(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = if s.chance(50) { Be::Html } else { Be::Html5s };
  let mut b = B { s, n: 0, toc: false, files: vec![], kinds: Default::default() };
  let main = b.document();
  let kinds = b.kinds.clone();
  let files = b.files;
  let text = |ls: &[L]| ls.iter().map(|x| format!("{}\n", x.text)).collect::<String>();
  let src = text(&main);
  let texts: BTreeMap<String, String> = files.iter().map(|(n, ls)| (n.clone(), text(ls))).collect();
  let o = incl::opts(be, texts.iter().map(|(k, v)| (k.clone(), v.clone().into_bytes())).collect()).attr("attribute-missing", "warn");
  cx.case(format!("files={texts:?}\n{src}"));
  for k in kinds {
    cx.label(k);
  }
  let mut want: Vec<(String, usize, String, String)> = vec![];
  // where in the line they are, if that is not ambiguous
  let mut columns: BTreeMap<(String, usize, String, String), usize> = BTreeMap::new();
  let mut add = |name: &str, ls: &[L]| {
    for (i, x) in ls.iter().enumerate() {
      for (m, u) in &x.probs {
        let (before, u) = u.split_once('\0').unwrap_or(("", u));
        let w = (name.to_string(), i + 1, m.clone(), u.to_string());
        let all = format!("{before}{u}");
        if x.text.matches(&all).count() == 1 {
          columns.insert(w.clone(), x.text.find(&all).unwrap() + before.len());
        }
        want.push(w);
      }
    }
  };
  add("/proj/main.adoc", &main);
  for (n, ls) in &files {
    add(n, ls);
  }
  cx.nontrivial(want.len() >= 2);
  let c = convert(&src, &o);
  let mut got = vec![];
  for d in &c.diags {
    let name = match &d.source_file {
      SourceFile::Path(p) => p.to_string(),
      f => f.file_name().to_string(),
    };
    let u = d.line.get(d.underline_start as usize..(d.underline_start + d.underline_width) as usize).unwrap_or("<!>").to_string();
    let at = (name, d.line_num as usize, d.message.clone(), u);
    if let Some(c) = columns.get(&at) {
      // the line of a problem in a cell is that of the cell's text
      let cell = (at.0 == "/proj/main.adoc").then(|| &main).or_else(|| files.iter().find(|f| f.0 == at.0).map(|f| &f.1)).is_some_and(|f| f[at.1 - 1].text != d.line);
      ensure!(cell || *c == d.underline_start as usize, format!("column: {}", at.2.split('`').next().unwrap()), "{d:?}\nexpected column {c}");
    }
    got.push(at);
  }
  got.sort();
  want.sort();
  for g in &mut got {
    if !want.contains(g) && want.iter().any(|w| w.3 == "*" && (&w.0, &w.1, &w.2) == (&g.0, &g.1, &g.2)) {
      g.3 = "*".into();
    }
  }
  for g in &got {
    ensure!(want.contains(g), format!("reported: {}", g.2.split('`').next().unwrap()), "{g:?}\nexpected: {want:#?}\n got: {got:#?}");
  }
  for w in &want {
    ensure!(got.contains(w), format!("not reported: {}", w.2.split('`').next().unwrap()), "{w:?}\nexpected: {want:#?}\n got: {got:#?}");
  }
  ensure!(got.len() == want.len(), "reported twice", "expected: {want:#?}\n got: {got:#?}");
  for d in &c.diags {
    printed(d)?;
    let text = text_of(d, &src, &texts).unwrap_or("");
    placed(d, text, text.contains("|==="), !std::ptr::eq(text, src.as_str()))?;
  }
  let r = convert(&src, &o.clone().strict(true));
  ensure!(r.html.is_none() == !want.is_empty(), "strict", "{want:?}\nstrict: {:?} {:?}", r.html.is_none(), r.diags);
  for d in &r.diags {
    ensure!(c.diags.contains(d), format!("only in strict mode: {}", d.message), "{d:?}\n{:?}", c.diags);
  }
  Ok(())
}
