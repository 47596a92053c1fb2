//! C17: a document split into included files converts like the document in one piece.
use super::prep::{differ, doc_lines, strip};
use crate::conv::*;
use crate::engine::*;
use crate::{ensure, fail};
use asciidork_core::SafeMode;
use std::collections::BTreeMap;

pub fn prop() -> Prop {
  Prop {
    id: "C17",
    run,
    quick: 220_000,
    thorough: 4_000_000,
    rule: "random block documents split at random into (nested) include files selected by lines and tags, in several encodings and directories; level offsets, indents, tag filters and include depths against models; non-trivial: 2+ includes, or a filter that keeps a part of the lines",
    assumptions: &["includes resolved from memory", "files named .adoc have no significant trailing spaces"],
  }
}

fn run(s: &mut Src, cx: &mut Cx) -> Outcome {
  match s.weighted(&[50, 15, 20, 8, 7]) {
    0 => split(s, cx),
    1 => offsets(s, cx),
    2 => tags(s, cx),
    3 => indents(s, cx),
    _ => depth(s, cx),
  }
}

pub fn opts(be: Be, files: BTreeMap<String, Vec<u8>>) -> Opts {
  let mut o = Opts::default().be(be).files(files);
  o.safe = SafeMode::Unsafe;
  o.base_dir = Some("/proj".into());
  o.file = FileKind::Path("/proj/main.adoc".into());
  o
}

pub struct Split<'a> {
  pub s: &'a mut Src,
  pub files: BTreeMap<String, Vec<u8>>,
  pub n: usize,
  pub depth: usize,
}

fn encode(s: &mut Src, lines: &[String], adoc: bool) -> (Vec<u8>, &'static str) {
  let nl = if adoc && s.chance(15) { "\r\n" } else { "\n" };
  let mut out = String::new();
  let trail = adoc && s.chance(15);
  for (i, l) in lines.iter().enumerate() {
    out.push_str(l);
    if trail && s.chance(30) {
      out.push_str(s.pick(&[" ", "\t", "   "]));
    }
    // an empty last line needs its newline
    if i + 1 < lines.len() || l.is_empty() || s.chance(70) {
      out.push_str(nl);
    }
  }
  match s.weighted(&[76, 8, 8, 8]) {
    0 => (out.into_bytes(), ""),
    1 => ([&[0xEF, 0xBB, 0xBF], out.as_bytes()].concat(), ""),
    2 => {
      let mut v = vec![0xFF, 0xFE];
      v.extend(out.encode_utf16().flat_map(|u| u.to_le_bytes()));
      (v, "")
    }
    _ => {
      let mut v = vec![0xFE, 0xFF];
      v.extend(out.encode_utf16().flat_map(|u| u.to_be_bytes()));
      (v, "")
    }
  }
}

impl Split<'_> {
  fn junk(&mut self, max: usize) -> Vec<String> {
    (0..self.s.below(max + 1)).map(|_| self.s.pick(&["junk", "", "= junk", "----", "ifdef::junk[]", "|===", ":e1: junk", "* junk", "include::junk.adoc[]", "endif::[]", "////", "[junk"]).to_string()).collect()
  }

  /// spells the relative path of `to` seen from the directory `from`
  fn target(&mut self, from: &str, to: &str) -> String {
    if self.s.chance(8) {
      return to.to_string();
    }
    let f: Vec<&str> = from.split('/').filter(|x| !x.is_empty()).collect();
    let t: Vec<&str> = to.split('/').filter(|x| !x.is_empty()).collect();
    let k = f.iter().zip(&t).take_while(|(a, b)| a == b).count();
    let mut p: Vec<&str> = vec![".."; f.len() - k];
    p.extend(&t[k..]);
    let p = p.join("/");
    match self.s.below(8) {
      0 if !p.starts_with("..") => format!("./{p}"),
      1 if from == "/proj" => format!("{{d1}}{p}"),
      _ => p,
    }
  }

  /// the lines of a file in `dir` (parts of it moved to other files)
  pub fn split(&mut self, lines: &[String], dir: &str, depth: usize) -> Vec<String> {
    let mut out = vec![];
    let mut i = 0;
    while i < lines.len() {
      if self.s.chance(4) {
        let o = self.s.pick(&["opts=optional", "opts=\"optional\"", "options=\"optional\""]).to_string();
        out.push(format!("include::missing.adoc[{o}]"));
        self.n += 1;
      }
      if depth < 5 && self.s.chance(12) {
        let k = self.s.range(1, 6).min(lines.len() - i);
        let sub = self.s.pick(&["/proj", "/proj/sub", "/proj/sub/deep", "/proj/other", "/lib"]).to_string();
        let inner = self.split(&lines[i..i + k], &sub, depth + 1);
        out.push(self.file(inner, dir, &sub, depth + 1));
        i += k;
      } else {
        out.push(lines[i].clone());
        i += 1;
      }
    }
    out
  }

  fn file(&mut self, lines: Vec<String>, from: &str, dir: &str, depth: usize) -> String {
    self.n += 1;
    self.depth = self.depth.max(depth);
    let ext = self.s.one(&[".adoc", ".adoc", ".txt", ".asciidoc", ".rb", ".ad"]);
    let adoc = ext != ".rb";
    let path = format!("{dir}/f{}{ext}", self.n);
    let target = self.target(from, &path);
    let mut all = vec![];
    // (regions without any text are dropped)
    let blank = lines.iter().all(|l| l.trim().is_empty());
    let attrs = match self.s.weighted(&[45, 28, if blank { 0 } else { 27 }]) {
      0 => {
        all = lines;
        String::new()
      }
      1 => {
        let mut ranges: Vec<(usize, usize)> = vec![];
        let j = self.junk(3);
        all.extend(j);
        for l in lines {
          all.push(l);
          let at = all.len();
          match ranges.last_mut() {
            Some(r) if r.1 + 1 == at && !self.s.chance(10) => r.1 = at,
            _ => ranges.push((at, at)),
          }
          if self.s.chance(12) {
            let j = self.junk(3);
            all.extend(j);
          }
        }
        let mut open = self.s.chance(30);
        if !open {
          let j = self.junk(3);
          all.extend(j);
        }
        open &= ranges.last().is_some_and(|r| r.1 == all.len());
        let n = ranges.len();
        let r: Vec<String> = ranges
          .iter()
          .enumerate()
          .map(|(i, (a, b))| {
            if i + 1 == n && open {
              self.s.one(&[format!("{a}.."), format!("{a}..-1")])
            } else if a == b && self.s.chance(70) {
              a.to_string()
            } else {
              format!("{a}..{b}")
            }
          })
          .collect();
        if n == 1 && self.s.chance(50) {
          format!("lines={}", r[0])
        } else if self.s.chance(50) {
          format!("lines={}", r.join(";"))
        } else {
          format!("lines=\"{}\"", r.join(self.s.one(&[",", ", ", ";"])))
        }
      }
      _ => {
        let names: Vec<&str> = vec!["a", "b-1", "c.x"];
        let one = self.s.chance(50);
        let (o, c) = self.s.one(&[("// ", ""), ("# ", ""), ("", ""), ("<!-- ", " -->"), ("/* ", " */"), ("  // ", "")]);
        let j = self.junk(3);
        all.extend(j.into_iter());
        let mut used = vec![];
        let mut open: Option<&str> = None;
        for l in lines {
          if open.is_none() {
            let n = if one { "a" } else { names[self.s.below(3)] };
            used.push(n);
            all.push(format!("{o}tag::{n}[]{c}"));
            open = Some(n);
          }
          if self.s.chance(8) {
            all.push(format!("{o}tag::other[]{c}"));
            all.push(l);
            all.push(format!("{o}end::other[]{c}"));
          } else {
            all.push(l);
          }
          if self.s.chance(15) {
            all.push(format!("{o}end::{}[]{c}", open.take().unwrap()));
            let j = self.junk(2);
            all.extend(j);
          }
        }
        if let Some(n) = open {
          all.push(format!("{o}end::{n}[]{c}"));
        }
        let j = self.junk(3);
        all.extend(j);
        used.sort();
        used.dedup();
        if used.len() == 1 && self.s.chance(60) {
          format!("{}={}", self.s.one(&["tag", "tags"]), used[0])
        } else if self.s.chance(50) {
          format!("tags={}", used.join(";"))
        } else {
          format!("tags=\"{}\"", used.join(self.s.one(&[",", ";"])))
        }
      }
    };
    let (bytes, _) = encode(self.s, &all, adoc);
    self.files.insert(path, bytes);
    format!("include::{target}[{attrs}]")
  }
}

fn show(doc: &str, files: &BTreeMap<String, Vec<u8>>) -> String {
  let mut out = doc.to_string();
  for (k, v) in files {
    out.push_str(&format!("\n~~~~ {k}\n{}", String::from_utf8(v.clone()).unwrap_or_else(|_| format!("{v:?}"))));
  }
  out
}

fn split(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = if s.chance(20) { Be::Html5s } else { Be::Html };
  let Some(mut lines) = doc_lines(s) else {
    cx.discarded = true;
    return Ok(());
  };
  if s.chance(25) {
    let w = s.pick(&["é", "日本w", "😀", "ß"]).to_string();
    for l in &mut lines {
      *l = l.replace("w1", &w);
    }
  }
  let mut c = Split { s, files: BTreeMap::new(), n: 0, depth: 0 };
  let out = c.split(&lines, "/proj", 0);
  let (n, files, deep) = (c.n, c.files, c.depth);
  let (doc, want) = (out.join("\n") + "\n", lines.join("\n") + "\n");
  cx.case(format!("{be:?}\n{}", show(&doc, &files)));
  cx.nontrivial(n >= 2);
  cx.label(&format!("depth {deep}"));
  let mut o = opts(be, files).attr("d1", "");
  if s.chance(50) {
    o = o.attr("max-include-depth", &(deep + 1).to_string());
  }
  let (a, b) = (convert(&doc, &o), convert(&want, &o));
  if a.html() != b.html() {
    let (x, y) = differ(b.html(), a.html());
    fail!(format!("include {}", strip(&x)), "the document with includes differs from the text in one piece\nexpected …{x}\nbut got  …{y}\n--- in one piece\n{want}");
  }
  let dup = |d: &&asciidork_parser::Diagnostic| !d.plain_text().contains("Duplicate anchor id");
  let (x, y) = (a.diags.iter().filter(dup).count(), b.diags.iter().filter(dup).count());
  ensure!(x == y, "include diags", "diagnostics differ: {}", a.diags.first().map(|d| d.plain_text()).unwrap_or_default());
  ensure!(a.diags.len() == b.diags.len(), "include duplicate ids", "duplicate ids are reported {} times in one piece, {} times split", b.diags.len() - y, a.diags.len() - x);
  Ok(())
}

/// relative level offsets of includes add up; verbatim text is not touched
fn offsets(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = if s.chance(20) { Be::Html5s } else { Be::Html };
  // (true level, title), or other lines
  enum It {
    H(usize, String, bool),
    L(Vec<String>),
  }
  let mut items = vec![];
  let mut level = 0;
  let mut n = 0;
  for _ in 0..s.range(3, 14) {
    n += 1;
    if s.chance(55) {
      level = s.range(1, (level + 1).min(5));
      items.push(It::H(level, format!("t{n}"), false));
    } else if level > 0 && s.chance(15) {
      items.push(It::H(s.range(1, 5), format!("d{n}"), true));
    } else {
      items.push(It::L(match s.below(4) {
        0 => vec!["----".into(), "== x".into(), String::new(), "= y".into(), "----".into()],
        1 => vec![format!("p{n}"), "== q".into()],
        2 => vec!["* a".into(), "+".into(), "....".into(), "=== z".into(), "....".into()],
        _ => vec![format!("p{n}")],
      }));
    }
  }
  struct O<'a> {
    s: &'a mut Src,
    files: BTreeMap<String, Vec<u8>>,
    n: usize,
  }
  fn emit(o: &mut O, items: &[It], off: i64, depth: usize) -> Vec<String> {
    let mut out = vec![];
    let mut i = 0;
    while i < items.len() {
      if depth < 4 && o.s.chance(25) {
        let k = o.s.range(1, items.len() - i);
        let part = &items[i..i + k];
        let (lo, hi) = part.iter().fold((9, 0), |(a, b), x| if let It::H(l, ..) = x { (a.min(*l as i64), b.max(*l as i64)) } else { (a, b) });
        // levels as written must stay between 0 and 5
        let total = (off + o.s.range(0, 4) as i64 - 2).clamp((hi - 5).max(-4), lo.min(5));
        let delta = total - off;
        let inner = emit(o, part, total, depth + 1);
        o.n += 1;
        let f = format!("o{}.adoc", o.n);
        o.files.insert(format!("/proj/{f}"), inner.join("\n").into_bytes());
        let at = match delta {
          0 if o.s.chance(70) => String::new(),
          d => {
            let v = if d < 0 { d.to_string() } else { format!("+{d}") };
            o.s.one(&[format!("leveloffset={v}"), format!("leveloffset=\"{v}\"")])
          }
        };
        out.push(format!("include::{f}[{at}]"));
        out.push(String::new());
        i += k;
      } else {
        match &items[i] {
          It::H(l, t, d) => {
            if *d {
              out.push("[discrete]".into());
            }
            out.push(format!("{} {t}", "=".repeat((*l as i64 - off + 1).max(1) as usize)));
          }
          It::L(v) => out.extend(v.iter().cloned()),
        }
        out.push(String::new());
        i += 1;
      }
    }
    out
  }
  let mut o = O { s, files: BTreeMap::new(), n: 0 };
  let doc = emit(&mut o, &items, 0, 0).join("\n");
  let (n, files) = (o.n, o.files);
  let mut p = O { s, files: BTreeMap::new(), n: 0 };
  let want = emit(&mut p, &items, 0, 9).join("\n");
  // a title `= x` that starts the document is the document title
  let doc = format!("= Doc\n\n{doc}");
  let want = format!("= Doc\n\n{want}");
  cx.case(format!("{be:?}\n{}", show(&doc, &files)));
  cx.nontrivial(n >= 2);
  let opt = opts(be, files);
  let (a, b) = (convert(&doc, &opt), convert(&want, &opt));
  if a.html() != b.html() {
    let (x, y) = differ(b.html(), a.html());
    fail!(format!("leveloffset {}", strip(&x)), "level offsets of includes\nexpected …{x}\nbut got  …{y}\n--- in one piece\n{want}");
  }
  ensure!(a.diags.is_empty(), "leveloffset diags", "diagnostics: {}", a.diags[0].plain_text());
  Ok(())
}

/// the lines kept by a tag filter, according to Asciidoctor's rules
fn select(lines: &[(Option<(bool, String)>, String)], spec: &[(String, bool)]) -> Vec<String> {
  let mut inc: Vec<(String, bool)> = vec![];
  for (k, v) in spec {
    match inc.iter_mut().find(|x| &x.0 == k) {
      Some(x) => x.1 = *v,
      None => inc.push((k.clone(), *v)),
    }
  }
  let take = |inc: &mut Vec<(String, bool)>, k: &str| inc.iter().position(|x| x.0 == k).map(|i| inc.remove(i).1);
  let mut wildcard = None;
  let base;
  if let Some(b) = take(&mut inc, "**") {
    base = b;
    if inc.iter().any(|x| x.0 == "*") {
      wildcard = take(&mut inc, "*");
    } else if !base && inc.first().is_some_and(|x| !x.1) {
      wildcard = Some(true);
    }
  } else if inc.iter().any(|x| x.0 == "*") {
    if inc[0].0 == "*" {
      wildcard = take(&mut inc, "*");
      base = !wildcard.unwrap();
    } else {
      base = false;
      wildcard = take(&mut inc, "*");
    }
  } else {
    base = !inc.iter().any(|x| x.1);
  }
  let mut sel = base;
  let mut active: Option<String> = None;
  let mut stack: Vec<(String, bool)> = vec![];
  let mut out = vec![];
  for (d, l) in lines {
    match d {
      Some((false, t)) => {
        if active.as_deref() == Some(t) {
          stack.pop();
          match stack.last() {
            Some((t, s)) => {
              active = Some(t.clone());
              sel = *s;
            }
            None => {
              active = None;
              sel = base;
            }
          }
        }
      }
      Some((true, t)) => {
        if let Some(x) = inc.iter().find(|x| &x.0 == t) {
          sel = x.1;
          active = Some(t.clone());
          stack.push((t.clone(), sel));
        } else if let Some(w) = wildcard {
          sel = if active.is_some() && !sel { false } else { w };
          active = Some(t.clone());
          stack.push((t.clone(), sel));
        }
      }
      None if sel => out.push(l.clone()),
      None => {}
    }
  }
  out
}

fn tags(s: &mut Src, cx: &mut Cx) -> Outcome {
  let names = ["a", "b", "c-1", "d"];
  let mut lines: Vec<(Option<(bool, String)>, String)> = vec![];
  let mut open: Vec<usize> = vec![];
  let n = s.range(2, 14);
  let (pre, post) = s.one(&[("// ", ""), ("# ", ""), ("<!-- ", " -->"), ("", ""), ("\t-- ", "")]);
  let dir = |start: bool, t: &str| (Some((start, t.to_string())), format!("{pre}{}::{t}[]{post}", if start { "tag" } else { "end" }));
  for i in 0..n {
    match s.weighted(&[55, 25, 20]) {
      0 => lines.push((None, format!("line{i}{}", s.pick(&["", " tag::a", " xtag::b[]", " tag::b[]x", " end::a[x]"])))),
      1 if open.len() < 4 => {
        let t = s.below(4);
        if !open.contains(&t) {
          open.push(t);
          lines.push(dir(true, names[t]));
        }
      }
      _ => {
        if let Some(t) = open.pop() {
          lines.push(dir(false, names[t]));
        }
      }
    }
  }
  while let Some(t) = open.pop() {
    lines.push(dir(false, names[t]));
  }
  // the filters of the AsciiDoc documentation
  let forms = [
    "t", "t", "t u", "t u v", "!t", "!t !u", "t !u", "t !*", "*", "!*", "**", "!**", "* !t", "!* t", "** !t", "** !t !u", "** !*", "!** t",
  ];
  let form = s.pick(&forms).to_string();
  let mut pool = names.to_vec();
  let mut spec: Vec<(String, bool)> = vec![];
  for f in form.split(' ') {
    let v = !f.starts_with('!');
    let f = f.trim_start_matches('!');
    spec.push((if f.starts_with('*') { f.to_string() } else { pool.remove(s.below(pool.len())).to_string() }, v));
  }
  let text: Vec<String> = spec.iter().map(|(k, v)| format!("{}{k}", if *v { "" } else { "!" })).collect();
  let attr = if spec.len() == 1 {
    format!("{}={}", s.one(&["tag", "tags"]), text[0])
  } else {
    let sep = s.one(&[";", ","]);
    if sep == ";" { format!("tags={}", text.join(";")) } else { format!("tags=\"{}\"", text.join(",")) }
  };
  let kept = select(&lines, &spec);
  let all: Vec<&String> = lines.iter().filter(|l| l.0.is_none()).map(|l| &l.1).collect();
  let mut files = BTreeMap::new();
  files.insert("/proj/f.adoc".to_string(), lines.iter().map(|l| l.1.clone()).collect::<Vec<_>>().join("\n").into_bytes());
  let doc = format!("----\nfirst\ninclude::f.adoc[{attr}]\nlast\n----\n");
  cx.case(show(&doc, &files));
  cx.nontrivial(!kept.is_empty() && kept.len() < all.len());
  let o = opts(Be::Html, files);
  let a = convert(&doc, &o);
  let want = format!("<pre>first\n{}last</pre>", kept.iter().map(|l| l.clone() + "\n").collect::<String>());
  ensure!(a.html().contains(&want), format!("tags {form}"), "lines selected by `{attr}`:\nexpected {want}\nbut got  {}", a.html());
  // a name that occurs in the file is not reported, one that does not is
  let missing = spec.iter().any(|(k, v)| *v && !k.contains('*') && !lines.iter().any(|l| l.0.as_ref().is_some_and(|d| &d.1 == k)));
  let blanket = spec.iter().any(|x| x.0 == "**" && x.1);
  ensure!(blanket || a.diags.is_empty() != missing, "tags diags", "missing tag: {missing}, but diagnostics are: {:?}", a.diags.iter().map(|d| d.message.clone()).collect::<Vec<_>>());
  Ok(())
}

fn indents(s: &mut Src, cx: &mut Cx) -> Outcome {
  let mut lines: Vec<(usize, String)> = vec![];
  for i in 0..s.range(1, 7) {
    if i > 0 && s.chance(15) {
      lines.push((0, String::new()));
    } else {
      lines.push((s.below(6), format!("l{i}")));
    }
  }
  while lines.last().is_some_and(|l| l.1.is_empty()) {
    lines.pop();
  }
  let min = lines.iter().filter(|l| !l.1.is_empty()).map(|l| l.0).min().unwrap_or(0);
  let indent = s.below(6);
  let mut files = BTreeMap::new();
  let nl = if s.chance(50) { "\n" } else { "" };
  let src: Vec<String> = lines.iter().map(|(k, l)| format!("{}{l}", " ".repeat(*k))).collect();
  files.insert("/proj/f.rb".to_string(), (src.join("\n") + nl).into_bytes());
  let doc = format!("----\ninclude::f.rb[indent={indent}]\n----\n");
  let want: Vec<String> = lines.iter().map(|(k, l)| if l.is_empty() { String::new() } else { format!("{}{l}", " ".repeat(k - min + indent)) }).collect();
  cx.case(show(&doc, &files));
  cx.nontrivial(lines.len() > 1 && indent != min);
  let a = convert(&doc, &opts(Be::Html, files));
  let want = format!("<pre>{}</pre>", want.join("\n"));
  ensure!(a.html().contains(&want), "indent", "indent={indent}:\nexpected {want}\nbut got  {}", a.html());
  Ok(())
}

/// the include depth is the nesting of includes, not their number
fn depth(s: &mut Src, cx: &mut Cx) -> Outcome {
  let max = s.below(5);
  let mut files = BTreeMap::new();
  let mut out = vec![];
  let mut want = String::new();
  let mut bad = 0;
  for c in 0..s.range(1, 4) {
    let n = s.below(7);
    for k in 1..=n {
      let next = if k < n { format!("include::c{c}_{}.adoc[]\n", k + 1) } else { String::new() };
      files.insert(format!("/proj/c{c}_{k}.adoc"), format!("t{c}_{k}\n\n{next}").into_bytes());
    }
    out.push(if n > 0 { format!("include::c{c}_1.adoc[]\n") } else { format!("p{c}\n") });
    if n == 0 {
      want.push_str(&format!("p{c} "));
    }
    for k in 1..=n.min(max) {
      want.push_str(&format!("t{c}_{k} "));
    }
    if n > max {
      want.push_str(&format!("include::c{c}_{}.adoc[] ", max + 1));
      bad += 1;
    }
  }
  let doc = out.join("\n");
  cx.case(format!("max-include-depth={max}\n{}", show(&doc, &files)));
  cx.nontrivial(bad > 0);
  let o = opts(Be::Html, files).attr("max-include-depth", &max.to_string());
  let a = convert(&doc, &o);
  let text = crate::html::parse(a.html()).map(|r| r.all(|e| e.tag == "p").iter().map(|p| p.text() + " ").collect::<String>()).unwrap_or_default();
  ensure!(text == want, "depth", "max-include-depth {max}:\nexpected {want}\nbut got  {text}");
  ensure!(a.diags.len() == bad, "depth diags", "expected {bad} diagnostics, got {:?}", a.diags.iter().map(|d| d.message.clone()).collect::<Vec<_>>());
  Ok(())
}
