//! C11: callouts and callout lists.
use super::incl;
use crate::conv::*;
use crate::engine::*;
use crate::html::{self, El, Node};
use crate::{ensure, fail};
use std::collections::{BTreeMap, BTreeSet};

pub fn prop() -> Prop {
  Prop {
    id: "C11",
    run,
    quick: 220_000,
    thorough: 4_000_000,
    rule: "random documents of verbatim blocks of every form (in containers, list items, cells, included files) with callouts in every notation, things that only look like them, and callout lists complete, wrong or missing, against a model of the numbers, texts and reports; non-trivial: 2+ callouts and a callout list",
    assumptions: &["numbers up to 255", "automatic and written numbers are not mixed before one list", "includes resolved from memory"],
  }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Icons {
  Text,
  Font,
  Image,
}

struct Gen {
  n: usize,
  icons: Icons,
  be: Be,
  /// word -> lines
  blocks: Vec<(String, Vec<String>)>,
  /// word of the first item -> number and text of each
  lists: Vec<(String, Vec<(u32, String)>, [Option<String>; 3])>,
  /// word in the line -> report
  reports: Vec<(String, String)>,
  cur: BTreeSet<u32>,
  /// automatic numbers so far, `None` when numbers were written
  auto: Option<u32>,
  total: usize,
  files: BTreeMap<String, Vec<u8>>,
  in_file: bool,
}

type Lines = Vec<String>;

impl Gen {
  fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }

  fn shown(&self, n: u32, xml: bool) -> String {
    if xml && (self.icons == Icons::Text || self.be == Be::Html5s) { format!("<!--{{{n}}}-->") } else { format!("{{{n}}}") }
  }

  /// source and rendering
  fn code(&mut self, s: &mut Src, word: &str, subs: bool, plain: bool, comment: Option<&str>) -> (String, String) {
    let font = self.icons == Icons::Font && self.be == Be::Html;
    let mut text = String::new();
    if !plain && s.chance(15) {
      text.push_str(s.pick(&["  ", "\t", "    "]));
    }
    text.push_str(word);
    for _ in 0..s.weighted(&[40, 30, 20, 10]) {
      text.push_str(s.pick(&[
        " foo", " (bar)", " <3> x", " a<2>b", " <!--4--> y", " < 1 >", " <x>", " && 1", " // z", " # z", " <.> z", "  k", " <-1> z", " <1> <2> z", " <!--.--> z", "; k", " -- z", " {w} x", " <1", " \"q\"", "<<1> z",
      ]));
    }
    if !subs {
      if s.chance(50) {
        text.push_str(s.pick(&[" <1>", " // <2>", " <!--3-->", " <.>", "<4>", " <5> <6>"]));
      }
      return (text.clone(), text);
    }
    match s.weighted(&[35, 55, 10]) {
      0 => {
        // no callout at the end
        if s.chance(30) {
          text.push_str(s.pick(&[" <1", " 1>", " <>", " <1.>", " <a>", " <!--1->", " <!-- 1 -->", " <..>", " <1 >", " <1>.", " <1>,", " <2>x"]));
        }
        (text.clone(), text)
      }
      2 => {
        let x = s.pick(&["<1>", "<.>", "<22>"]);
        (format!("{text} \\{x}"), format!("{text} {x}"))
      }
      _ => {
        let xml = s.chance(15);
        let tuck = if xml || s.chance(50) {
          ""
        } else if let Some(c) = comment {
          c
        } else {
          s.pick(if plain { &["// ", "# ", "-- "] } else { &["// ", "# ", ";; ", "-- "] })
        };
        let mut src = text.clone();
        let mut want = text;
        src.push_str(if !tuck.is_empty() || s.chance(80) { " " } else { s.pick(&["", "  "]) });
        src.push_str(tuck);
        if !font {
          want.push(' ');
          want.push_str(tuck);
        }
        for i in 0..s.weighted(&[0, 75, 18, 7]) {
          let num = self.callout(s);
          let n = num.0;
          if i > 0 && s.chance(80) {
            src.push(' ');
          }
          let shown = match num.1 {
            true => ".".to_string(),
            false => n.to_string(),
          };
          src.push_str(&if xml { format!("<!--{shown}-->") } else { format!("<{shown}>") });
          want.push(' ');
          want.push_str(&self.shown(n, xml));
        }
        if s.chance(5) {
          src.push(' ');
        }
        (src, want)
      }
    }
  }

  fn callout(&mut self, s: &mut Src) -> (u32, bool) {
    self.total += 1;
    if self.auto.is_none() && self.cur.is_empty() && s.chance(25) {
      self.auto = Some(0);
    }
    let r = match self.auto {
      Some(n) => {
        self.auto = Some(n + 1);
        (n + 1, true)
      }
      None => {
        let max = self.cur.iter().max().copied().unwrap_or(0);
        let n = match s.weighted(&[70, 15, 10, 5]) {
          0 => max + 1,
          1 => max.max(1),
          2 => 1 + s.below(6) as u32,
          _ => s.one(&[9, 10, 19, 99, 100, 128, 254]),
        };
        (n.min(255), false)
      }
    };
    self.cur.insert(r.0);
    r
  }

  fn block(&mut self, s: &mut Src, open: bool, list: bool) -> Lines {
    // the item after an indented paragraph is part of it
    let kind = [s.below(if open { 7 } else { 8 })].map(|k| if list && k == 5 { 0 } else { k })[0];
    let comment = if kind == 6 { Some(s.pick(&["% ", "' ", "-- ", "; "])) } else { None };
    let mut subs = true;
    let mut head = match kind {
      0 | 1 => s.pick(&["", "", "[source]", "[source,ruby]", "[listing]"]).to_string(),
      2 => s.pick(&["", "[source,ruby]", "[literal]"]).to_string(),
      4 => s.pick(&["[source]", "[source,c]", "[listing]", "[literal]"]).to_string(),
      6 => format!("[source,x,line-comment={}]", comment.unwrap().trim_end()),
      _ => String::new(),
    };
    if s.chance(15) && kind < 3 {
      let (v, cs) = s.one(&[("-callouts", false), ("specialchars", false), ("+attributes", true), ("verbatim", true), ("specialcharacters,callouts", true), ("+macros", true)]);
      subs = cs;
      let v = format!("subs=\"{v}\"");
      head = if head.is_empty() { format!("[{v}]") } else { format!("{},{v}]", &head[..head.len() - 1]) };
    }
    let mut out = vec![];
    if !head.is_empty() {
      out.push(head);
    }
    if s.chance(10) {
      out.push(".Title".into());
    }
    let delim = match kind {
      0 | 1 | 6 => "----",
      2 => "....",
      3 => "```",
      7 => "--",
      _ => "",
    };
    // `[source]` over an open block
    if kind == 7 {
      out.insert(0, s.pick(&["[source]", "[listing]", "[literal]"]).to_string());
    }
    if !delim.is_empty() {
      out.push(delim.into());
    }
    let plain = delim.is_empty();
    let first = self.word();
    let (mut src, mut want): (Lines, Lines) = (vec![], vec![]);
    for i in 0..s.range(1, 4) {
      let w = if i == 0 { first.clone() } else { self.word() };
      if i > 0 && !plain && s.chance(10) {
        src.push(String::new());
        want.push(String::new());
      }
      if i > 0 && !plain && subs && s.chance(10) {
        let n = self.callout(s);
        src.push(if n.1 { "<.>".into() } else { format!("<{}>", n.0) });
        want.push(format!(" {}", self.shown(n.0, false)));
        continue;
      }
      let (a, b) = self.code(s, &w, subs, plain, comment);
      src.push(a);
      want.push(b);
    }
    if kind == 5 {
      src.iter_mut().for_each(|l| l.insert(0, ' '));
    }
    if !plain && !self.in_file && s.chance(12) {
      let name = format!("c{}.rb", self.n);
      let cut = s.below(src.len());
      let rest = src.split_off(cut);
      let mut text = rest.join("\n");
      if s.chance(70) || text.ends_with('\n') || text.is_empty() {
        text.push('\n');
      }
      self.files.insert(format!("/proj/{name}"), text.into_bytes());
      src.push(format!("include::{name}[]"));
    }
    out.extend(src);
    if !delim.is_empty() {
      out.push(delim.into());
    }
    self.blocks.push((first, want));
    out
  }

  fn list(&mut self, s: &mut Src, nested: bool) -> Lines {
    let mut out = vec![];
    let mut items = vec![];
    let mut expected = 1u32;
    let mut nums: Vec<u32> = self.cur.iter().copied().collect();
    if nums.is_empty() || s.chance(10) {
      // wrong on purpose
      let len = s.range(1, 3);
      nums = (0..len).map(|_| 1 + s.below(5) as u32).collect();
    } else if s.chance(10) {
      nums.push(nums.last().unwrap().saturating_add(1).min(255));
    } else if s.chance(7) {
      nums.remove(s.below(nums.len()));
    }
    if nums.is_empty() {
      nums.push(1);
    }
    let autos = s.chance(30);
    let mut meta = [None, None, None];
    if s.chance(25) {
      let n = self.n;
      if s.chance(60) {
        meta[0] = Some(format!("Ti{n} tle"));
        out.push(format!(".Ti{n} *tle*"));
      }
      if s.chance(40) {
        meta[1] = Some(format!("id{n}"));
        meta[2] = s.chance(50).then(|| format!("role{n}"));
        out.push(format!("[#id{n}{}]", meta[2].as_ref().map(|r| format!(".{r}")).unwrap_or_default()));
      } else if s.chance(50) {
        meta[1] = Some(format!("id{n}"));
        out.push(format!("[[id{n}]]"));
      }
    }
    let first = format!("w{}", self.n + 1);
    let len = nums.len();
    for (i, n) in nums.into_iter().enumerate() {
      let w = self.word();
      let auto = autos && s.chance(90);
      let n = if auto { expected } else { n };
      if n != expected {
        self.reports.push((w.clone(), format!("Unexpected callout number, expected `<{expected}>`")));
      }
      if !self.cur.contains(&n) {
        self.reports.push((w.clone(), format!("No callout found for number `{n}`")));
      }
      expected = (n + 1).min(255);
      let tail = s.one(&[("", ""), (" foo", " foo"), (" *bo*", " bo"), (" `<1>`", " <1>"), (" a <2>", " a <2>"), (" http://x.org[l]", " l")]);
      out.push(if auto { format!("<.> {w}{}", tail.0) } else { format!("<{n}>{}{w}{}", s.pick(&[" ", " ", "  "]), tail.0) });
      let mut text = format!("{w}{}", tail.1);
      match s.weighted(&[60, 12, 12, 8, 8]) {
        1 => {
          let w = self.word();
          out.push(w.clone());
          text.push_str(&format!(" {w}"));
        }
        2 => {
          let w = self.word();
          out.extend(["+".into(), w.clone()]);
          text.push_str(&format!(" {w}"));
        }
        3 if !nested => {
          let w = self.word();
          out.push(format!("* {w}"));
          text.push_str(&format!(" {w}"));
        }
        4 if i + 1 < len => out.push(String::new()),
        _ => {}
      }
      items.push((n, text));
    }
    self.lists.push((first, items, meta));
    self.cur.clear();
    self.auto = None;
    out
  }

  /// something with blocks inside
  fn part(&mut self, s: &mut Src, depth: usize, cell: bool, open: bool) -> Lines {
    let k = s.weighted(&[45, 25, 8, if depth < 2 { 10 } else { 0 }, if depth < 2 { 8 } else { 0 }, if cell { 0 } else { 8 }]);
    let mut out = vec![];
    match k {
      0 => {
        out.extend(self.block(s, open, false));
        if s.chance(50) {
          let directly = !out.last().unwrap().starts_with('w') && ["----", "....", "```", "--"].contains(&&**out.last().unwrap());
          if !directly || s.chance(50) {
            out.push(String::new());
          }
          if s.chance(15) {
            if directly {
              out.push(String::new());
            }
            out.push(self.word());
            out.push(String::new());
          }
          out.extend(self.list(s, false));
          out.push(String::new());
          out.push(if cell { self.word() } else { "// -".into() });
        }
      }
      1 => {
        out.extend(self.list(s, false));
        out.push(String::new());
          out.push(if cell { self.word() } else { "// -".into() });
      }
      2 => {
        let w = self.word();
        out.push(format!("{w} <1> <.> <!--1--> // <3>"));
      }
      3 => {
        let d = ["====", "****", "____", "--"][if depth == 0 { s.below(4) } else { 3 }];
        let d = if depth == 1 && d == "--" { "=====" } else { d };
        out.push(d.into());
        for _ in 0..s.range(1, 3) {
          out.extend(self.part(s, depth + 1, cell, open || d == "--"));
          out.push(String::new());
        }
        out.push(d.into());
      }
      4 => {
        for i in 0..s.range(1, 2) {
          let w = self.word();
          let dl = i == 0 && s.chance(30);
          out.push(if dl { format!("{w}:: {w}") } else { format!("* {w}") });
          if s.chance(80) {
            for _ in 0..s.range(1, 2) {
              out.push("+".into());
              out.extend(self.block(s, open, true));
            }
            if s.chance(60) {
              out.push("+".into());
              out.extend(self.list(s, true));
              break;
            }
          }
          if dl {
            break;
          }
        }
        out.push(String::new());
          out.push(if cell { self.word() } else { "// -".into() });
      }
      _ => {
        let mut cols = vec!["a"; s.range(1, 2)];
        if s.chance(30) {
          cols.push("m");
        }
        out.extend([format!("[cols=\"{}\"]", cols.join(",")), "|===".into(), String::new()]);
        for _ in 0..s.range(1, 2) {
          for c in &cols {
            if *c == "m" {
              let first = self.word();
              out.push(format!("|{first}"));
              // no callouts here
              continue;
            }
            let w = self.word();
            out.push(format!("|{w}"));
            if s.chance(70) {
              out.push(String::new());
              for _ in 0..s.range(1, 2) {
                out.extend(self.part(s, 2, true, false));
                out.push(String::new());
              }
            }
          }
        }
        out.push("|===".into());
      }
    }
    out
  }
}

fn squash(t: &str) -> String {
  let mut out = String::new();
  for c in t.chars() {
    if c == '{' {
      while out.ends_with(' ') {
        out.pop();
      }
    }
    out.push(c);
  }
  out.trim_end().to_string()
}

fn squash_xml(t: &str) -> String {
  squash(&t.replace("<!--{", "{!").replace("}-->", "!}"))
}

fn code_text(e: &El, out: &mut String) {
  let mut skip = false;
  for k in &e.kids {
    match k {
      Node::Text(t) => out.push_str(t),
      Node::El(c) if skip => {
        skip = false;
        if c.tag != "b" {
          out.push_str("?!");
        }
      }
      Node::El(c) if c.is("b", "conum") => out.push_str(&format!("{{{}}}", c.text().trim_start_matches('(').trim_end_matches(')'))),
      Node::El(c) if c.is("i", "conum") => {
        skip = true;
        out.push_str(&format!("{{{}}}", c.attr("data-value").unwrap_or("?")))
      }
      Node::El(c) if c.tag == "img" => {
        let alt = c.attr("alt").unwrap_or("?");
        if c.attr("src").is_some_and(|s| s.ends_with(&format!("/callouts/{alt}.png"))) {
          out.push_str(&format!("{{{alt}}}"))
        } else {
          out.push_str("?img")
        }
      }
      Node::El(c) => code_text(c, out),
    }
  }
}

fn norm(s: &str) -> String {
  s.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn run(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = s.one(&[Be::Html, Be::Html5s]);
  let icons = [Icons::Text, Icons::Font, Icons::Image][s.weighted(&[70, 20, 10])];
  let mut g = Gen { n: 0, icons, be, blocks: vec![], lists: vec![], reports: vec![], cur: BTreeSet::new(), auto: None, total: 0, files: BTreeMap::new(), in_file: false };
  let mut main = String::new();
  if icons == Icons::Font {
    main.push_str(":icons: font\n\n");
  } else if icons == Icons::Image {
    main.push_str(":icons:\n\n");
  }
  let mut level = 0;
  for i in 0..s.range(1, 5) {
    if s.chance(15) {
      level = s.range(1, (level + 1).min(4));
      main.push_str(&format!("{} {}\n\n", "=".repeat(level + 1), g.word()));
    }
    g.in_file = s.chance(15);
    let lines = g.part(s, 0, false, false);
    let text: String = lines.iter().map(|l| format!("{l}\n")).collect();
    if g.in_file {
      main.push_str(&format!("include::f{i}.adoc[]\n\n"));
      g.files.insert(format!("/proj/f{i}.adoc"), text.into_bytes());
    } else {
      main.push_str(&text);
      main.push('\n');
    }
  }
  let mut shown = format!("{be:?} {icons:?}\n{main}");
  for (k, v) in &g.files {
    shown.push_str(&format!("\n--- {k}\n{}", String::from_utf8_lossy(v)));
  }
  cx.case(shown);
  cx.nontrivial(g.total >= 2 && !g.lists.is_empty());
  let c = convert(&main, &incl::opts(be, g.files.clone()));
  let html = c.html();
  let root = html::parse(html).map_err(|e| Fail::new("html", e))?;

  // blocks
  let mut pres = vec![];
  root.walk(&mut |e| {
    if e.tag == "pre" {
      let mut t = String::new();
      code_text(e, &mut t);
      pres.push(t);
    }
  });
  ensure!(pres.len() == g.blocks.len(), "blocks", "{} verbatim blocks, not {} in {html}", pres.len(), g.blocks.len());
  for (got, (w, want)) in pres.iter().zip(&g.blocks) {
    let got: Vec<String> = got.split('\n').map(squash_xml).collect();
    let want: Vec<String> = want.iter().map(|l| squash_xml(l)).collect();
    ensure!(got == want, "block", "block {w}: {got:?}, not {want:?}");
  }
  let mut conums = 0;
  root.walk(&mut |e| {
    if e.tag != "td" && (e.is("b", "conum") || e.is("i", "conum") || (e.tag == "img" && e.attr("src").is_some_and(|s| s.contains("/callouts/")))) {
      conums += 1;
    }
  });
  let in_lists: usize = if be == Be::Html && icons != Icons::Text { g.lists.iter().map(|l| l.1.len()).sum() } else { 0 };
  ensure!(conums == g.total + in_lists, "callouts", "{conums} callouts, not {} in {html}", g.total + in_lists);

  // lists
  let mut lists = vec![];
  root.walk(&mut |e| {
    if e.is("div", "colist") || e.is("ol", "callout-list") {
      lists.push(e);
    }
  });
  ensure!(lists.len() == g.lists.len(), "lists", "{} callout lists, not {} in {html}", lists.len(), g.lists.len());
  for (l, (w, want, [title, id, role])) in lists.iter().zip(&g.lists) {
    let mut got = vec![];
    ensure!(l.id() == id.as_deref(), "list id", "list {w}: id {:?}, not {id:?} in {html}", l.id());
    let class = l.attr("class").unwrap_or("").split(' ').any(|c| c.starts_with("role"));
    ensure!(class == role.is_some() && role.as_ref().is_none_or(|r| l.has_class(r)), "list role", "list {w}: classes {:?}, not {role:?} in {html}", l.attr("class"));
    if be == Be::Html {
      let mut inner = l.els();
      if let Some(t) = title {
        ensure!(inner.first().is_some_and(|e| e.is("div", "title") && norm(&e.text()) == *t), "list title", "list {w}: title {t:?} missing in {html}");
        inner.remove(0);
      }
      ensure!(inner.len() == 1, "list shape", "list {w}: {}", l.show());
      let inner = inner.first().copied();
      match (inner, icons) {
        (Some(ol), Icons::Text) if ol.tag == "ol" => {
          for (li, (n, _)) in ol.els().iter().zip(want) {
            got.push((*n, norm(&li.text())));
          }
          ensure!(ol.els().len() == want.len(), "items", "{} items, not {} in list {w} in {html}", ol.els().len(), want.len());
        }
        (Some(t), Icons::Font | Icons::Image) if t.tag == "table" => {
          for tr in t.els() {
            let tds = tr.els();
            ensure!(tds.len() == 2, "cells", "{} in list {w}", tr.show());
            let mut num = String::new();
            code_text(tds[0], &mut num);
            let num = num.trim_start_matches('{').trim_end_matches('}').parse().unwrap_or(u32::MAX);
            got.push((num, norm(&tds[1].text())));
          }
        }
        _ => fail!("list shape", "list {w}: {}", l.show()),
      }
    } else {
      for (li, (n, _)) in l.els().iter().zip(want) {
        got.push((*n, norm(&li.text())));
      }
      ensure!(l.els().len() == want.len(), "items", "{} items, not {} in list {w} in {html}", l.els().len(), want.len());
    }
    let squeeze = |t: &str| t.replace(' ', "");
    let got: Vec<_> = got.iter().map(|(n, t)| (*n, squeeze(t))).collect();
    let want: Vec<_> = want.iter().map(|(n, t)| (*n, squeeze(t))).collect();
    ensure!(got == want, "list", "list {w}: {got:?}, not {want:?} in {html}");
  }

  // reports
  let mut want = vec![];
  for (w, msg) in &g.reports {
    let has = |t: &str| t.split(|c: char| !c.is_alphanumeric()).any(|x| x == w);
    let mut at = None;
    for (i, l) in main.lines().enumerate() {
      if has(l) {
        at = Some((String::from("main.adoc"), i as u32 + 1));
      }
    }
    for (k, v) in &g.files {
      for (i, l) in String::from_utf8_lossy(v).lines().enumerate() {
        if has(l) {
          at = Some((k.clone().trim_start_matches("/proj/").to_string(), i as u32 + 1));
        }
      }
    }
    let (f, n) = at.expect("line of the report");
    want.push((f, n, msg.clone()));
  }
  let got: Vec<(String, u32, String)> = c.diags.iter().map(|d| (d.source_file.file_name().to_string(), d.line_num, d.message.clone())).collect();
  ensure!(got == want, "reports", "reported {got:?}, not {want:?}");
  for (d, (w, _)) in c.diags.iter().zip(&g.reports) {
    ensure!(d.line.contains(w.as_str()) && d.underline_start == 0 && d.line[..d.underline_width as usize].ends_with('>'), "report line", "{:?} {}+{} is not the item of {w}", d.line, d.underline_start, d.underline_width);
  }
  Ok(())
}
