//! C13: prefix-separated tables. C14: CSV, TSV and DSV tables.
use crate::conv::*;
use crate::engine::*;
use crate::html::{self, El, Node};
use crate::{ensure, fail};

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "C13",
      run: run_psv,
      quick: 220_000,
      thorough: 4_000_000,
      rule: "random grids tiled with spanning, repeated, aligned and styled cells, column specs, headers, footers, separators and table attributes, written in random layouts, against the grid; non-trivial: 4+ cells and a span, repeat, style, alignment or header",
      assumptions: &["the cells fill the grid", "columns are alike when cells span", "every row starts a cell"],
    },
    Prop {
      id: "C14",
      run: run_dsv,
      quick: 220_000,
      thorough: 4_000_000,
      rule: "random values written as CSV, TSV, DSV with a random separator, quoting and layout, against the values; non-trivial: 4+ cells and a quoted or escaped one",
      assumptions: &["every record has a value for each column"],
    },
  ]
}

#[derive(Clone, Debug, PartialEq)]
enum Content {
  Paras(Vec<String>),
  Lit(Vec<String>),
  Adoc(String),
}

#[derive(Clone, Debug)]
struct Cell {
  cs: usize,
  rs: usize,
  h: usize,
  v: usize,
  style: char,
  content: Content,
}

#[derive(Clone, Debug, Default, PartialEq)]
struct Col {
  h: Option<usize>,
  v: Option<usize>,
  /// 0: auto
  width: Option<usize>,
  pct: bool,
  style: Option<char>,
}

const H: [(&str, &str); 3] = [("<", "left"), ("^", "center"), (">", "right")];
const V: [(&str, &str); 3] = [("<", "top"), ("^", "middle"), (">", "bottom")];

impl Col {
  fn random(s: &mut Src, styles: bool) -> Col {
    Col {
      h: s.chance(25).then(|| s.below(3)),
      v: s.chance(20).then(|| s.below(3)),
      width: None,
      pct: false,
      style: (styles && s.chance(30)).then(|| s.one(&['a', 'd', 'e', 'h', 'l', 'm', 's'])),
    }
  }

  fn src(&self) -> String {
    let mut o = align(self.h, self.v);
    match self.width {
      Some(0) => o.push('~'),
      Some(n) => o.push_str(&format!("{n}{}", if self.pct { "%" } else { "" })),
      None => {}
    }
    o.extend(self.style);
    o
  }
}

fn align(h: Option<usize>, v: Option<usize>) -> String {
  let mut o = String::new();
  if let Some(h) = h {
    o.push_str(H[h].0);
  }
  if let Some(v) = v {
    o.push('.');
    o.push_str(V[v].0);
  }
  o
}

fn cols_attr(s: &mut Src, cols: &[Col]) -> String {
  if cols.iter().all(|c| *c == Col::default()) && s.chance(50) {
    return if s.chance(50) { format!("{}", cols.len()) } else { format!("{}*", cols.len()) };
  }
  let sep = s.pick(&[",", ",", ", ", ";"]);
  let mut out: Vec<String> = vec![];
  let mut i = 0;
  while i < cols.len() {
    let same = cols[i..].iter().take_while(|c| **c == cols[i]).count();
    if same > 1 && s.chance(60) {
      let k = s.range(2, same);
      out.push(format!("{k}*{}", cols[i].src()));
      i += k;
    } else {
      out.push(cols[i].src());
      i += 1;
    }
  }
  // digits alone are a number of columns, nothing at all is no attribute
  if out.len() == 1 && out[0].bytes().all(|b| b.is_ascii_digit()) {
    out[0].insert_str(0, "1*");
  }
  out.join(sep)
}

/// attributes of the table and what they have to show
#[derive(Default)]
struct Look {
  attrs: Vec<String>,
  header: Vec<String>,
  classes: Vec<String>,
  style: Option<String>,
  autowidth: bool,
}

fn look(s: &mut Src, opts: &mut Vec<&'static str>) -> Look {
  let mut l = Look::default();
  for (name, vals, dflt) in [("frame", &["all", "ends", "sides", "none"][..], Some("all")), ("grid", &["all", "rows", "cols", "none"], Some("all")), ("stripes", &["even", "odd", "all", "hover", "none"], None)] {
    let mut shown = dflt.map(|d| d.to_string());
    if s.chance(8) {
      let v = s.pick(vals);
      l.header.push(format!(":table-{name}: {v}"));
      shown = Some(v.to_string());
    }
    if s.chance(10) {
      let v = s.pick(vals);
      l.attrs.push(format!("{name}={v}"));
      shown = Some(v.to_string());
    }
    l.classes.extend(shown.map(|v| format!("{name}-{v}")));
  }
  let mut width = None;
  if s.chance(10) {
    let w = s.range(1, 100);
    l.attrs.push(if s.chance(50) { format!("width={w}%") } else { format!("width={w}") });
    width = Some(w).filter(|w| *w != 100);
  }
  if s.chance(10) {
    opts.push("autowidth");
    l.autowidth = true;
  }
  if let Some(w) = width {
    l.style = Some(format!("width: {w}%;"));
  } else {
    l.classes.push(if l.autowidth { "fit-content" } else { "stretch" }.into());
  }
  l
}

// ---------------------------------------------------------------- text

struct Text {
  n: usize,
  /// the separator, which needs a backslash
  sep: String,
}

impl Text {
  fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }

  /// source and rendering of a line
  fn line(&mut self, s: &mut Src, raw: bool) -> (String, String) {
    let (mut src, mut out) = (vec![], vec![]);
    for _ in 0..s.weighted(&[0, 50, 30, 20]) {
      let sep = self.sep.clone();
      let (a, b): (String, String) = match s.weighted(&[45, 12, 8, 10, 25]) {
        0 => {
          let w = self.word();
          (w.clone(), w)
        }
        1 if !raw => {
          let x = s.one(&[("*bo*", "bo"), ("_it_", "it"), ("`co`", "co"), ("{at}", "val")]);
          (x.0.into(), x.1.into())
        }
        2 => (format!("\\{sep}"), sep),
        3 => {
          let w = self.word();
          (format!("{w}\\{sep}z"), format!("{w}{sep}z"))
        }
        _ => {
          let x = s.pick(&["a", "e", "foo", "b-a", "v1.2", "3", "x.s", "(a)", "&", "<", "a,b", "1:2", "x;y", "q!", "5%", "2+2", "2.3", "c>", "m", "7d", "\"q\""]);
          (x.to_string(), x.to_string())
        }
      };
      // whatever holds the separator needs the backslash
      if !a.contains('\\') && a.contains(&self.sep) {
        continue;
      }
      src.push(a);
      out.push(b);
    }
    if src.is_empty() {
      let w = self.word();
      return (w.clone(), w);
    }
    (src.join(" "), out.join(" "))
  }

  fn adoc(&mut self, s: &mut Src) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for i in 0..s.range(1, 2) {
      if i > 0 {
        out.push(String::new());
      }
      let w = self.word();
      let k = if self.sep == "!" { s.below(5) } else { s.below(7) };
      let b: Vec<String> = match k {
        0 | 1 => vec![format!("{w} *bo* {{at}}")],
        2 => vec![format!("* {w}"), "* foo".into(), "** bar".into()],
        3 => vec!["----".into(), format!("{w} <1 & *x*"), String::new(), "  foo".into(), "----".into()],
        4 => vec!["====".into(), w, String::new(), "NOTE: foo".into(), "====".into()],
        5 => vec!["!===".into(), format!("!{w} !foo"), String::new(), "e!bar".into(), "!a".into(), "!===".into()],
        _ => vec!["[cols=\"1,1a\"]".into(), "!===".into(), format!("!{w}"), "!".into(), "* x".into(), "!===".into()],
      };
      // consecutive lists would be one
      if k == 2 {
        out.extend(b);
        break;
      }
      out.extend(b);
    }
    out
  }
}

/// could it be taken for a cell spec
fn spec_like(line: &str) -> bool {
  let last = line.rsplit([' ', '\t']).next().unwrap_or("");
  last.len() < 8 && last.chars().all(|c| c.is_ascii_digit() || "+*.<^>".contains(c) || c.is_ascii_lowercase()) && last.chars().filter(|c| c.is_ascii_lowercase()).count() <= 1
}

// ---------------------------------------------------------------- psv

fn run_psv(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = s.one(&[Be::Html, Be::Html5s]);
  let sep = s.one(&["|", "|", "|", "|", ";", "!", "¦", "%"]);
  let n = s.weighted(&[0, 15, 35, 30, 15, 5]);
  let rows = s.weighted(&[0, 15, 30, 30, 15, 10]);
  let explicit = s.chance(65);
  let mut opts: Vec<&str> = vec![];
  #[derive(PartialEq, Clone, Copy, Debug)]
  enum Head {
    None,
    Opt,
    Implicit,
    Never,
  }
  let head = match s.weighted(&[45, 20, 20, 15]) {
    1 => Head::Opt,
    2 if rows > 1 => Head::Implicit,
    3 => Head::Never,
    _ => Head::None,
  };
  match head {
    Head::Opt => opts.push("header"),
    Head::Never => opts.push("noheader"),
    _ => {}
  }
  let header = matches!(head, Head::Opt | Head::Implicit);
  let footer = rows > 1 + header as usize && s.chance(20);
  if footer {
    opts.push("footer");
  }
  let look = look(s, &mut opts);
  let spans = s.chance(40);
  let mut cols: Vec<Col> = vec![];
  if !explicit {
    cols = vec![Col::default(); n];
  } else if spans {
    cols = vec![Col::random(s, true); n];
  } else {
    for _ in 0..n {
      let c = if s.chance(30) && !cols.is_empty() { cols[0].clone() } else { Col::random(s, true) };
      cols.push(c);
    }
  }
  if explicit && s.chance(50) {
    let auto = s.chance(20);
    let pct = s.chance(20);
    for c in &mut cols {
      if s.chance(70) {
        c.width = Some(if auto && s.chance(50) { 0 } else { s.range(1, if auto { 15 } else { 40 }) });
        c.pct = pct && c.width != Some(0);
      }
    }
  }

  // tile the grid
  let mut taken = vec![vec![false; n]; rows];
  let mut anchors: Vec<(usize, usize, usize, usize)> = vec![];
  for r in 0..rows {
    for c in 0..n {
      if taken[r][c] {
        continue;
      }
      let (mut w, mut h) = (1, 1);
      if spans && s.chance(30) {
        while c + w < n && !taken[r][c + w] && s.chance(50) {
          w += 1;
        }
        let last = if r == 0 && header { 1 } else { rows - footer as usize };
        while r + h < last && s.chance(50) {
          // the first column of the next row has to stay free
          let free = (0..n).filter(|x| !taken[r + h][*x] && !(c..c + w).contains(x)).count();
          if free == 0 || (c..c + w).any(|x| taken[r + h][x]) {
            break;
          }
          h += 1;
        }
        if footer && r + 1 == rows {
          h = 1;
        }
      }
      for row in taken.iter_mut().skip(r).take(h) {
        row[c..c + w].fill(true);
      }
      anchors.push((r, c, w, h));
    }
  }

  // content and specs
  let mut t = Text { n: 0, sep: sep.to_string() };
  let mut grid: Vec<Vec<Cell>> = vec![vec![]; rows];
  // (row, specs and separator, lines)
  let mut items: Vec<(usize, String, Vec<String>)> = vec![];
  let mut i = 0;
  let mut fancy = header;
  let mut lone_style = false;
  while i < anchors.len() {
    let (r, c, w, h) = anchors[i];
    let in_head = r == 0 && header;
    let plain = |a: &(usize, usize, usize, usize)| a.2 == 1 && a.3 == 1;
    let mut run = anchors[i..].iter().take_while(|a| plain(a)).count();
    if header || !explicit {
      run = run.min(anchors[i..].iter().take_while(|a| a.0 == r).count());
    }
    let k = if run > 1 && s.chance(12) { s.range(2, run) } else { 1 };
    let (ch, cv) = (s.chance(15).then(|| s.below(3)), s.chance(12).then(|| s.below(3)));
    let cstyle = s.chance(20).then(|| s.one(&['a', 'd', 'e', 'h', 'l', 'm', 's']));
    let mut spec = String::new();
    if k > 1 {
      spec.push_str(&format!("{k}*"));
    } else if w > 1 && h > 1 {
      spec.push_str(&format!("{w}.{h}+"));
    } else if w > 1 {
      spec.push_str(&format!("{w}+"));
    } else if h > 1 {
      spec.push_str(&format!(".{h}+"));
    }
    spec.push_str(&align(ch, cv));
    spec.extend(cstyle);
    fancy |= !spec.is_empty();
    let style_of = |c: usize| if in_head { 'd' } else { cstyle.or(cols[c].style).unwrap_or('d') };
    let style = style_of(c);
    // the columns of a repeated cell have to agree on what it is made of
    let k = if (1..k).all(|j| {
      let (a, b) = (style_of(anchors[i + j].1), style);
      a == b || (!"al".contains(a) && !"al".contains(b))
    }) {
      k
    } else {
      spec = spec.replace(&format!("{k}*"), "");
      1
    };
    lone_style |= spec.len() == 1 && cstyle.is_some() && !["|", ";"].contains(&sep);
    let one_line = r == 0 && (!explicit || matches!(head, Head::Implicit));
    let last_in_row = anchors.get(i + k).is_none_or(|a| a.0 != r);
    let mut lines: Vec<String> = vec![];
    let content = match style {
      'a' if one_line => {
        let w = t.word();
        lines.push(w.clone());
        Content::Adoc(w)
      }
      'a' => {
        let b = t.adoc(s);
        // the separator may be used in the cell
        let b: Vec<String> = b.into_iter().map(|l| if !l.contains('!') && l.contains(sep) && sep != "!" { l.replace(sep, "") } else { l }).collect();
        if b[0].starts_with('w') && s.chance(50) {
          lines.extend(b.clone());
        } else {
          lines.push(String::new());
          lines.extend(b.clone());
        }
        Content::Adoc(b.join("\n"))
      }
      'l' => {
        let mut out = vec![];
        for j in 0..if one_line { 1 } else { s.weighted(&[0, 60, 30, 10]) } {
          let (a, b) = t.line(s, true);
          let ind = if j > 0 { s.pick(&["", "  ", "    "]) } else { "" };
          lines.push(format!("{ind}{a}"));
          out.push(format!("{ind}{b}"));
        }
        Content::Lit(out)
      }
      _ => {
        let mut paras = vec![];
        if s.chance(90) {
          for p in 0..if one_line || in_head { 1 } else { s.weighted(&[0, 80, 20]) } {
            if p > 0 {
              hard_break(s, &sep, &mut lines, paras.last_mut());
              lines.extend(vec![String::new(); s.weighted(&[0, 80, 15, 5])]);
            }
            let mut out = vec![];
            for _ in 0..if one_line && !(last_in_row && head != Head::Implicit) { 1 } else { s.weighted(&[0, 75, 25]) } {
              if !out.is_empty() {
                hard_break(s, &sep, &mut lines, out.last_mut());
              }
              let (a, b) = t.line(s, false);
              lines.push(a);
              out.push(b);
            }
            paras.push(out.join(" "));
          }
        } else {
          lines.push(String::new());
        }
        Content::Paras(paras)
      }
    };
    for a in &anchors[i..i + k] {
      grid[a.0].push(Cell {
        cs: a.2,
        rs: a.3,
        h: ch.or(cols[a.1].h).unwrap_or(0),
        v: cv.or(cols[a.1].v).unwrap_or(0),
        style: style_of(a.1),
        content: content.clone(),
      });
    }
    items.push((r, format!("{spec}{sep}"), lines));
    i += k;
  }

  // layout
  let mut body: Vec<String> = vec![];
  // a blank first line: no header
  let blank_first = head == Head::None && s.chance(15) && explicit;
  if blank_first || (matches!(head, Head::Opt | Head::Never) && explicit && s.chance(10)) {
    body.push(String::new());
  }
  let one_line_0 = !explicit || head == Head::Implicit;
  let mut prev_row = 0;
  for (j, (r, spec, lines)) in items.iter().enumerate() {
    let same_line = j > 0
      && if *r == 0 && one_line_0 {
        true
      } else if prev_row == 0 && *r > 0 && one_line_0 {
        false
      } else {
        *r == prev_row && s.chance(60) || s.chance(10)
      };
    if same_line {
      let last = body.last_mut().unwrap();
      // a spec needs the space, and what looks like a spec needs it not to be one
      let glued = last.is_empty() || (spec.starts_with(sep) && !spec_like(last) && s.chance(40));
      if !glued {
        last.push(' ');
      }
    } else {
      let blank = match head {
        _ if j == 0 => false,
        Head::Implicit if prev_row == 0 && *r > 0 => true,
        Head::None if !blank_first && body.len() == 1 => false,
        _ => s.chance(if *r == prev_row { 5 } else { 25 }),
      };
      if blank {
        body.push(String::new());
      }
      if body.len() > 1 && s.chance(4) {
        body.push(format!("// comment {sep} x"));
      }
      body.push(String::new());
    }
    prev_row = *r;
    let last = body.last_mut().unwrap();
    last.push_str(spec);
    if !lines[0].is_empty() && !lines[0].starts_with(' ') && s.chance(50) {
      last.push(' ');
    }
    last.push_str(&lines[0]);
    body.extend(lines[1..].iter().cloned());
  }
  // the second line of a table without header must not be blank
  if head == Head::None && !blank_first && body.len() > 1 && body[1].is_empty() {
    cx.discarded = true;
    return Ok(());
  }
  let mut attrs = look.attrs.clone();
  if explicit {
    let c = cols_attr(s, &cols);
    if c.trim().is_empty() {
      cx.discarded = true;
      return Ok(());
    }
    attrs.push(format!("cols=\"{c}\""));
  }
  if sep != "|" && !(sep == "!" && false) {
    attrs.push(if sep == ";" || sep == ":" || s.chance(50) { format!("separator=\"{sep}\"") } else { format!("separator={sep}") });
  }
  if s.chance(10) {
    attrs.push("format=psv".into());
  }
  shuffle(s, &mut attrs);
  let mut main = format!(":at: val\n{}\n", look.header.iter().map(|l| format!("{l}\n")).collect::<String>());
  main.push_str(&attr_line(s, &attrs, &opts));
  main.push_str("|===\n");
  body.iter().for_each(|l| main.push_str(&format!("{l}\n")));
  main.push_str("|===\n");
  cx.case(format!("{be:?}\n{main}"));
  fancy |= explicit && cols.iter().any(|c| c.h.is_some() || c.v.is_some() || c.style.is_some());
  cx.nontrivial(fancy && anchors.len() >= 4);
  let c = convert(&main, &Opts::default().be(be));
  check(be, &c, &grid, &cols, &look, header, footer).map_err(|mut f| {
    if lone_style {
      f.sig = format!("lone style before an embedded separator: {}", f.sig);
    }
    f
  })
}

fn shuffle(s: &mut Src, v: &mut [String]) {
  for i in (1..v.len()).rev() {
    let j = s.below(i + 1);
    v.swap(i, j);
  }
}

fn attr_line(s: &mut Src, attrs: &[String], opts: &[&str]) -> String {
  let mut parts: Vec<String> = attrs.to_vec();
  if !opts.is_empty() {
    if s.chance(60) {
      parts.insert(0, opts.iter().map(|o| format!("%{o}")).collect());
    } else {
      parts.push(format!("{}=\"{}\"", s.pick(&["options", "opts"]), opts.join(",")));
    }
  }
  if parts.is_empty() {
    return String::new();
  }
  if parts.len() > 1 && s.chance(20) {
    let k = s.range(1, parts.len() - 1);
    let b = parts.split_off(k);
    return format!("[{}]\n[{}]\n", parts.join(","), b.join(", "));
  }
  format!("[{}]\n", parts.join(if s.chance(70) { "," } else { ", " }))
}

fn norm(s: &str) -> String {
  s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Ends the line in a hard break, at times.
fn hard_break(s: &mut Src, sep: &str, lines: &mut [String], want: Option<&mut String>) {
  if let (Some(line), Some(want)) = (lines.last_mut(), want) {
    if s.chance(12) && !sep.contains('+') && !line.is_empty() && !line.ends_with('\\') {
      line.push_str(" +");
      want.push_str(" ⏎");
    }
  }
}

fn broken_text(kids: &[Node], out: &mut String) {
  for k in kids {
    match k {
      Node::Text(t) => out.push_str(t),
      Node::El(e) if e.tag == "br" => out.push_str(" ⏎ "),
      Node::El(e) => broken_text(&e.kids, out),
      _ => {}
    }
  }
}

fn check(be: Be, c: &Conv, grid: &[Vec<Cell>], cols: &[Col], look: &Look, header: bool, footer: bool) -> Outcome {
  let html = c.html();
  ensure!(c.diags.is_empty(), "reports", "{}", c.diags[0].plain_text());
  let root = html::parse(html).map_err(|e| Fail::new("html", e))?;
  let mut top = root.els();
  if be == Be::Html5s {
    ensure!(top.len() == 1 && top[0].is("div", "table-block"), "shape", "{html}");
    top = top[0].els();
  }
  ensure!(top.len() == 1 && top[0].tag == "table", "shape", "{html}");
  let table = top[0];
  let mut classes: Vec<&str> = table.classes();
  classes.retain(|c| *c != "tableblock");
  let fit = |c: &&str| be == Be::Html || !look.autowidth || !["stretch", "fit-content"].contains(c);
  classes.retain(fit);
  let (mut a, mut b) = (classes.clone(), look.classes.iter().map(|c| c.as_str()).filter(fit).collect::<Vec<_>>());
  a.sort();
  b.sort();
  ensure!(a == b, "classes", "classes {a:?}, not {b:?} in {html}");
  ensure!(table.attr("style") == look.style.as_deref(), "width", "style {:?}, not {:?} in {html}", table.attr("style"), look.style);

  // columns
  let parts = table.els();
  ensure!(parts.first().is_some_and(|e| e.tag == "colgroup"), "shape", "{html}");
  let got: Vec<Option<f64>> = parts[0].els().iter().map(|e| e.attr("style").map(|s| s.trim_start_matches("width:").trim_end_matches(';').trim().trim_end_matches('%').parse().unwrap_or(-1.0))).collect();
  let auto = cols.iter().any(|c| c.width == Some(0));
  let sum: usize = cols.iter().map(|c| c.width.unwrap_or(1)).sum();
  let want: Vec<Option<f64>> = cols
    .iter()
    .map(|c| {
      let w = c.width.unwrap_or(1);
      if look.autowidth || w == 0 {
        None
      } else if auto {
        Some(w as f64)
      } else {
        Some(w as f64 * 100.0 / sum as f64)
      }
    })
    .collect();
  let same = got.len() == want.len()
    && got.iter().zip(&want).all(|(g, w)| match (g, w) {
      (Some(g), Some(w)) => (g - w).abs() < 0.001,
      (None, None) => true,
      _ => false,
    });
  ensure!(same, "columns", "columns {got:?}, not {want:?} in {html}");

  // rows
  let mut want: Vec<&str> = vec![];
  for i in 0..grid.len() {
    let sec = if i == 0 && header {
      "thead"
    } else if i + 1 == grid.len() && footer {
      "tfoot"
    } else {
      "tbody"
    };
    want.push(sec);
  }
  let mut got = vec![];
  let mut trs: Vec<&El> = vec![];
  for sec in &parts[1..] {
    for tr in sec.els() {
      got.push(sec.tag.as_str());
      trs.push(tr);
    }
  }
  ensure!(got == want, "rows", "rows {got:?}, not {want:?} in {html}");
  let secs: Vec<&str> = parts[1..].iter().map(|e| e.tag.as_str()).collect();
  want.dedup();
  ensure!(secs == want, "sections", "sections {secs:?}, not {want:?} in {html}");
  for (i, (tr, row)) in trs.iter().zip(grid).enumerate() {
    let cells = tr.els();
    ensure!(cells.len() == row.len(), "cells", "{} cells in row {i}, not {} in {html}", cells.len(), row.len());
    for (j, (e, cell)) in cells.iter().zip(row).enumerate() {
      check_cell(be, look, e, cell, i == 0 && header).map_err(|f| Fail::new(f.sig, format!("row {i} cell {j}: {} in {html}", f.msg)))?;
    }
  }
  Ok(())
}

fn check_cell(be: Be, look: &Look, e: &El, cell: &Cell, head: bool) -> Outcome {
  let tag = if head || cell.style == 'h' { "th" } else { "td" };
  ensure!(e.tag == tag, "tag", "{} for {tag}", e.tag);
  let span = |k: &str| e.attr(k).map_or(1, |v| v.parse().unwrap_or(0));
  ensure!((span("colspan"), span("rowspan")) == (cell.cs, cell.rs), "spans", "{}x{}, not {}x{}", span("colspan"), span("rowspan"), cell.cs, cell.rs);
  let want = [format!("halign-{}", H[cell.h].1), format!("valign-{}", V[cell.v].1)];
  let mut classes = e.classes();
  classes.retain(|c| *c != "tableblock");
  ensure!(classes == want, "alignment", "{classes:?}, not {want:?}");
  match &cell.content {
    Content::Adoc(src) => {
      let c = convert(&format!(":at: val\n{}\n{src}\n", look.header.iter().map(|l| format!("{l}\n")).collect::<String>()), &Opts::default().be(be));
      let root = html::parse(c.html()).map_err(|e| Fail::new("html", e))?;
      let inner = match be {
        Be::Html => match e.els()[..] {
          [d] if d.is("div", "content") => &d.kids,
          _ => fail!("adoc cell", "{}", e.show()),
        },
        Be::Html5s => &e.kids,
      };
      ensure!(*inner == root.kids, "adoc", "{}, not {}", e.show(), root.show());
    }
    Content::Lit(lines) => {
      let pre = match e.els()[..] {
        [d] if d.is("div", "literal") && d.els().len() == 1 && d.els()[0].tag == "pre" => d.els()[0],
        _ => fail!("literal cell", "{}", e.show()),
      };
      ensure!(pre.text() == lines.join("\n"), "literal", "{:?}, not {:?}", pre.text(), lines.join("\n"));
    }
    Content::Paras(paras) => {
      let paras: Vec<String> = paras.iter().map(|p| norm(p)).collect();
      let wrap = match cell.style {
        'e' => Some("em"),
        'm' => Some("code"),
        's' => Some("strong"),
        _ => None,
      };
      let wrap = if head { None } else { wrap };
      let mut got: Vec<&El> = vec![];
      let whole;
      if head || (be == Be::Html5s && paras.len() < 2) {
        // the text alone
        if paras.is_empty() {
          ensure!(e.kids.is_empty(), "empty", "{}", e.show());
          return Ok(());
        }
        whole = El { tag: "p".into(), attrs: vec![], kids: e.kids.clone() };
        got.push(&whole);
      } else {
        ensure!(e.kids.iter().all(|k| matches!(k, Node::El(p) if p.tag == "p")), "paragraphs", "{}", e.show());
        got = e.els();
      }
      ensure!(got.len() == paras.len(), "paragraphs", "{} paragraphs, not {}: {}", got.len(), paras.len(), e.show());
      for (p, want) in got.iter().zip(&paras) {
        let mut text = String::new();
        broken_text(&p.kids, &mut text);
        ensure!(norm(&text) == *want, "text", "{:?}, not {want:?}", norm(&text));
        if let Some(w) = wrap {
          ensure!(p.kids.len() == 1 && p.els().len() == 1 && p.els()[0].tag == w, "style", "{} without {w}", p.show());
        } else {
          ensure!(!matches!(p.els()[..], [x] if p.kids.len() == 1 && x.text() != "bo" && x.text() != "it" && x.text() != "co"), "style", "{}", p.show());
        }
      }
    }
  }
  Ok(())
}

// ---------------------------------------------------------------- csv, tsv, dsv

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fmt {
  Csv,
  Tsv,
  Dsv,
}

/// source (unquoted, unescaped), rendering
fn value_line(s: &mut Src, t: &mut Text, fmt: Fmt, raw: bool) -> (String, String) {
  let (mut src, mut out) = (vec![], vec![]);
  for _ in 0..s.weighted(&[0, 55, 30, 15]) {
    let (a, b): (String, String) = match s.weighted(&[45, 12, 10, 8, 25]) {
      0 => {
        let w = t.word();
        (w.clone(), w)
      }
      1 if !raw => {
        let x = s.one(&[("*bo*", "bo"), ("_it_", "it"), ("`co`", "co"), ("{at}", "val"), ("{seps}", "a,b;c:d|e!\"f")]);
        (x.0.into(), x.1.into())
      }
      2 if t.sep != "\t" => (format!("\u{1}{}", t.sep), t.sep.clone()),
      3 if t.sep != "\t" => {
        let w = t.word();
        (format!("{w}\u{1}{}z", t.sep), format!("{w}{}z", t.sep))
      }
      _ => {
        let x = s.pick(&["a", "x.s", "(a)", "&", "<", "a,b", "1:2", "x;y", "q!", "5%", "2+2", "c>", "7d", "\"q\"", "6\"", "x|y", "C:\\d", "a\\b", "|", ",", ":", "e\u{e9}", "link:z", "a:: b", "2*|"]);
        // `&Zx;` is a character reference first
        let x = if t.sep == "Z" && x == "&" { "(b)" } else { x };
        (x.to_string(), x.to_string())
      }
    };
    if fmt == Fmt::Dsv && !a.contains('\u{1}') && a.contains(&t.sep) && a.starts_with('{') {
      continue;
    }
    let a = if a.starts_with('{') || a.contains('\u{1}') { a } else { a.replace(&t.sep, &format!("\u{1}{}", t.sep)) };
    src.push(a);
    out.push(b);
  }
  if src.is_empty() {
    let w = t.word();
    return (w.clone(), w);
  }
  (src.join(" "), out.join(" "))
}

fn run_dsv(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = s.one(&[Be::Html, Be::Html5s]);
  let fmt = s.one(&[Fmt::Csv, Fmt::Csv, Fmt::Tsv, Fmt::Dsv, Fmt::Dsv]);
  let mut attrs: Vec<String> = vec![];
  let mut delim = "|===";
  let mut sep = match fmt {
    Fmt::Csv => ",",
    Fmt::Tsv => "\t",
    Fmt::Dsv => ":",
  };
  let custom = fmt != Fmt::Tsv && s.chance(30);
  if custom {
    let more = ["-", "/", "=", "Z"];
    sep = if s.chance(30) { s.one(&more) } else if fmt == Fmt::Csv { s.pick(&[";", ":", "|", "!", "\u{a6}", "%"]) } else { s.pick(&[";", ",", "|", "!", "\u{a6}", "%"]) };
    attrs.push(format!("separator=\"{sep}\""));
  }
  if fmt != Fmt::Tsv && s.chance(40) {
    delim = if fmt == Fmt::Csv { ",===" } else { ":===" };
  } else {
    if s.chance(20) {
      delim = s.pick(&[",===", ":==="]);
    }
    attrs.push(format!("format={}", ["csv", "tsv", "dsv"][fmt as usize]));
  }
  let n = s.weighted(&[0, 10, 35, 35, 20]);
  let rows = s.weighted(&[0, 15, 30, 30, 15, 10]);
  let explicit = s.chance(60);
  let mut opts: Vec<&str> = vec![];
  let mut header = false;
  let mut implicit = false;
  let mut blank_after_first = false;
  match s.weighted(&[45, 20, 20, 15]) {
    1 => {
      opts.push("header");
      header = true;
      blank_after_first = s.chance(30);
    }
    2 if rows > 1 => {
      header = true;
      implicit = true;
      blank_after_first = true;
    }
    3 => {
      opts.push("noheader");
      blank_after_first = s.chance(30);
    }
    _ => {}
  }
  let footer = rows > 1 + header as usize && s.chance(20);
  if footer {
    opts.push("footer");
  }
  let look = look(s, &mut opts);
  let cols: Vec<Col> = (0..n).map(|_| if explicit { Col::random(s, true) } else { Col::default() }).collect();
  attrs.extend(look.attrs.iter().cloned());
  if explicit {
    let c = cols_attr(s, &cols);
    if c.trim().is_empty() {
      cx.discarded = true;
      return Ok(());
    }
    attrs.push(format!("cols=\"{c}\""));
  }
  shuffle(s, &mut attrs);

  let mut t = Text { n: 0, sep: sep.to_string() };
  let mut grid: Vec<Vec<Cell>> = vec![];
  let mut records: Vec<Vec<String>> = vec![];
  let mut special = false;
  for r in 0..rows {
    let mut row = vec![];
    let mut rec: Vec<String> = vec![];
    for (c, col) in cols.iter().enumerate() {
      let in_head = r == 0 && header;
      let style = if in_head { 'd' } else { col.style.unwrap_or('d') };
      let quotable = fmt != Fmt::Dsv;
      // a value of more lines is a paragraph of more lines
      let multi = quotable && (r > 0 || !implicit) && s.chance(15);
      let (src, content): (Vec<String>, Content) = match style {
        'a' => {
          let b = if multi {
            let w = t.word();
            match s.below(3) {
              0 => vec![format!("* {w}"), "* foo".into(), "** bar".into()],
              1 => vec!["----".into(), format!("{w} <1 & *x*"), String::new(), "  foo".into(), "----".into()],
              _ => vec![w, String::new(), "NOTE: foo *bo*".into()],
            }
          } else {
            let w = t.word();
            vec![s.one(&[w.clone(), format!("{w} *bo* {{at}}"), format!("* {w}")])]
          };
          if b.iter().any(|l| l.contains(sep)) {
            cx.discarded = true;
            return Ok(());
          }
          (b.clone(), Content::Adoc(b.join("\n")))
        }
        'l' => {
          let (mut a, mut b) = (vec![], vec![]);
          for j in 0..if multi { s.range(2, 3) } else { 1 } {
            let (x, y) = value_line(s, &mut t, fmt, true);
            let ind = if j > 0 { s.pick(&["", "  "]) } else { "" };
            a.push(format!("{ind}{x}"));
            b.push(format!("{ind}{y}"));
          }
          (a, Content::Lit(b))
        }
        _ if s.chance(12) => (vec![String::new()], Content::Paras(vec![])),
        _ => {
          let (mut a, mut paras) = (vec![], vec![]);
          for p in 0..if multi && !in_head { s.range(1, 2) } else { 1 } {
            if p > 0 {
              hard_break(s, &t.sep, &mut a, paras.last_mut());
              a.extend(vec![String::new(); s.weighted(&[0, 80, 15, 5])]);
            }
            let mut out: Vec<String> = vec![];
            for _ in 0..if multi { s.range(1, 2) } else { 1 } {
              if !out.is_empty() {
                hard_break(s, &t.sep, &mut a, out.last_mut());
              }
              let (x, y) = value_line(s, &mut t, fmt, false);
              a.push(x);
              out.push(y);
            }
            paras.push(out.join(" "));
          }
          (a, Content::Paras(paras))
        }
      };
      let text = src.join("\n");
      let empty = text.is_empty();
      let mut written = match fmt {
        Fmt::Dsv => {
          special |= text.contains('\u{1}');
          text.replace('\u{1}', "\\")
        }
        _ => {
          let need = text.contains(['\u{1}', '"', '\n']) || (empty && (n == 1 || (fmt == Fmt::Tsv && c + 1 == n)));
          if need || s.chance(20) {
            special = true;
            let q = text.replace('\u{1}', "").replace('"', "\"\"");
            let pad = |s: &mut Src| if s.chance(8) { " " } else { "" };
            format!("\"{}{q}{}\"", pad(s), pad(s))
          } else {
            text.clone()
          }
        }
      };
      // nothing but an empty line, or the end of it
      if written.is_empty() && n == 1 {
        cx.discarded = true;
        return Ok(());
      }
      if c > 0 && s.chance(15) {
        written.insert(0, ' ');
      }
      if c + 1 < n && s.chance(10) {
        written.push(' ');
      }
      rec.push(written);
      row.push(Cell { cs: 1, rs: 1, h: col.h.unwrap_or(0), v: col.v.unwrap_or(0), style, content });
    }
    grid.push(row);
    records.push(rec);
  }

  let mut body = String::new();
  let mut entry = false;
  for (r, rec) in records.iter().enumerate() {
    if r == 1 && blank_after_first {
      body.push('\n');
    } else if r > 1 && s.chance(12) {
      body.push('\n');
    }
    let mut line = rec[0].clone();
    for w in rec.windows(2) {
      // the columns are known, so a line may end at any value
      let wrap = explicit && r > 0 && !w[0].trim().is_empty() && !w[1].trim().is_empty() && s.chance(4);
      line.push_str(if wrap { "\n" } else { sep });
      line.push_str(&w[1]);
    }
    if line.lines().skip(1).any(|l| l.starts_with("//") || l.trim() == delim || l.starts_with([':', '[', ' ', '.'])) && !line.contains('"') {
      cx.discarded = true;
      return Ok(());
    }
    if line.starts_with("//") || line.trim() == delim || ["--", "====", "****"].contains(&line.trim()) || line.starts_with("[") {
      cx.discarded = true;
      return Ok(());
    }
    let b = line.as_bytes();
    if b[0] == b':' && b.len() > 1 && (b[1].is_ascii_alphanumeric() || b[1] == b'!' || b[1] == b'_') {
      if !s.chance(2) {
        cx.discarded = true;
        return Ok(());
      }
      entry = true;
    }
    body.push_str(&line);
    body.push('\n');
  }
  let mut main = format!(":at: val\n:seps: a,b;c:d|e!\"f\n{}\n", look.header.iter().map(|l| format!("{l}\n")).collect::<String>());
  main.push_str(&attr_line(s, &attrs, &opts));
  main.push_str(delim);
  main.push('\n');
  let mut files = std::collections::BTreeMap::new();
  if s.chance(20) {
    main.push_str("include::data.csv[]\n");
    files.insert("/proj/data.csv".to_string(), body.clone().into_bytes());
  } else {
    main.push_str(&body);
  }
  main.push_str(delim);
  main.push('\n');
  cx.case(format!("{be:?}\n{main}{}", if files.is_empty() { String::new() } else { format!("--- data.csv\n{body}") }));
  cx.nontrivial(special && n * rows >= 4);
  let c = convert(&main, &super::incl::opts(be, files));
  check(be, &c, &grid, &cols, &look, header, footer).map_err(|mut f| {
    if entry {
      f.sig = "a row taken for an attribute entry".into();
    }
    f
  })
}
