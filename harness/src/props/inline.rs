//! C15: inline markup nests, escapes and replaces exactly as written.
use crate::conv::*;
use crate::engine::*;
use crate::html::{self, El, Node};
use crate::{ensure, fail};

pub fn inline() -> Prop {
  Prop {
    id: "C15",
    run: run_inline,
    quick: 400_000,
    thorough: 10_000_000,
    rule: "random trees of inline markup (constrained and unconstrained formatting with roles and ids, quotes, replacements, passthroughs, escapes, links, hard breaks, literal punctuation) put into one of twelve positions; non-trivial: 3+ inline constructs",
    assumptions: &["unambiguous spellings only: a formatting mark never stands where two readings are possible"],
  }
}

/// Canonical form of inline content.
pub fn canon(nodes: &[Node]) -> String {
  let mut s = String::new();
  canon_into(nodes, &mut s);
  s
}

fn canon_into(nodes: &[Node], s: &mut String) {
  for n in nodes {
    match n {
      Node::Text(t) => s.push_str(&t.replace('\n', " ")),
      Node::El(e) => {
        s.push('⟨');
        s.push_str(&e.tag);
        let mut at: Vec<_> = e.attrs.iter().collect();
        at.sort();
        for (k, v) in at {
          s.push_str(&format!(" {k}={v:?}"));
        }
        s.push('⟩');
        canon_into(&e.kids, s);
        if !html::is_void(&e.tag) {
          s.push_str("⟨/⟩");
        }
      }
    }
  }
}

pub fn t(x: impl Into<String>) -> Node {
  Node::Text(x.into())
}
pub fn el(tag: &str, attrs: &[(&str, &str)], kids: Vec<Node>) -> Node {
  Node::El(El { tag: tag.into(), attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(), kids })
}

pub struct I<'a> {
  pub s: &'a mut Src,
  pub n: usize,
  pub constructs: usize,
  /// newlines (and hard breaks) are allowed
  pub multiline: bool,
  /// the whole text may span lines
  pub lines: bool,
  /// `|`, `::`-like text allowed etc.
  pub links: bool,
  pub be: Be,
  pub ids: bool,
}

#[derive(Clone, Default)]
pub struct In {
  marks: Vec<char>,
  depth: usize,
  in_link: bool,
  in_quotes: bool,
}

type Out = (String, Vec<Node>);

const MARKS: [(char, &str); 4] = [('*', "strong"), ('_', "em"), ('`', "code"), ('#', "mark")];

impl<'a> I<'a> {
  pub fn new(s: &'a mut Src, be: Be) -> Self {
    I { s, n: 0, constructs: 0, multiline: true, lines: true, links: true, be, ids: true }
  }
  fn w(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }

  pub fn seq(&mut self, cx: &In, lo: usize, hi: usize) -> Out {
    let n = self.s.range(lo, hi);
    let (mut src, mut out) = (String::new(), vec![]);
    for i in 0..n {
      let plain_next = i == 0 || i + 1 == n;
      if i > 0 {
        let brk = self.multiline && self.s.chance(10);
        if brk {
          if self.s.chance(40) && cx.depth == 0 {
            src.push_str(" +\n");
            out.push(el("br", &[], vec![]));
            out.push(t(" "));
            self.constructs += 1;
          } else {
            src.push('\n');
            out.push(t(" "));
          }
          let w = self.w();
          src.push_str(&w);
          out.push(t(w));
          continue;
        }
        src.push(' ');
        out.push(t(" "));
      }
      let (a, b) = self.item(cx, plain_next);
      src.push_str(&a);
      out.extend(b);
    }
    (src, out)
  }

  fn item(&mut self, cx: &In, edge: bool) -> Out {
    let deep = cx.depth >= 3;
    match self.s.weighted(&[30, if deep { 0 } else { 24 }, if deep { 0 } else { 12 }, 10, 14, 6, if deep || cx.in_quotes || cx.in_link || cx.marks.contains(&'`') { 0 } else { 6 }, 8, if self.links && !cx.in_link && !deep { 8 } else { 0 }, 6]) {
      0 => {
        let w = self.w();
        (w.clone(), vec![t(w)])
      }
      1 => self.constrained(cx, edge),
      2 => self.unconstrained(cx),
      3 => {
        // sub / superscript
        self.constructs += 1;
        let (c, tag) = self.s.one(&[('~', "sub"), ('^', "sup")]);
        if cx.marks.contains(&c) {
          let w = self.w();
          return (w.clone(), vec![t(w)]);
        }
        let (w, x) = (self.w(), self.w());
        let tail = if self.s.chance(30) { self.w() } else { String::new() };
        let (al, at) = self.attrs(c, cx);
        // formatting without spaces may be inside
        let inner = if !deep && self.s.chance(25) {
          let mut k = cx.clone();
          k.depth += 3;
          k.marks.push(c);
          self.unconstrained(&k)
        } else {
          (x.clone(), vec![t(x)])
        };
        if inner.0.contains(' ') || inner.0.contains('\n') {
          return inner;
        }
        let e = self.mark_el(c, tag, &at, inner.1);
        (format!("{w}{al}{c}{}{c}{tail}", inner.0), vec![t(w), e, t(tail)])
      }
      4 => self.special(cx, edge),
      5 => self.escaped(cx),
      6 => {
        // curly quotes
        self.constructs += 1;
        let mut c = cx.clone();
        c.depth += 1;
        c.in_quotes = true;
        c.marks.push('`');
        let ml = std::mem::replace(&mut self.multiline, false);
        let (a, b) = self.seq(&c, 1, 3);
        self.multiline = ml;
        let (q, l, r) = if self.s.chance(60) { ('"', "\u{201c}", "\u{201d}") } else { ('\'', "\u{2018}", "\u{2019}") };
        let mut k = vec![t(l)];
        k.extend(b);
        k.push(t(r));
        (format!("{q}`{a}`{q}"), k)
      }
      7 => self.pass(cx, edge),
      8 => {
        // link with text
        self.constructs += 1;
        let mut c = cx.clone();
        c.depth += 1;
        c.in_link = true;
        let ml = std::mem::replace(&mut self.multiline, false);
        let (a, b) = self.seq(&c, 1, 3);
        self.multiline = ml;
        let u = self.w();
        match self.s.below(if cx.depth == 0 { 3 } else { 2 }) {
          0 => (format!("https://x.org/{u}[{a}]"), vec![el("a", &[("href", &format!("https://x.org/{u}"))], b)]),
          1 => (format!("link:{u}.html[{a}]"), vec![el("a", &[("href", &format!("{u}.html"))], b)]),
          _ => (format!("https://x.org/{u}"), vec![el("a", &[("href", &format!("https://x.org/{u}")), ("class", "bare")], vec![t(format!("https://x.org/{u}"))])]),
        }
      }
      _ => {
        // anchor
        self.constructs += 1;
        if !self.ids || cx.in_link {
          let w = self.w();
          return (w.clone(), vec![t(w)]);
        }
        let (id, w) = (self.w(), self.w());
        let id = format!("i{id}");
        let a = if self.be == Be::Html { el("a", &[("id", &id)], vec![]) } else { el("a", &[("id", &id), ("aria-hidden", "true")], vec![]) };
        match self.s.below(2) {
          0 => (format!("[[{id}]]{w}"), vec![a, t(w)]),
          _ => (format!("anchor:{id}[]{w}"), vec![a, t(w)]),
        }
      }
    }
  }

  fn attrs(&mut self, mark: char, cx: &In) -> (String, Vec<(String, String)>) {
    // `]` would end the text of a link
    if cx.in_link || !self.s.chance(35) {
      return (String::new(), vec![]);
    }
    self.constructs += 1;
    let r = self.w();
    let r2 = self.w();
    let id = format!("i{}", self.n);
    let with_id = self.ids && !cx.marks.contains(&'#');
    match self.s.below(5) {
      0 if mark != '`' => (format!("[{r}]"), vec![("class".into(), r)]),
      1 => (format!("[.{r}.{r2}]"), vec![("class".into(), format!("{r} {r2}"))]),
      2 if with_id => (format!("[#{id}]"), vec![("id".into(), id)]),
      3 if with_id => (format!("[#{id}.{r}]"), vec![("id".into(), id), ("class".into(), r)]),
      4 if with_id => (format!("[.{r}#{id}]"), vec![("id".into(), id), ("class".into(), r)]),
      _ => (format!("[.{r}]"), vec![("class".into(), r)]),
    }
  }

  fn mark_el(&mut self, mark: char, tag: &str, at: &[(String, String)], kids: Vec<Node>) -> Node {
    // highlighted text with a role is a span
    let tag = if mark == '#' && !at.is_empty() { "span" } else { tag };
    let a: Vec<(&str, &str)> = at.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    el(tag, &a, kids)
  }

  fn constrained(&mut self, cx: &In, edge: bool) -> Out {
    let free: Vec<(char, &str)> = MARKS.iter().filter(|m| !cx.marks.contains(&m.0)).copied().collect();
    if free.is_empty() {
      let w = self.w();
      return (w.clone(), vec![t(w)]);
    }
    self.constructs += 1;
    let (m, tag) = self.s.one(&free);
    let mut c = cx.clone();
    c.depth += 1;
    c.marks.push(m);
    let (al, at) = self.attrs(m, cx);
    let (a, b) = self.seq(&c, 1, 3);
    let e = self.mark_el(m, tag, &at, b);
    let _ = edge;
    let (pre, post) = if cx.depth == 0 {
      (self.s.one(&["", "", "", "(", "-"]), self.s.one(&["", "", "", ",", ".", "!", "?", ")", ";", ":", "-"]))
    } else {
      ("", "")
    };
    // `-*x*` at the start of a line stays text, `- x` would not
    (format!("{pre}{al}{m}{a}{m}{post}"), vec![t(pre), e, t(post)])
  }

  fn unconstrained(&mut self, cx: &In) -> Out {
    let free: Vec<(char, &str)> = MARKS.iter().filter(|m| !cx.marks.contains(&m.0)).copied().collect();
    if free.is_empty() {
      let w = self.w();
      return (w.clone(), vec![t(w)]);
    }
    self.constructs += 1;
    let (m, tag) = self.s.one(&free);
    let mut c = cx.clone();
    c.depth += 1;
    c.marks.push(m);
    let (al, at) = self.attrs(m, cx);
    let (a, b) = self.seq(&c, 1, 2);
    let e = self.mark_el(m, tag, &at, b);
    let (mut l, mut r) = (String::new(), String::new());
    if self.s.chance(70) {
      l = self.w();
    }
    if l.is_empty() || self.s.chance(60) {
      r = self.w();
    }
    (format!("{l}{al}{m}{m}{a}{m}{m}{r}"), vec![t(l), e, t(r)])
  }

  fn special(&mut self, cx: &In, edge: bool) -> Out {
    self.constructs += 1;
    let (w, x) = (self.w(), self.w());
    let mono = cx.marks.contains(&'`') && !cx.in_quotes;
    let _ = mono;
    match self.s.below(if cx.in_link { 11 } else { 18 }) {
      0 => (format!("{w} & {x}"), vec![t(format!("{w} & {x}"))]),
      1 => (format!("{w}&{x}"), vec![t(format!("{w}&{x}"))]),
      2 => (format!("<{w}>"), vec![t(format!("<{w}>"))]),
      3 => (format!("{w} < {x}"), vec![t(format!("{w} < {x}"))]),
      4 => (format!("{w} > {x}"), vec![t(format!("{w} > {x}"))]),
      5 => (format!("{w} \"{x}\" {x}"), vec![t(format!("{w} \"{x}\" {x}"))]),
      6 => (format!("{w}'{x}"), vec![t(format!("{w}\u{2019}{x}"))]),
      7 => (format!("{w}(C)"), vec![t(format!("{w}©"))]),
      8 => (format!("{w}(R)"), vec![t(format!("{w}®"))]),
      9 => (format!("{w}(TM)"), vec![t(format!("{w}™"))]),
      10 => (format!("{w}...{x}"), vec![t(format!("{w}…\u{200b}{x}"))]),
      11 => (format!("{w} -> {x}"), vec![t(format!("{w} → {x}"))]),
      12 => (format!("{w} => {x}"), vec![t(format!("{w} ⇒ {x}"))]),
      13 => (format!("{w} <- {x}"), vec![t(format!("{w} ← {x}"))]),
      14 => (format!("{w} <= {x}"), vec![t(format!("{w} ⇐ {x}"))]),
      15 => (format!("{w}--{x}"), vec![t(if self.be == Be::Html { format!("{w}—\u{200b}{x}") } else { format!("{w}–{x}") })]),
      16 if !edge => (format!("{w} -- {x}"), vec![t(format!("{w}\u{2009}{}\u{2009}{x}", if self.be == Be::Html { "—" } else { "–" }))]),
      17 => self.s.one(&[("&#167;", "§"), ("&#169;", "©"), ("&#x2022;", "•"), ("{amp}", "&"), ("{lt}", "<"), ("{plus}", "+"), ("{vbar}", "|"), ("{nbsp}", "\u{a0}"), ("{asterisk}", "*"), ("{backtick}", "`"), ("{startsb}", "["), ("{empty}", ""), ("{cpp}", "C++"), ("{caret}", "^"), ("{tilde}", "~"), ("{two-colons}", "::")]).pipe(|(a, b)| (format!("{w}{a}{x}"), vec![t(format!("{w}{b}{x}"))])),
      _ => {
        // punctuation that is no markup
        let c = self.s.one(&["_", "/", "=", "%", "$", "@", ",", ";", "."]);
        let y = self.w();
        if c == "@" { (format!("{w} @ {y}"), vec![t(format!("{w} @ {y}"))]) } else { (format!("{w}{c}{x}{c}{y}"), vec![t(format!("{w}{c}{x}{c}{y}"))]) }
      }
    }
  }

  fn escaped(&mut self, cx: &In) -> Out {
    self.constructs += 1;
    let (w, x) = (self.w(), self.w());
    let m = self.s.one(&['*', '_', '#']);
    if cx.marks.contains(&m) {
      return (w.clone(), vec![t(w)]);
    }
    match self.s.below(if cx.in_link { 7 } else { 9 }) {
      0 => (format!("\\{m}{w}{m}"), vec![t(format!("{m}{w}{m}"))]),
      1 => (format!("{w}\\(C)"), vec![t(format!("{w}(C)"))]),
      2 => (format!("{w} \\-> {x}"), vec![t(format!("{w} -> {x}"))]),
      3 => (format!("{w}\\...{x}"), vec![t(format!("{w}...{x}"))]),
      4 => (format!("\\{{empty}}{w}"), vec![t(format!("{{empty}}{w}"))]),
      5 => (format!("{w}\\--{x}"), vec![t(format!("{w}--{x}"))]),
      6 => (format!("{w}\\'{x}"), vec![t(format!("{w}'{x}"))]),
      7 => (format!("\\https://x.org/{w}"), vec![t(format!("https://x.org/{w}"))]),
      _ => (format!("\\[[{w}]]{x}"), vec![t(format!("[[{w}]]{x}"))]),
    }
  }

  fn pass(&mut self, cx: &In, edge: bool) -> Out {
    self.constructs += 1;
    let (w, x) = (self.w(), self.w());
    let raw = self.s.one(&["*a*", "_b_", "`c`", "a & b", "<i>", "(C)", "{empty}", "...", "#d#", "a -> b", "https://x.y", "[[z]]", "H~2~O", "**a**", "it's"]);
    let code = !cx.marks.contains(&'`') && !cx.marks.iter().any(|c| raw.contains(*c));
    // the parser looks ahead for a closing mark on later lines before it takes their
    // passthroughs out (DESIGN.md)
    if self.lines && cx.marks.iter().any(|c| raw.contains(*c) || *c == '*') {
      return (w.clone(), vec![t(w)]);
    }
    if cx.in_link && (raw.contains(']') || raw.contains('=') || raw.contains('{')) {
      return (w.clone(), vec![t(w)]);
    }
    match self.s.below(if cx.in_link { 3 } else { 7 }) {
      // not next to another mark
      0 if !edge || cx.depth == 0 => (format!("+{w} {raw} {x}+"), vec![t(format!("{w} {raw} {x}"))]),
      1 => (format!("{w}++{raw}++{x}"), vec![t(format!("{w}{raw}{x}"))]),
      2 => {
        let n = html::parse(&format!("<b>{w}</b>")).unwrap().kids;
        (format!("{x}+++<b>{w}</b>+++"), std::iter::once(t(x)).chain(n).collect())
      }
      3 => {
        let n = html::parse(&format!("<u>{w}</u>")).unwrap().kids;
        (format!("pass:[<u>{w}</u>]"), n)
      }
      4 if !raw.contains(']') => (format!("pass:c[{raw}]"), vec![t(raw)]),
      5 if !raw.contains(']') && raw != "<i>" && raw != "a & b" => {
        // quotes only
        let e = el("strong", &[], vec![t(w.clone())]);
        (format!("pass:q[*{w}* (C)]"), vec![e, t(" (C)")])
      }
      _ if code && !raw.contains('`') => (format!("`+{raw}+`"), vec![el("code", &[], vec![t(raw)])]),
      _ => (w.clone(), vec![t(w)]),
    }
  }
}

trait Pipe: Sized {
  fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
    f(self)
  }
}
impl<T> Pipe for T {}

/// merges neighbouring texts
pub fn merge(v: Vec<Node>) -> Vec<Node> {
  let mut o: Vec<Node> = vec![];
  for n in v {
    match (o.last_mut(), n) {
      (Some(Node::Text(a)), Node::Text(b)) => a.push_str(&b),
      (_, Node::El(mut e)) => {
        e.kids = merge(e.kids);
        o.push(Node::El(e));
      }
      (_, n) => o.push(n),
    }
  }
  o
}

fn run_inline(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = if s.chance(30) { Be::Html5s } else { Be::Html };
  let pos = s.below(12);
  let hi = s.one(&[1, 2, 4, 8]);
  let mut g = I::new(s, be);
  // one-line positions; titles are also used for ids
  g.multiline = matches!(pos, 0 | 1 | 6 | 7 | 10);
  g.lines = g.multiline;
  g.ids = !matches!(pos, 2 | 4);
  let (src, want) = g.seq(&In::default(), 1, hi);
  let n = g.constructs;
  let doc = match pos {
    0 => format!("{src}\n"),
    1 => format!("* {src}\n"),
    2 => format!("== {src}\n"),
    3 => format!("|===\n|{src}\n|===\n"),
    4 => format!(".w0 {src}\nx\n"),
    5 => format!("w0:: {src}\n"),
    6 => format!("NOTE: {src}\n"),
    7 => format!("____\n{src}\n____\n"),
    8 => format!("w0 {src}:: x\n"),
    9 => format!("[cols=\"a\"]\n|===\n|{src}\n|===\n"),
    10 => format!("[verse]\nw0 {src}\n"),
    _ => format!("[discrete]\n== w0 {src}\n"),
  };
  cx.case(format!("{be:?}\n{doc}"));
  // would be a block attribute line
  let first = src.lines().next().unwrap_or("");
  if matches!(pos, 0 | 7 | 9) && first.starts_with('[') && first.ends_with(']') {
    cx.discarded = true;
    return Ok(());
  }
  if pos == 3 && src.contains('|') || pos == 8 && (src.contains("::") || src.ends_with(':')) || pos == 9 && src.contains('|') {
    cx.discarded = true;
    return Ok(());
  }
  let mut o = Opts::default().be(be);
  if matches!(pos, 2 | 11) {
    o.attrs.push(("sectids".into(), asciidork_core::AttrValue::Bool(false), true));
  }
  let c = convert(&doc, &o);
  let root = match html::parse(c.html()) {
    Ok(r) => r,
    Err(e) => fail!("malformed", "{e}\n{}", c.html()),
  };
  let find = |f: &dyn Fn(&El) -> bool| root.find(f).cloned();
  let h5 = be == Be::Html5s;
  let e = match pos {
    0 => find(&|e| e.tag == "p"),
    1 if h5 => find(&|e| e.tag == "li").map(|e| match e.find(|x| x.tag == "p").cloned() {
      Some(p) => p,
      None => e,
    }),
    1 => find(&|e| e.tag == "li").and_then(|e| e.find(|x| x.tag == "p").cloned()),
    2 => find(&|e| e.tag == "h2"),
    3 if h5 => find(&|e| e.tag == "td"),
    3 => find(&|e| e.is("p", "tableblock")),
    4 if h5 => find(&|e| e.tag == "h6"),
    4 => find(&|e| e.is("div", "title")),
    5 => find(&|e| e.tag == "dd").map(|e| match e.find(|x| x.tag == "p").cloned() {
      Some(p) => p,
      None => e,
    }),
    6 if h5 => find(&|e| e.tag == "p"),
    6 => find(&|e| e.is("td", "content")),
    7 => find(&|e| e.tag == "p"),
    8 => find(&|e| e.tag == "dt"),
    9 => find(&|e| e.tag == "td").and_then(|e| e.find(|x| x.tag == "p").cloned()),
    10 => find(&|e| e.tag == "pre"),
    _ => find(&|e| e.tag == "h2"),
  };
  let Some(e) = e else { fail!("missing", "content not found in {}", c.html()) };
  cx.nontrivial(n >= 3);
  cx.label(["para", "list", "section", "cell", "title", "dd", "admonition", "quote", "dt", "acell", "verse", "discrete"][pos]);
  let mut want = want;
  if matches!(pos, 4 | 8 | 10 | 11) {
    want.insert(0, t("w0 "));
  }
  let (a, b) = (canon(&merge(want)), canon(&merge(e.kids.clone())));
  if a.trim() != b.trim() {
    // name the first difference
    let k = a.trim().chars().zip(b.trim().chars()).take_while(|(x, y)| x == y).count();
    let at: String = a.trim().chars().skip(k).filter(|c| !c.is_ascii_digit()).take(6).collect();
    let bt: String = b.trim().chars().skip(k).filter(|c| !c.is_ascii_digit()).take(6).collect();
    fail!(format!("inline {at:?} {bt:?}"), "expected {}\nbut got  {}\n{}", a.trim(), b.trim(), c.html());
  }
  ensure!(c.diags.is_empty(), "diagnostics", "{}", c.diags[0].plain_text());
  Ok(())
}
