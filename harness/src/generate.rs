//! Structured document generator: emits AsciiDoc lines together with the
//! semantic tree the document denotes. Every piece of text is a unique word, so
//! lost, duplicated or misplaced content is visible.
use crate::engine::Src;

/// A node of the semantic tree. `k` is the kind of node.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct S {
  pub k: String,
  pub id: Option<String>,
  pub roles: Vec<String>,
  pub title: Option<String>,
  pub text: Option<String>,
  pub at: Vec<(String, String)>,
  pub kids: Vec<S>,
}

impl S {
  pub fn new(k: &str) -> S {
    S { k: k.into(), ..S::default() }
  }
  pub fn text(mut self, t: impl Into<String>) -> S {
    self.text = Some(t.into());
    self
  }
  pub fn at(mut self, k: &str, v: impl Into<String>) -> S {
    self.at.push((k.into(), v.into()));
    self
  }
  pub fn kids(mut self, k: Vec<S>) -> S {
    self.kids = k;
    self
  }
  pub fn get(&self, k: &str) -> Option<&str> {
    self.at.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
  }
  pub fn lines(&self) -> Vec<String> {
    let mut v = vec![];
    self.lines_into(0, &mut v);
    v
  }
  fn lines_into(&self, d: usize, v: &mut Vec<String>) {
    let mut s = "  ".repeat(d);
    s.push_str(&self.k);
    if let Some(i) = &self.id {
      s.push_str(&format!(" #{i}"));
    }
    let mut r = self.roles.clone();
    r.sort();
    for r in r {
      s.push_str(&format!(" .{r}"));
    }
    let mut at = self.at.clone();
    at.sort();
    for (k, x) in at {
      s.push_str(&format!(" {k}={x:?}"));
    }
    if let Some(t) = &self.title {
      s.push_str(&format!(" title={t:?}"));
    }
    if let Some(t) = &self.text {
      s.push_str(&format!(" {t:?}"));
    }
    v.push(s);
    for k in &self.kids {
      k.lines_into(d + 1, v);
    }
  }
  pub fn show(&self) -> String {
    self.lines().join("\n")
  }
  pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a S)) {
    f(self);
    for k in &self.kids {
      k.walk(f);
    }
  }
  pub fn count(&self) -> usize {
    1 + self.kids.iter().map(S::count).sum::<usize>()
  }
  pub fn depth(&self) -> usize {
    1 + self.kids.iter().map(S::depth).max().unwrap_or(0)
  }
}

/// First difference between two trees, `None` if equal.
pub fn diff(want: &S, got: &S) -> Option<(String, String, String)> {
  let (a, b) = (want.lines(), got.lines());
  let n = a.len().max(b.len());
  for i in 0..n {
    let (x, y) = (a.get(i), b.get(i));
    if x != y {
      let x = x.cloned().unwrap_or_else(|| "<end>".into());
      let y = y.cloned().unwrap_or_else(|| "<end>".into());
      let kind = |s: &str| {
        s.trim_start().split([' ', '"']).next().unwrap_or("").to_string()
      };
      return Some((format!("{}:{}", kind(&x), kind(&y)), x, y));
    }
  }
  None
}

#[derive(Clone, Debug)]
pub struct Cfg {
  /// total number of blocks
  pub budget: i32,
  pub max_depth: usize,
  pub sections: bool,
  pub header: bool,
  /// weights of the block kinds, in the order of `KINDS`
  pub weights: Vec<u32>,
  pub inline: bool,
  pub meta_pct: u32,
  pub html5s: bool,
  pub list_depth: usize,
  pub comments: bool,
}

pub const KINDS: [&str; 24] = [
  "para", "litpara", "admonpara", "listing", "literal", "fence", "example", "sidebar", "quote",
  "open", "ulist", "olist", "dlist", "table", "image", "break", "verse", "admon", "raw", "stylepara",
  "collapsible", "discrete", "mdquote", "quotedpara",
];

impl Default for Cfg {
  fn default() -> Self {
    Cfg {
      budget: 14,
      max_depth: 4,
      sections: false,
      header: false,
      weights: vec![
        10, 3, 3, 4, 3, 2, 5, 4, 4, 4, 6, 5, 5, 4, 2, 1, 2, 3, 1, 3, 2, 2, 2, 2,
      ],
      inline: true,
      meta_pct: 40,
      html5s: false,
      list_depth: 4,
      comments: true,
    }
  }
}

impl Cfg {
  pub fn only(mut self, ks: &[(&str, u32)]) -> Self {
    self.weights = KINDS
      .iter()
      .map(|k| ks.iter().find(|(n, _)| n == k).map(|x| x.1).unwrap_or(0))
      .collect();
    self
  }
}

#[derive(Clone, Debug, Default)]
pub struct Ctx {
  pub depth: usize,
  /// markers of the open lists in the current container
  pub markers: Vec<String>,
  pub listdepth: usize,
  pub ex_lens: Vec<usize>,
  pub sidebar: bool,
  pub quote: bool,
  pub open: bool,
  /// inside an AsciiDoc table cell
  pub cell: usize,
  /// the block is attached to a list item: no leading blank line possible
  pub attached: bool,
  pub in_section: bool,
  pub in_dd: bool,
}

pub struct G<'a> {
  pub s: &'a mut Src,
  pub cfg: Cfg,
  pub n: usize,
  budget: i32,
  pub ex: usize,
  pub tab: usize,
  pub fig: usize,
  nid: usize,
  pub ids: Vec<String>,
}

type Lines = Vec<String>;

#[derive(Default, Clone)]
pub struct Meta {
  pub id: Option<String>,
  pub roles: Vec<String>,
  pub title: Option<String>,
}

impl Meta {
  fn on(self, mut s: S) -> S {
    s.id = self.id;
    s.roles = self.roles;
    s.title = self.title;
    s
  }
}

impl<'a> G<'a> {
  pub fn new(s: &'a mut Src, cfg: Cfg) -> Self {
    let budget = cfg.budget;
    G { s, cfg, n: 0, budget, ex: 0, tab: 0, fig: 0, nid: 0, ids: vec![] }
  }
  pub fn word(&mut self) -> String {
    self.n += 1;
    format!("w{}", self.n)
  }
  /// (source, plain text)
  pub fn words(&mut self, lo: usize, hi: usize) -> (String, String) {
    let n = self.s.range(lo, hi);
    let (mut a, mut b) = (vec![], vec![]);
    for _ in 0..n {
      let w = self.word();
      let src = if self.cfg.inline && self.s.chance(15) {
        match self.s.below(5) {
          0 => format!("*{w}*"),
          1 => format!("_{w}_"),
          2 => format!("`{w}`"),
          3 => format!("#{w}#"),
          _ => format!("[.r]#{w}#"),
        }
      } else {
        w.clone()
      };
      a.push(src);
      b.push(w);
    }
    (a.join(" "), b.join(" "))
  }
  fn plain(&mut self, lo: usize, hi: usize) -> String {
    let n = self.s.range(lo, hi);
    (0..n).map(|_| self.word()).collect::<Vec<_>>().join(" ")
  }
  pub fn new_id(&mut self) -> String {
    self.nid += 1;
    let i = format!("id{}", self.nid);
    self.ids.push(i.clone());
    i
  }

  /// Block metadata lines. `head` is the first positional plus any further
  /// positionals (`source,ruby`), `opts` the options to set.
  /// a term does not start with an attribute list
  fn term_words(&mut self) -> (String, String) {
    let (x, y) = self.words(1, 2);
    if !x.starts_with('[') {
      return (x, y);
    }
    let w = self.word();
    (format!("{w} {x}"), format!("{w} {y}"))
  }

  /// description text; in a Q&A list an entirely emphasized one would look like a term
  fn dd_words(&mut self, style: &str) -> (String, String) {
    let (x, y) = self.words(1, 3);
    if style != "qanda" {
      return (x, y);
    }
    let w = self.word();
    (format!("{w} {x}"), format!("{w} {y}"))
  }

  /// metadata for a nested list: an attribute line comes first
  fn list_meta(&mut self, ctx: &Ctx, head: &str, opts: &[&str]) -> (Lines, Meta) {
    let (mut l, mut m) = self.meta(head, opts, true);
    if ctx.listdepth > 0 && l.first().is_some_and(|x| x.starts_with('.')) {
      l.rotate_left(1);
      if l.len() == 1 {
        l.clear();
        m.title = None;
      }
    }
    (l, m)
  }

  fn meta(&mut self, head: &str, opts: &[&str], title_ok: bool) -> (Lines, Meta) {
    let mut m = Meta::default();
    let pct = self.cfg.meta_pct;
    if title_ok && self.s.chance(pct) {
      let (src, plain) = self.words(1, 3);
      m.title = Some(plain);
      // kept in `title`, the source is emitted below
      let mut lines = self.meta_attrs(head, opts, &mut m);
      let at = if self.s.chance(50) { 0 } else { lines.len() };
      lines.insert(at, format!(".{src}"));
      return (lines, m);
    }
    let lines = self.meta_attrs(head, opts, &mut m);
    (lines, m)
  }

  fn meta_attrs(&mut self, head: &str, opts: &[&str], m: &mut Meta) -> Lines {
    let mut lines = self.meta_lines(head, opts, m);
    // a later line overrides
    if m.id.is_some() && self.s.chance(6) {
      let id = self.new_id();
      lines.insert(0, match self.s.below(3) {
        0 => format!("[[{id}]]"),
        1 => format!("[#{id}]"),
        _ => format!("[id={id}]"),
      });
    }
    lines
  }

  fn meta_lines(&mut self, head: &str, opts: &[&str], m: &mut Meta) -> Lines {
    let pct = self.cfg.meta_pct;
    let (style, rest) = match head.split_once(',') {
      Some((a, b)) => (a.to_string(), format!(",{b}")),
      None => (head.to_string(), String::new()),
    };
    if self.s.chance(pct) {
      m.id = Some(self.new_id());
    }
    if self.s.chance(pct) {
      for _ in 0..self.s.range(1, 2) {
        self.n += 1;
        m.roles.push(format!("role{}", self.n));
      }
    }
    let mut lines = vec![];
    if head.is_empty() && opts.is_empty() && m.id.is_none() && m.roles.is_empty() {
      return lines;
    }
    let roles = |sep: &str| m.roles.iter().map(|r| format!("{sep}{r}")).collect::<String>();
    let optstr = opts.iter().map(|o| format!("%{o}")).collect::<String>();
    match self.s.below(4) {
      // shorthand
      0 => {
        let idp = m.id.as_ref().map(|i| format!("#{i}")).unwrap_or_default();
        let mut parts = vec![idp, roles("."), optstr];
        if self.s.chance(40) {
          parts.rotate_left(1);
        }
        lines.push(format!("[{style}{}{rest}]", parts.concat()));
      }
      // separate lines
      1 => {
        let mut v = vec![];
        if let Some(i) = &m.id {
          v.push(if self.s.chance(50) { format!("[[{i}]]") } else { format!("[#{i}]") });
        }
        if !style.is_empty() || !optstr.is_empty() || !rest.is_empty() {
          v.push(format!("[{style}{optstr}{rest}]"));
        }
        if !m.roles.is_empty() {
          v.push(format!("[{}]", roles(".")));
        }
        if v.len() > 1 && self.s.chance(40) {
          v.rotate_left(1);
        }
        lines = v;
      }
      // named attributes
      2 => {
        let mut v = vec![format!("{style}{optstr}{rest}")];
        if let Some(i) = &m.id {
          v.push(if self.s.chance(50) { format!("id={i}") } else { format!("id=\"{i}\"") });
        }
        if m.roles.len() == 1 && self.s.chance(50) {
          v.push(format!("role={}", m.roles[0]));
        } else if !m.roles.is_empty() {
          v.push(format!("role=\"{}\"", m.roles.join(" ")));
        }
        if v[0].is_empty() {
          v.remove(0);
        }
        let sep = if self.s.chance(50) { "," } else { ", " };
        lines.push(format!("[{}]", v.join(sep)));
      }
      // named options
      _ => {
        let idp = m.id.as_ref().map(|i| format!("#{i}")).unwrap_or_default();
        let mut v = vec![format!("{style}{idp}{}{rest}", roles("."))];
        if !opts.is_empty() {
          let name = if self.s.chance(50) { "opts" } else { "options" };
          v.push(format!("{name}=\"{}\"", opts.join(",")));
        }
        if v[0].is_empty() {
          v.remove(0);
        }
        lines.push(format!("[{}]", v.join(",")));
      }
    }
    lines
  }

  /// Sequence of blocks.
  pub fn blocks(&mut self, ctx: &Ctx, lo: usize, hi: usize) -> (Lines, Vec<S>) {
    let n = self.s.range(lo, hi);
    let mut lines: Lines = vec![];
    let mut out: Vec<S> = vec![];
    for _ in 0..n {
      if self.budget <= 0 && !out.is_empty() {
        break;
      }
      let (l, s) = self.block(ctx);
      if !lines.is_empty() {
        let prev_list = out.last().is_some_and(|p| is_list(&p.k));
        let next_risky = is_list(&s.k) || s.k == "literal" || s.k == "listing";
        if prev_list && next_risky && ctx.cell > 0 {
          // comment lines vanish inside tables
          let w = self.word();
          lines.extend([String::new(), w.clone(), String::new()]);
          out.push(S::new("para").text(w));
        } else if prev_list && next_risky {
          lines.push(String::new());
          lines.push(if self.s.chance(50) { "//-".into() } else { "// a comment".into() });
          lines.push(String::new());
        } else {
          lines.push(String::new());
          if self.cfg.comments && self.s.chance(10) {
            lines.push(String::new());
          }
          if self.cfg.comments && self.s.chance(4) {
            match self.s.below(2) {
              0 => lines.extend(["// comment".to_string(), String::new()]),
              _ => lines.extend(["////".to_string(), "hidden\n\n----\n".into(), "////".into(), String::new()]),
            }
          }
        }
      }
      lines.extend(l);
      out.push(s);
    }
    (lines, out)
  }

  fn kind(&mut self, ctx: &Ctx) -> &'static str {
    let deep = ctx.depth >= self.cfg.max_depth || self.budget <= 0;
    for _ in 0..6 {
      let k = KINDS[self.s.weighted(&self.cfg.weights.clone())];
      let ok = match k {
        "example" | "admon" | "collapsible" => !deep,
        "sidebar" => !deep && !ctx.sidebar,
        "quote" => !deep && !ctx.quote,
        "open" => !deep && !ctx.open,
        "ulist" | "olist" | "dlist" => !deep && ctx.listdepth < self.cfg.list_depth && !ctx.attached,
        "table" => !deep && ctx.cell < 2,
        "litpara" => !ctx.attached,
        "discrete" => !ctx.attached && ctx.cell == 0,
        "verse" => !ctx.quote,
        "mdquote" => !ctx.quote,
        "quotedpara" => !ctx.quote,
        _ => true,
      };
      if ok {
        return k;
      }
    }
    "para"
  }

  pub fn block(&mut self, ctx: &Ctx) -> (Lines, S) {
    self.budget -= 1;
    let k = self.kind(ctx);
    let mut sub = ctx.clone();
    sub.depth += 1;
    sub.attached = false;
    match k {
      "para" => {
        let (mut l, m) = self.meta("", &[], true);
        let (p, t) = self.para_lines(1, 3);
        l.extend(p);
        (l, m.on(S::new("para").text(t)))
      }
      "litpara" => {
        let n = self.s.range(1, 3);
        let base = self.s.range(1, 3);
        let mut out = vec![];
        let mut want = vec![];
        for i in 0..n {
          let extra = if i == 0 { 0 } else { self.s.below(3) };
          let w = self.plain(1, 2);
          out.push(format!("{}{}", " ".repeat(base + extra), w));
          want.push(format!("{}{}", " ".repeat(extra), w));
        }
        let (mut l, m) = self.meta("", &[], true);
        l.extend(out);
        (l, m.on(S::new("literal").text(want.join("\n"))))
      }
      "admonpara" => {
        let kind = self.s.one(&ADMON);
        let style = self.s.chance(50);
        let (mut l, m) = self.meta(if style { kind } else { "" }, &[], true);
        let (mut p, t) = self.para_lines(1, 2);
        if !style {
          p[0] = format!("{kind}: {}", p[0]);
        }
        l.extend(p);
        (l, m.on(S::new("admon").at("kind", kind.to_lowercase()).text(t)))
      }
      "stylepara" => match self.s.below(6) {
        0 => {
          let by = self.plain(1, 2);
          let (mut l, m, s) = self.quote_meta("quote", &by);
          let (p, t) = self.para_lines(1, 2);
          l.extend(p);
          (l, m.on(S { k: "quote".into(), text: Some(t), ..s }))
        }
        1 => {
          let (mut l, m) = self.meta("sidebar", &[], true);
          let (p, t) = self.para_lines(1, 2);
          l.extend(p);
          (l, m.on(S::new("sidebar").text(t)))
        }
        2 => {
          let (mut l, m) = self.meta("example", &[], true);
          let (p, t) = self.para_lines(1, 2);
          l.extend(p);
          let s = m.on(S::new("example").text(t));
          (l, self.caption_ex(s))
        }
        3 => {
          let style = self.s.one(&["listing", "source", "source,ruby"]);
          let (mut l, m) = self.meta(style, &[], true);
          let (p, t) = self.verb(1, 3, false);
          l.extend(p);
          (l, m.on(verb_node(style).text(t)))
        }
        4 => {
          let (mut l, m) = self.meta("literal", &[], true);
          let (p, t) = self.verb(1, 3, false);
          l.extend(p);
          (l, m.on(S::new("literal").text(t)))
        }
        _ => {
          let by = self.plain(1, 2);
          let (mut l, m, s) = self.quote_meta("verse", &by);
          let (p, t) = self.verb(1, 3, false);
          l.extend(p);
          (l, m.on(S { k: "verse".into(), text: Some(t), ..s }))
        }
      },
      "listing" => {
        let style = self.s.one(&["", "source", "source,ruby", ",rust", "literal", "listing"]);
        let (mut l, m) = self.meta(style, &[], true);
        let (p, t) = self.verb(0, 5, true);
        l.push("----".into());
        l.extend(p);
        l.push("----".into());
        let node = if style == "literal" { S::new("literal") } else { verb_node(style) };
        (l, m.on(node.text(t)))
      }
      "fence" => {
        let lang = self.s.one(&["", "rust", "js"]);
        let (mut l, m) = self.meta("", &[], true);
        let (p, t) = self.verb(0, 5, true);
        let more = if lang.is_empty() { "" } else { self.s.one(&["", "", "", " ", ",numbered", " , numbered", " x"]) };
        let gap = if lang.is_empty() { "" } else { self.s.one(&["", "", "", " "]) };
        l.push(format!("```{gap}{lang}{more}"));
        l.extend(p);
        l.push("```".into());
        let mut node = S::new("listing");
        if !lang.is_empty() {
          node = node.at("source", lang);
        }
        (l, m.on(node.text(t)))
      }
      "literal" => {
        let style = self.s.one(&["", "literal", "listing"]);
        let (mut l, m) = self.meta(style, &[], true);
        let (p, t) = self.verb(0, 5, true);
        l.push("....".into());
        l.extend(p);
        l.push("....".into());
        (l, m.on(S::new(if style == "listing" { "listing" } else { "literal" }).text(t)))
      }
      "raw" => {
        let mut l = vec!["++++".to_string()];
        let w = self.plain(1, 3);
        l.push(format!("<x-raw>{w}</x-raw>"));
        l.push("++++".into());
        (l, S::new("raw").text(w))
      }
      "verse" => {
        let by = self.plain(1, 2);
        let (mut l, m, s) = self.quote_meta("verse", &by);
        let (p, t) = self.verb(1, 4, true);
        l.push("____".into());
        l.extend(p);
        l.push("____".into());
        (l, m.on(S { k: "verse".into(), text: Some(t), ..s }))
      }
      "example" | "collapsible" | "admon" => {
        let mut len = self.s.range(4, 8);
        while sub.ex_lens.contains(&len) {
          len += 1;
        }
        sub.ex_lens.push(len);
        let fence = "=".repeat(len);
        let mut open_used = false;
        let fence = if k != "example" || sub.open || !self.s.chance(15) {
          fence
        } else {
          open_used = true;
          "--".to_string()
        };
        if open_used {
          sub.open = true;
          sub.ex_lens.pop();
        }
        sub.markers.clear();
        if k == "example" {
          let (mut l, m) = self.meta(if open_used { "example" } else { "" }, &[], true);
          let s = m.on(S::new("example"));
          let s = self.caption_ex(s);
          let (b, kids) = self.blocks(&sub, 0, 3);
          wrap(&mut l, &fence, b, self.s);
          (l, s.kids(kids))
        } else if k == "admon" {
          let kind = self.s.one(&ADMON);
          let (mut l, m) = self.meta(kind, &[], true);
          let (b, kids) = self.blocks(&sub, 0, 3);
          wrap(&mut l, &fence, b, self.s);
          (l, m.on(S::new("admon").at("kind", kind.to_lowercase()).kids(kids)))
        } else {
          let op = self.s.chance(40);
          let opts: &[&str] = if op { &["collapsible", "open"] } else { &["collapsible"] };
          let (mut l, m) = self.meta("", opts, true);
          let mut s = m.on(S::new("collapsible"));
          if op {
            s = s.at("open", "");
          }
          if s.title.is_none() {
            s.title = Some("Details".into());
          }
          let (b, kids) = self.blocks(&sub, 0, 3);
          wrap(&mut l, &fence, b, self.s);
          (l, s.kids(kids))
        }
      }
      "sidebar" => {
        sub.sidebar = true;
        sub.markers.clear();
        let (mut l, m) = self.meta("", &[], true);
        let (b, kids) = self.blocks(&sub, 0, 3);
        wrap(&mut l, "****", b, self.s);
        (l, m.on(S::new("sidebar").kids(kids)))
      }
      "quote" => {
        sub.quote = true;
        sub.markers.clear();
        let by = self.plain(1, 2);
        let (mut l, m, s) = if self.s.chance(50) {
          self.quote_meta("quote", &by)
        } else {
          let (l, m) = self.meta("", &[], true);
          (l, m, S::new("quote"))
        };
        let (b, kids) = self.blocks(&sub, 0, 3);
        wrap(&mut l, "____", b, self.s);
        (l, m.on(S { k: "quote".into(), ..s }.kids(kids)))
      }
      "mdquote" => self.mdquote(),
      "quotedpara" => {
        let (mut l, m) = self.meta("", &[], true);
        let (mut p, t) = self.para_lines(1, 3);
        let n = p.len();
        p[0].insert(0, '"');
        p[n - 1].push('"');
        l.extend(p);
        let (by, s) = self.signature();
        l.push(by);
        (l, m.on(S { k: "quote".into(), text: Some(t), ..s }))
      }
      "open" => {
        sub.open = true;
        sub.markers.clear();
        let style = self.s.one(&["", "", "sidebar", "NOTE", "quote", "abstract"]);
        let (mut l, m) = self.meta(style, &[], true);
        let (b, kids) = self.blocks(&sub, 0, 3);
        wrap(&mut l, "--", b, self.s);
        let s = match style {
          "" => S::new("open"),
          "NOTE" => S::new("admon").at("kind", "note"),
          k => S::new(k),
        };
        (l, m.on(s.kids(kids)))
      }
      "ulist" => self.list(&sub, 0, true),
      "olist" => self.list(&sub, 1, true),
      "dlist" => self.list(&sub, 2, true),
      "table" => self.table(&sub),
      "image" => {
        let (mut l, m) = self.meta("", &[], true);
        let w = self.word();
        let alt = if self.s.chance(50) { self.plain(1, 2) } else { String::new() };
        l.push(format!("image::{w}.png[{alt}]"));
        let alt = if alt.is_empty() { w.clone() } else { alt };
        let mut s = m.on(S::new("image").at("src", format!("{w}.png")).at("alt", alt));
        if let Some(t) = &s.title {
          self.fig += 1;
          s.title = Some(format!("Figure {}. {t}", self.fig));
        }
        (l, s)
      }
      "break" => {
        let (src, k) = self.s.one(&[("'''", "hr"), ("---", "hr"), ("***", "hr"), ("<<<", "pagebreak"), ("- - -", "hr"), ("* * *", "hr")]);
        (vec![src.to_string()], S::new(k))
      }
      "discrete" => {
        let lvl = self.s.range(1, 5);
        let style = self.s.one(&["discrete", "float"]);
        let (mut l, mut m) = self.meta(style, &[], false);
        let t = self.plain(1, 3);
        if m.id.is_none() {
          m.id = Some(format!("_{}", t.replace(' ', "_")));
        }
        l.push(format!("{} {t}", "=".repeat(lvl + 1)));
        (l, m.on(S::new("discrete").at("level", lvl.to_string()).text(t)))
      }
      _ => unreachable!(),
    }
  }

  fn caption_ex(&mut self, mut s: S) -> S {
    if let Some(t) = &s.title {
      self.ex += 1;
      s.title = Some(format!("Example {}. {t}", self.ex));
    }
    s
  }

  /// `-- author[, source]`
  fn signature(&mut self) -> (String, S) {
    let by = self.plain(1, 2);
    if self.s.chance(50) {
      let mut cite = self.plain(1, 2);
      if self.s.chance(20) {
        cite.push_str(", ");
        cite.push_str(&self.plain(1, 2));
      }
      let comma = self.s.one(&[", ", ","]);
      (format!("-- {by}{comma}{cite}"), S::new("").at("by", by).at("cite", cite))
    } else {
      (format!("-- {by}"), S::new("").at("by", by))
    }
  }

  /// a quote in markdown style: every line behind a `>`
  fn mdquote(&mut self) -> (Lines, S) {
    let (mut out, m) = self.meta("", &[], true);
    let mut s = S::new("quote");
    let mut body: Vec<(String, bool)> = vec![];
    if self.s.chance(25) {
      let (p, t) = self.para_lines(1, 3);
      body.extend(p.into_iter().map(|l| (l, true)));
      let (by, n) = self.signature();
      body.push((by, false));
      s.at = n.at;
      s.text = Some(t);
    } else {
      let mut kids: Vec<S> = vec![];
      for i in 0..self.s.range(1, 4) {
        if i > 0 {
          body.push((String::new(), false));
        }
        let after_list = kids.last().is_some_and(|k| is_list(&k.k));
        match self.s.below(if after_list { 4 } else { 6 }) {
          4 | 5 => {
            let mut l = S::new("ulist");
            for _ in 0..self.s.range(1, 3) {
              let (src, t) = self.words(1, 3);
              body.push((format!("* {src}"), false));
              l.kids.push(S::new("item").text(t));
            }
            kids.push(l);
          }
          3 => {
            let kind = self.s.one(&ADMON);
            let (p, t) = self.para_lines(1, 2);
            for (i, l) in p.into_iter().enumerate() {
              body.push((if i == 0 { format!("{kind}: {l}") } else { l }, i > 0));
            }
            kids.push(S::new("admon").at("kind", kind.to_lowercase()).text(t));
          }
          2 => {
            let (ml, m) = self.meta("", &[], true);
            let (p, t) = self.para_lines(1, 2);
            body.extend(ml.into_iter().map(|l| (l, false)));
            body.extend(p.into_iter().enumerate().map(|(i, l)| (l, i > 0)));
            kids.push(m.on(S::new("para").text(t)));
          }
          _ => {
            let (p, t) = self.para_lines(1, 3);
            body.extend(p.into_iter().enumerate().map(|(i, l)| (l, i > 0)));
            kids.push(S::new("para").text(t));
          }
        }
      }
      s.kids = kids;
    }
    // a line that continues a paragraph needs no `>`
    for (i, (l, lazy)) in body.into_iter().enumerate() {
      out.push(match l.is_empty() {
        true => self.s.one(&[">", ">", "> "]).to_string(),
        _ if lazy && i > 0 && self.s.chance(20) => l,
        _ => format!("> {l}"),
      });
    }
    (out, m.on(s))
  }

  fn quote_meta(&mut self, style: &str, by: &str) -> (Lines, Meta, S) {
    let cite = self.plain(1, 2);
    let mut s = S::new("");
    let head = match self.s.below(3) {
      0 => style.to_string(),
      1 => {
        s = s.at("by", by);
        format!("{style},{by}")
      }
      _ => {
        s = s.at("by", by).at("cite", cite.clone());
        if self.s.chance(50) { format!("{style}, {by}, {cite}") } else { format!("{style},{by},{cite}") }
      }
    };
    let (l, m) = self.meta(&head, &[], true);
    (l, m, s)
  }

  fn para_lines(&mut self, lo: usize, hi: usize) -> (Lines, String) {
    let n = self.s.range(lo, hi);
    let (mut l, mut t) = (vec![], vec![]);
    for _ in 0..n {
      let (a, b) = self.words(1, 4);
      l.push(a);
      t.push(b);
    }
    (l, t.join(" "))
  }

  /// verbatim lines; with `blank` also blank and indented lines
  fn verb(&mut self, lo: usize, hi: usize, blank: bool) -> (Lines, String) {
    let n = self.s.range(lo, hi);
    let mut l = vec![];
    for i in 0..n {
      let edge = i == 0 || i + 1 == n;
      let line = match self.s.below(if blank { 6 } else { 2 }) {
        5 if !edge => String::new(),
        4 if i > 0 => format!("  {}", self.plain(1, 2)),
        3 => format!("* {}", self.word()),
        2 => format!("== {}", self.word()),
        _ => self.plain(1, 4),
      };
      l.push(line);
    }
    let t = l.join("\n");
    (l, t)
  }

  // ---------------------------------------------------------------- lists

  fn marker(&mut self, ctx: &Ctx, variant: usize) -> Option<String> {
    let all: &[&str] = match variant {
      0 => &["*", "**", "***", "****", "*****", "-"],
      1 => &[".", "..", "...", "....", ".....", "1."],
      _ => &["::", ":::", "::::", ";;"],
    };
    let free: Vec<&str> = all.iter().copied().filter(|m| !ctx.markers.iter().any(|x| x == m)).collect();
    if free.is_empty() {
      return None;
    }
    // usually the next natural one
    let i = if self.s.chance(30) { self.s.below(free.len()) } else { 0 };
    Some(free[i].to_string())
  }

  pub fn list(&mut self, ctx: &Ctx, variant: usize, meta_ok: bool) -> (Lines, S) {
    let Some(marker) = self.marker(ctx, variant) else {
      let (l, t) = self.para_lines(1, 1);
      return (l, S::new("para").text(t));
    };
    let mut sub = ctx.clone();
    sub.markers.push(marker.clone());
    sub.listdepth += 1;
    sub.depth += 1;
    let mut lines: Lines;
    let n = self.s.range(1, 4);
    let mut items: Vec<S> = vec![];
    let mut node;
    match variant {
      0 => {
        let style = if meta_ok { self.s.one(&["", "", "", "square", "circle"]) } else { "" };
        let (l, m) = if meta_ok { self.list_meta(ctx, style, &[]) } else { (vec![], Meta::default()) };
        lines = l;
        node = m.on(S::new("ulist"));
        if !style.is_empty() {
          node = node.at("style", style);
        }
      }
      1 => {
        let style = if meta_ok { self.s.one(&["", "", "", "loweralpha", "upperroman"]) } else { "" };
        let start = if meta_ok && self.s.chance(15) { Some(self.s.range(2, 40)) } else { None };
        let rev = meta_ok && self.s.chance(10);
        let mut head = style.to_string();
        if let Some(st) = start {
          head.push_str(&format!(",start={st}"));
        }
        let (l, m) = if meta_ok {
          self.list_meta(ctx, &head, if rev { &["reversed"] } else { &[] })
        } else {
          (vec![], Meta::default())
        };
        lines = l;
        // the style follows the marker when not given
        let odepth = if marker.starts_with('.') { marker.len() - 1 } else { 0 };
        let dflt = ["arabic", "loweralpha", "lowerroman", "upperalpha", "upperroman"][odepth.min(4)];
        node = m.on(S::new("olist").at("style", if style.is_empty() { dflt } else { style }));
        if let Some(st) = start {
          node = node.at("start", st.to_string());
        }
        if rev {
          node = node.at("reversed", "");
        }
      }
      _ => {
        let style = if meta_ok { self.s.one(&["", "", "", "horizontal", "qanda"]) } else { "" };
        let (l, m) = if meta_ok { self.list_meta(ctx, style, &[]) } else { (vec![], Meta::default()) };
        lines = l;
        node = m.on(S::new(match style {
          "horizontal" => "hdlist",
          "qanda" => "qlist",
          _ => "dlist",
        }));
      }
    }
    let indent = if self.s.chance(10) { self.s.range(1, 3) } else { 0 };
    let mut digit = 1;
    let check = variant == 0 && self.s.chance(12);
    let mut any_check = false;
    for i in 0..n {
      if i > 0 && self.budget <= 0 {
        break;
      }
      self.budget -= 1;
      if i > 0 && self.s.chance(25) {
        lines.push(String::new());
      }
      let pad = " ".repeat(indent);
      if variant == 2 {
        let terms = if self.s.chance(15) { 2 } else { 1 };
        let mut item = S::new("item");
        for t in 0..terms {
          let (a, b) = self.term_words();
          item.kids.push(S::new("dt").text(b));
          if t + 1 < terms {
            lines.push(format!("{pad}{a}{marker}"));
          } else {
            // how the description starts
            let mut dd = S::new("dd");
            match self.s.below(5) {
              0 | 1 => {
                let (x, y) = self.dd_words(if node.k == "qlist" { "qanda" } else { "" });
                lines.push(format!("{pad}{a}{marker} {x}"));
                dd.text = Some(y);
                if self.s.chance(30) {
                  let (x, y) = self.words(1, 3);
                  lines.push(x);
                  dd.text = Some(format!("{} {y}", dd.text.unwrap()));
                }
              }
              2 => {
                let (x, y) = self.dd_words(if node.k == "qlist" { "qanda" } else { "" });
                lines.push(format!("{pad}{a}{marker}"));
                let ind = " ".repeat(self.s.below(3));
                lines.push(format!("{ind}{x}"));
                dd.text = Some(y);
              }
              3 => {
                let (x, y) = self.dd_words(if node.k == "qlist" { "qanda" } else { "" });
                lines.push(format!("{pad}{a}{marker}"));
                lines.push(String::new());
                lines.push(x);
                dd.text = Some(y);
              }
              _ => {
                lines.push(format!("{pad}{a}{marker}"));
              }
            }
            let (l, kids) = self.item_blocks(&sub);
            if kids.is_empty() && dd.text.is_none() {
              // an empty description would take whatever follows
              let (x, y) = self.dd_words(if node.k == "qlist" { "qanda" } else { "" });
              lines.last_mut().unwrap().push_str(&format!(" {x}"));
              dd.text = Some(y);
            }
            lines.extend(l);
            dd.kids = kids;
            if dd.text.is_some() || !dd.kids.is_empty() {
              item.kids.push(dd);
            }
          }
        }
        items.push(item);
      } else {
        let mk = if marker == "1." {
          let s = format!("{digit}.");
          digit += 1;
          s
        } else {
          marker.clone()
        };
        let mut item = S::new("item");
        let mut pre = String::new();
        if check && self.s.chance(70) {
          let (src, v) = self.s.one(&[("[x]", "x"), ("[*]", "x"), ("[ ]", "o")]);
          pre = format!("{src} ");
          item = item.at("check", v);
          any_check = true;
        }
        let (a, mut b) = self.words(1, 3);
        let sp = " ".repeat(if self.s.chance(10) { self.s.range(1, 3) } else { 1 });
        lines.push(format!("{pad}{mk}{sp}{pre}{a}"));
        if self.s.chance(25) {
          let (x, y) = self.words(1, 3);
          let ind = " ".repeat(if self.s.chance(50) { self.s.below(4) } else { 0 });
          lines.push(format!("{ind}{x}"));
          b = format!("{b} {y}");
        }
        item.text = Some(b);
        let (l, kids) = self.item_blocks(&sub);
        lines.extend(l);
        item.kids = kids;
        items.push(item);
      }
    }
    if any_check {
      node = node.at("checklist", "");
    }
    node.kids = items;
    (lines, node)
  }

  /// blocks attached to a list item, then possibly a nested list
  fn item_blocks(&mut self, sub: &Ctx) -> (Lines, Vec<S>) {
    let mut lines: Lines = vec![];
    let mut kids = vec![];
    let na = if self.budget > 0 && self.s.chance(30) { self.s.range(1, 2) } else { 0 };
    for _ in 0..na {
      let mut c = sub.clone();
      c.attached = true;
      c.depth += 1;
      let (l, s) = self.block(&c);
      lines.push("+".into());
      lines.extend(l);
      kids.push(s);
    }
    if self.budget > 0 && sub.listdepth < self.cfg.list_depth && self.s.chance(30) {
      let v = self.s.weighted(&[4, 4, 2]);
      let meta_ok = na == 0 && self.s.chance(20);
      if self.marker_free(sub, v) {
        let (l, s) = self.list(sub, v, meta_ok);
        // after an attached paragraph a blank line is needed to start a list with metadata
        let has_meta = l[0].starts_with('[') || l[0].starts_with('.') && !l[0].trim_start_matches('.').starts_with(' ');
        if !has_meta && ((na > 0 && kids.last().is_some_and(|k: &S| needs_blank(&k.k))) || self.s.chance(30)) {
          lines.push(String::new());
        }
        lines.extend(l);
        kids.push(s);
      }
    }
    (lines, kids)
  }

  fn marker_free(&self, ctx: &Ctx, v: usize) -> bool {
    let all: &[&str] = match v {
      0 => &["*", "**", "***", "****", "*****", "-"],
      1 => &[".", "..", "...", "....", ".....", "1."],
      _ => &["::", ":::", "::::", ";;"],
    };
    all.iter().any(|m| !ctx.markers.iter().any(|x| x == m))
  }

  // --------------------------------------------------------------- tables

  fn table(&mut self, ctx: &Ctx) -> (Lines, S) {
    let mut sub = ctx.clone();
    sub.cell += 1;
    sub.markers.clear();
    sub.listdepth = 0;
    sub.attached = false;
    sub.depth += 1;
    let nested = ctx.cell > 0;
    let (bar, fence) = if nested { ("!", "!===") } else { ("|", "|===") };
    let cols = self.s.range(1, 3);
    let rows = self.s.range(1, 3);
    let header = self.s.below(3); // 0 none, 1 option, 2 implicit
    let footer = self.s.chance(20) && rows > 1;
    let mut opts: Vec<&str> = vec![];
    if header == 1 {
      opts.push("header");
    }
    if footer {
      opts.push("footer");
    }
    let (mut l, m) = self.meta(&format!(",cols={cols}*"), &opts, true);
    let mut node = m.on(S::new("table"));
    if let Some(t) = &node.title {
      self.tab += 1;
      node.title = Some(format!("Table {}. {t}", self.tab));
    }
    l.push(fence.into());
    let mut secs: Vec<S> = vec![];
    let head_row = header > 0;
    for r in 0..rows {
      let is_head = r == 0 && head_row;
      let is_foot = footer && r + 1 == rows && !(is_head && rows == 1);
      let mut row = S::new("row");
      let oneline = r == 0 || self.s.chance(40);
      let mut parts = vec![];
      for _ in 0..cols {
        let adoc = !is_head && !is_foot && !oneline && ctx.cell == 0 && self.s.chance(35);
        if adoc {
          let mut c = sub.clone();
          c.depth += 1;
          let save = (self.ex, self.tab, self.fig);
          let (b, kids) = self.blocks(&c, 1, 2);
          let _ = save;
          parts.push(format!("a{bar}\n{}", b.join("\n")));
          row.kids.push(S::new("td").at("adoc", "").kids(kids));
        } else {
          let (src, plain) = self.words(1, 2);
          let st = if is_head || is_foot { "" } else { self.s.one(&["", "", "", "", "e", "s", "m", "h"]) };
          parts.push(format!("{st}{bar}{src}"));
          let tag = if is_head || st == "h" { "th" } else { "td" };
          let mut c = S::new(tag);
          if is_head {
            c.text = Some(plain);
          } else {
            c.kids.push(S::new("p").text(plain));
          }
          row.kids.push(c);
        }
      }
      if oneline {
        l.push(parts.join(" "));
      } else {
        l.extend(parts);
      }
      if r == 0 && (header == 2 || self.s.chance(30)) {
        if header == 0 {
          // a blank line after the first row would make it a header
        } else {
          l.push(String::new());
        }
      } else if r > 0 && self.s.chance(30) {
        l.push(String::new());
      }
      let sec = if is_head { "thead" } else if is_foot { "tfoot" } else { "tbody" };
      if secs.last().is_none_or(|s: &S| s.k != sec) {
        secs.push(S::new(sec));
      }
      secs.last_mut().unwrap().kids.push(row);
    }
    // a first row followed by a blank line and nothing else is no header
    l.push(fence.into());
    (l, node.kids(secs))
  }

  // ------------------------------------------------------------- sections

  /// Sections from `level` on; returns lines and nodes.
  pub fn sections(&mut self, level: usize, maxlevel: usize, lo: usize, hi: usize) -> (Lines, Vec<S>) {
    let n = self.s.range(lo, hi);
    let (mut lines, mut out): (Lines, Vec<S>) = (vec![], vec![]);
    for _ in 0..n {
      if self.budget <= 0 && !out.is_empty() {
        break;
      }
      let (l, s) = self.section(level, maxlevel);
      if !lines.is_empty() {
        lines.push(String::new());
      }
      lines.extend(l);
      out.push(s);
    }
    (lines, out)
  }

  fn section(&mut self, level: usize, maxlevel: usize) -> (Lines, S) {
    self.budget -= 1;
    let (mut lines, mut m) = self.meta("", &[], false);
    let t = self.plain(1, 3);
    let ch = if self.s.chance(15) { "#" } else { "=" };
    lines.push(format!("{} {t}", ch.repeat(level + 1)));
    if m.id.is_none() {
      m.id = Some(format!("_{}", t.replace(' ', "_")));
    }
    let mut node = m.on(S::new("sect").at("level", level.to_string()).text(t));
    let (b, kids) = self.blocks(&Ctx { in_section: true, ..Ctx::default() }, 0, 3);
    if !b.is_empty() {
      lines.push(String::new());
      lines.extend(b);
    }
    node.kids = kids;
    if level < maxlevel && self.s.chance(45) {
      let (l, s) = self.sections(level + 1, maxlevel, 1, 3);
      lines.push(String::new());
      lines.extend(l);
      node.kids.extend(s);
    }
    (lines, node)
  }

  /// A whole document.
  pub fn document(&mut self) -> (String, S) {
    let mut lines: Lines = vec![];
    let mut root = S::new("doc");
    let header = self.cfg.header && self.s.chance(60);
    if header {
      let t = self.plain(1, 3);
      lines.push(format!("= {t}"));
      lines.push(String::new());
    }
    let (b, kids) = self.blocks(&Ctx::default(), if self.cfg.sections { 0 } else { 1 }, 4);
    lines.extend(b);
    let mut sect = vec![];
    if self.cfg.sections {
      let (l, s) = self.sections(1, 5, 0, 3);
      if !l.is_empty() && !kids.is_empty() {
        lines.push(String::new());
      }
      lines.extend(l);
      sect = s;
    }
    if header && !kids.is_empty() && !sect.is_empty() {
      root.kids.push(S::new("preamble").kids(kids));
    } else {
      root.kids.extend(kids);
    }
    root.kids.extend(sect);
    let mut s = lines.join("\n");
    s.push('\n');
    (s, root)
  }
}

const ADMON: [&str; 5] = ["NOTE", "TIP", "IMPORTANT", "WARNING", "CAUTION"];

fn wrap(l: &mut Lines, fence: &str, body: Lines, s: &mut Src) {
  l.push(fence.into());
  if s.chance(10) {
    l.push(String::new());
  }
  l.extend(body);
  if s.chance(10) {
    l.push(String::new());
  }
  l.push(fence.into());
}

fn needs_blank(k: &str) -> bool {
  matches!(k, "para" | "literal" | "admon" | "quote" | "sidebar" | "example" | "listing" | "verse" | "open")
}

pub fn is_list(k: &str) -> bool {
  matches!(k, "ulist" | "olist" | "dlist" | "hdlist" | "qlist" | "colist")
}

fn verb_node(style: &str) -> S {
  let s = S::new("listing");
  match style {
    "source" => s.at("source", ""),
    "source,ruby" => s.at("source", "ruby"),
    ",rust" => s.at("source", "rust"),
    _ => s,
  }
}
