//! C29: image, icon, audio, video, link, mailto and UI macros become the
//! element their target and attributes describe.
use crate::conv::*;
use crate::engine::*;
use crate::html::{self, El, Node};
use crate::{ensure, fail};
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C29",
    run,
    quick: 120_000,
    thorough: 4_000_000,
    rule: "random macros with positional and named attributes in random order, quoting and context, both backends, against a model of the element; non-trivial: 3+ attributes in the document",
    assumptions: &["targets, link texts and values are made of known pieces", "the element a macro becomes is the one of the pinned commit; the order of attributes, classes and url parameters is free"],
  }]
}

/// The attributes of a macro.
#[derive(Default, Clone, Debug)]
struct Al {
  pos: Vec<Option<String>>,
  named: Vec<(&'static str, String)>,
  roles: Vec<&'static str>,
  opts: Vec<&'static str>,
  id: Option<String>,
}

impl Al {
  fn get(&self, k: &str) -> Option<&str> {
    self.named.iter().find(|(n, _)| *n == k).map(|(_, v)| v.as_str())
  }
  fn pos(&self, i: usize) -> Option<&str> {
    self.pos.get(i).and_then(|p| p.as_deref())
  }
  fn opt(&self, k: &str) -> bool {
    self.opts.contains(&k)
  }
  fn size(&self) -> usize {
    self.pos.iter().flatten().count() + self.named.len() + self.roles.len() + self.opts.len()
  }
  fn set(&mut self, k: &'static str, v: impl Into<String>) {
    if self.get(k).is_none() {
      self.named.push((k, v.into()));
    }
  }
}

fn quoted(s: &mut Src, v: &str, positional: bool) -> String {
  let must = v.is_empty() || v.contains(',') || v.starts_with(' ') || v.ends_with(' ') || v.starts_with(['"', '\'']) || (positional && v.contains('='));
  let choice = s.below(10);
  let single = |v: &str| format!("'{v}'");
  let double = |v: &str| format!("\"{v}\"");
  match (v.contains('"'), v.contains('\'')) {
    (true, true) => v.to_string(),
    (true, false) => single(v),
    (false, true) => double(v),
    _ if must || choice < 4 => double(v),
    _ if choice < 5 => single(v),
    _ => v.to_string(),
  }
}

fn write(s: &mut Src, a: &Al, out: &mut String) {
  let mut parts: Vec<String> = vec![];
  for p in &a.pos {
    parts.push(match p {
      Some(v) => quoted(s, v, true),
      None => String::new(),
    });
  }
  let mut rest: Vec<String> = vec![];
  for (k, v) in &a.named {
    let eq = if s.chance(5) { " = " } else { "=" };
    let q = quoted(s, v, false);
    rest.push(format!("{k}{eq}{q}"));
  }
  if !a.roles.is_empty() {
    let v = a.roles.join(" ");
    let q = quoted(s, &v, false);
    rest.push(format!("role={q}"));
  }
  if !a.opts.is_empty() {
    let k = s.pick(&["opts", "options"]);
    let v = a.opts.join(",");
    let q = quoted(s, &v, false);
    rest.push(format!("{k}={q}"));
  }
  if let Some(id) = &a.id {
    rest.push(format!("id={id}"));
  }
  while !rest.is_empty() {
    let i = s.below(rest.len());
    parts.push(rest.swap_remove(i));
  }
  for (i, p) in parts.iter().enumerate() {
    if i > 0 {
      out.push(',');
      if s.chance(30) {
        out.push(' ');
      }
    }
    out.push_str(p);
  }
}

const VALUES: &[&str] = &["A", "a b", "A & B", "x <y>", "it's", "say \"hi\"", "a, b", "2 > 1", "a -- b", "x...", "ü ñ", "50%", "#1", ".x", "a=b", "*b* _c_", "a/b", "A; B", "(C)", "`c`", "q'r's", "a|b"];

fn value(s: &mut Src) -> String {
  s.pick(VALUES).to_string()
}

fn e(v: &str) -> String {
  v.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;")
}

fn attr(k: &str, v: Option<&str>) -> String {
  v.map_or(String::new(), |v| format!(" {k}=\"{}\"", e(v)))
}

fn class(v: &[&str]) -> String {
  let v: Vec<&str> = v.iter().copied().filter(|c| !c.is_empty()).collect();
  if v.is_empty() { String::new() } else { format!(" class=\"{}\"", v.join(" ")) }
}

#[derive(Default, Clone, Debug)]
struct Env {
  imagesdir: Option<&'static str>,
  icons: Option<&'static str>,
  icontype: Option<&'static str>,
  iconsdir: Option<&'static str>,
  hide: bool,
  /// None: default, Some(""): unset
  caption: Option<&'static str>,
  figures: usize,
  titled_av: bool,
}

impl Env {
  fn uri(t: &str) -> bool {
    t.contains("://")
  }
  fn image_path(&self, t: &str) -> String {
    match self.imagesdir {
      Some(d) if !Env::uri(t) && !t.starts_with('/') => format!("{}/{t}", d.trim_end_matches('/')),
      _ => t.to_string(),
    }
  }
  fn media_path(&self, t: &str) -> String {
    match self.imagesdir {
      Some(d) if !Env::uri(t) => format!("{d}/{t}"),
      _ => t.to_string(),
    }
  }
}

fn dim(s: &mut Src, a: &mut Al, named_only: bool) {
  let v = s.pick(&["300", "20", "50%", "1024"]).to_string();
  let h = s.pick(&["200", "7", "100%"]).to_string();
  match s.below(8) {
    0 => a.set("width", v),
    1 => a.set("height", h),
    2 => {
      a.set("width", v);
      a.set("height", h);
    }
    3 if !named_only && a.pos.len() == 1 => a.pos.push(Some(v)),
    4 if !named_only && a.pos.len() == 1 => {
      a.pos.push(Some(v));
      a.pos.push(Some(h));
    }
    5 if !named_only && a.pos.len() == 1 => {
      a.pos.push(None);
      a.pos.push(Some(h));
    }
    _ => {}
  }
}

fn window(s: &mut Src, a: &mut Al) {
  match s.below(8) {
    0 | 1 => a.set("window", "_blank"),
    2 => a.set("window", "foo"),
    3 => a.set("window", "a&b"),
    _ => {}
  }
  if s.chance(25) {
    a.opts.push("nofollow");
  }
  if s.chance(20) {
    a.opts.push("noopener");
  }
}

fn constraints(a: &Al, caret: bool) -> String {
  let mut out = String::new();
  let mut rel = vec![];
  let window = if caret { Some("_blank") } else { a.get("window") };
  if let Some(w) = window {
    out.push_str(&attr("target", Some(w)));
    if w == "_blank" || a.opt("noopener") {
      rel.push("noopener");
    }
  }
  if a.opt("nofollow") {
    rel.push("nofollow");
  }
  if !rel.is_empty() {
    out.push_str(&format!(" rel=\"{}\"", rel.join(" ")));
  }
  out
}

/// (macro, dr-html, html5s)
type M = (String, String, String);

const IMG: &[&str] = &["a.png", "d/b_c-d.png", "x-y.svg", "https://x.org/i_j.png", "/abs/z.gif", "a.b.jpg", "noext", "UP.PNG", "ü.png"];

fn stem(t: &str) -> String {
  let base = t.rsplit('/').next().unwrap();
  base.rsplit_once('.').map_or(base, |(a, _)| a).replace(['_', '-'], " ")
}

fn image_attrs(s: &mut Src) -> Al {
  let mut a = Al::default();
  if s.chance(55) {
    let v = loop {
      let v = value(s);
      if !["x...", "a -- b", "(C)"].contains(&v.as_str()) {
        break v;
      }
    };
    a.pos.push(Some(v));
  } else if s.chance(30) {
    a.pos.push(None);
  }
  dim(s, &mut a, false);
  if a.pos(0).is_none() && s.chance(50) || s.chance(5) {
    let v = value(s);
    a.set("alt", v);
  }
  if s.chance(20) {
    let v = s.pick(&["left", "right"]);
    a.set("float", v);
  }
  if s.chance(20) {
    let v = s.pick(&["left", "right", "center"]);
    a.set("align", v);
  }
  if s.chance(15) {
    a.set("loading", "lazy");
  }
  for r in ["r1", "b_2", "thumb"] {
    if s.chance(15) {
      a.roles.push(r);
    }
  }
  if s.chance(30) {
    let v = s.pick(&["https://x.org/a?b=1&c=2", "self", "x.html", "#frag", "../y_z.html", "https://x.org/it's"]);
    a.set("link", v);
    window(s, &mut a);
  }
  a
}

fn alt(a: &Al, t: &str) -> String {
  // inlines of a positional value are rendered as their text
  let inlines = |v: &str| match v {
    "*b* _c_" => "b c".to_string(),
    "`c`" => "c".to_string(),
    _ => v.to_string(),
  };
  a.get("alt").map(|v| v.to_string()).or(a.pos(0).map(inlines)).unwrap_or(stem(t))
}

fn img(env: &Env, a: &Al, t: &str) -> String {
  format!(
    "<img src=\"{}\" alt=\"{}\"{}{}",
    e(&env.image_path(t).replace(' ', "%20").replace(',', "%2C")),
    e(&alt(a, t)),
    attr("width", a.get("width").or(a.pos(1))),
    attr("height", a.get("height").or(a.pos(2))),
  )
}

fn image_link(env: &Env, a: &Al, t: &str, inner: &str, more: &str) -> String {
  match a.get("link") {
    Some(l) => {
      let href = if l == "self" { env.image_path(t) } else { l.to_string() };
      format!("<a class=\"image\" href=\"{}\"{}{more}>{inner}</a>", e(&href), constraints(a, false))
    }
    None => inner.to_string(),
  }
}

fn style(a: &Al) -> String {
  let mut v = vec![];
  if let Some(x) = a.get("align") {
    v.push(format!("text-align: {x}"));
  }
  if let Some(x) = a.get("float") {
    v.push(format!("float: {x}"));
  }
  if v.is_empty() { String::new() } else { format!(" style=\"{}\"", v.join("; ")) }
}

fn inline_image(s: &mut Src, env: &Env) -> (Al, M) {
  let t = s.pick(IMG);
  let mut a = image_attrs(s);
  if s.chance(25) {
    let v = value(s);
    a.set("title", v);
  }
  let mut src = format!("image:{t}[");
  write(s, &a, &mut src);
  src.push(']');
  let title = attr("title", a.get("title"));
  let bare = img(env, &a, t);
  let align = a.get("align").map_or(String::new(), |x| format!("text-{x}"));
  let mut classes = vec!["image", a.get("float").unwrap_or(""), &align];
  classes.extend(&a.roles);
  let dr = format!("<span{}>{}</span>", class(&classes), image_link(env, &a, t, &format!("{bare}{title}>"), ""));
  let lazy = if a.get("loading").is_some() { " loading=\"lazy\"" } else { "" };
  let h5 = image_link(env, &a, t, &format!("{bare}{title}{}{}{lazy}>", style(&a), class(&a.roles)), "");
  (a, (src, dr, h5))
}

fn icon(s: &mut Src, env: &Env) -> (Al, M) {
  let t = s.pick(&["tags", "heart-o", "file_x", "a&b"]);
  let mut a = Al::default();
  if s.chance(40) {
    a.pos.push(Some(s.pick(&["2x", "lg", "fw"]).to_string()));
  } else if s.chance(20) {
    a.set("size", "3x");
  }
  if s.chance(30) {
    let v = value(s);
    a.set("alt", v);
  }
  if s.chance(30) {
    let v = value(s);
    a.set("title", v);
  }
  if s.chance(20) {
    a.set("width", "24");
  }
  // (with both, the backends differ)
  match s.below(6) {
    0 => a.set("flip", "vertical"),
    1 => a.set("rotate", "90"),
    _ => {}
  }
  for r in ["r1", "b_2"] {
    if s.chance(20) {
      a.roles.push(r);
    }
  }
  if s.chance(30) {
    let v = s.pick(&["https://x.org/a?b=1&c=2", "x.html", "https://x.org/it's"]);
    a.set("link", v);
    window(s, &mut a);
  }
  let mut src = format!("icon:{t}[");
  write(s, &a, &mut src);
  src.push(']');
  let alt = a.get("alt").unwrap_or(t);
  let title = attr("title", a.get("title"));
  let link = |inner: String| match a.get("link") {
    Some(l) => format!("<a class=\"image\" href=\"{}\"{}>{inner}</a>", e(l), constraints(&a, false)),
    None => inner,
  };
  let roles = |first: &[&str]| {
    let mut v = first.to_vec();
    v.extend(&a.roles);
    class(&v)
  };
  let (d, h) = match env.icons {
    None => (format!("[{}]", e(alt)), format!("<b{}{title}>[{}]</b>", roles(&["icon"]), e(alt))),
    Some("font") => {
      let mut c = vec!["fa".to_string(), format!("fa-{}", e(t))];
      if let Some(x) = a.get("size").or(a.pos(0)) {
        c.push(format!("fa-{x}"));
      }
      if let Some(x) = a.get("flip") {
        c.push(format!("fa-flip-{x}"));
      }
      if let Some(x) = a.get("rotate") {
        c.push(format!("fa-rotate-{x}"));
      }
      let c: Vec<&str> = c.iter().map(|x| x.as_str()).collect();
      (format!("<i{}{title}></i>", class(&c)), format!("<i{}{title}></i>", roles(&c)))
    }
    _ => {
      let src = format!("{}/{t}.{}", env.iconsdir.unwrap_or("./images/icons"), env.icontype.unwrap_or("png"));
      let b = format!("<img src=\"{}\" alt=\"{}\"{}{title}", e(&src), e(alt), attr("width", a.get("width")));
      (format!("{b}>"), format!("{b}{}>", roles(&["icon"])))
    }
  };
  let dr = format!("<span{}>{}</span>", roles(&["icon"]), link(d));
  (a.clone(), (src, dr, link(h)))
}

/// (source, html) of a link text
fn link_text(s: &mut Src, with_attrs: bool) -> (String, String) {
  let (a, b) = s.one(&[
    ("foo", "foo"),
    ("a *b* c", "a <strong>b</strong> c"),
    ("_it_", "<em>it</em>"),
    ("A & B", "A &amp; B"),
    ("x <y>", "x &lt;y&gt;"),
    ("a\nb", "a b"),
    ("`co de`", "<code>co de</code>"),
    ("image:i.png[]", "IMG"),
    ("{r}", "r&amp;s"),
    ("a [b\\] c", "a [b] c"),
    ("don't", "don’t"),
  ]);
  if with_attrs && s.chance(25) {
    return ("\"p, q\"".into(), "p, q".into());
  }
  if a.contains("[]") && with_attrs {
    return ("foo".into(), "foo".into());
  }
  (a.into(), b.into())
}

fn link(s: &mut Src, env: &Env) -> (Al, M) {
  let kind = s.below(6);
  let t = match kind {
    0 | 1 => s.pick(&["https://x.org", "http://x.org/a_b_c?q=1&r=2", "ftp://x.org/~me/", "https://x.org/a(b)/c--d", "irc://x.org/#ch", "https://x.org/*a*/b", "https://x.org/#f-g"]),
    2 => s.pick(&["x.html", "d/y_z_w.html#frag", "../a%20b.pdf", "/root/*x*", "https://x.org/a", "#here", "ü.html"]),
    3 | 4 => s.pick(&["https://x.org", "http://x.org/p?q=1&r=2", "https://x.org/a/b-c", "http://localhost:8080/a;b=2", "https://x.org/a(b)c_d", "ftp://u@x.org/~me/", "https://x.org/a,b!c:d#e-f", "file:///d/e.txt", "https://x.org/dir/"]),
    _ => "https://x.org/z_y_x",
  };
  let mut a = Al::default();
  let shown = if env.hide { t.split_once("://").map_or(t, |(_, r)| r) } else { t };
  // a url alone
  if kind == 3 || kind == 4 {
    let html = format!("<a href=\"{}\" class=\"bare\">{}</a>", e(t), e(shown));
    if kind == 4 {
      return (a, (format!("<{t}>"), html.clone(), html));
    }
    let written = if s.chance(15) { t.replacen("x.org", "{host}", 1) } else { t.to_string() };
    let punct = if s.chance(40) { s.pick(&[".", ",", ";", ":", "?", "!", ").", ")", "),"]) } else { "" };
    let (open, close) = if punct.starts_with(')') { ("(", "") } else { ("", "") };
    let (m1, m2, tag) = s.one(&[("", "", ""), ("", "", ""), ("", "", ""), ("_", "_", "em"), ("*", "*", "strong"), ("`", "`", "code"), ("#", "#", "mark"), ("**", "**", "strong"), ("__", "__", "em")]);
    let src = format!("{open}{m1}{written}{m2}{punct}{close}");
    let inner = if tag.is_empty() { html } else { format!("<{tag}>{html}</{tag}>") };
    let html = format!("{open}{inner}{punct}{close}");
    return (a, (src, html.clone(), html));
  }
  let named = s.chance(50);
  if named {
    if s.chance(40) {
      let v = value(s);
      a.set("title", v);
    }
    for r in ["r1", "b_2", "btn"] {
      if s.chance(25) {
        a.roles.push(r);
      }
    }
    window(s, &mut a);
    if s.chance(20) {
      a.id = Some(format!("l{}", s.below(1000)));
    }
  }
  let has = a.size() > 0 || a.id.is_some();
  let (text, html) = if s.chance(85) { link_text(s, has) } else { Default::default() };
  let caret = !text.is_empty() && s.chance(20) && a.get("window").is_none() && !text.ends_with('"');
  let mut src = if kind == 2 { format!("link:{t}[") } else { format!("{t}[") };
  if kind == 5 {
    src = format!("link:++{t}++[");
  }
  src.push_str(&text);
  if caret {
    src.push('^');
  }
  if has {
    let mut rest = String::new();
    write(s, &a, &mut rest);
    if !text.is_empty() {
      src.push(',');
    }
    src.push_str(&rest);
  }
  src.push(']');
  let mut classes = a.roles.clone();
  if text.is_empty() {
    classes.push("bare");
  }
  let inner = if text.is_empty() { e(shown) } else { html };
  let img_path = env.image_path("i.png");
  let full = |img: String| {
    format!(
      "<a href=\"{}\"{}{}{}{}>{}</a>",
      e(t),
      attr("id", a.id.as_deref()),
      class(&classes),
      attr("title", a.get("title")),
      constraints(&a, caret),
      inner.replace("IMG", &img)
    )
  };
  let bare = format!("<img src=\"{img_path}\" alt=\"i\">");
  let dr = full(format!("<span class=\"image\">{bare}</span>"));
  let h5 = full(bare);
  (a, (src, dr, h5))
}

fn pct(v: &str) -> String {
  v.bytes().map(|b| if b.is_ascii_alphanumeric() || b"-_.~".contains(&b) { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

fn mailto(s: &mut Src) -> (Al, M) {
  let addr = s.pick(&["bob@x.org", "a.b+c@d-e.co", "joe_x@y.net"]);
  let mut a = Al::default();
  if s.chance(20) {
    let html = format!("<a href=\"mailto:{addr}\">{addr}</a>");
    return (a, (addr.to_string(), html.clone(), html));
  }
  let text = if s.chance(80) { s.pick(&["Bob", "Mail me", "A & B"]) } else { "" };
  let mut query = vec![];
  if !text.is_empty() {
    a.pos.push(Some(text.to_string()));
    if s.chance(50) {
      let v = s.pick(&["Hi", "Sub ject", "A & B", "a, b", "50% off", "x=y?", "ü", "a+b"]);
      a.pos.push(Some(v.to_string()));
      query.push(format!("subject={}", pct(v)));
      if s.chance(50) {
        let v = s.pick(&["Body", "bo dy", "C & D", "c, d", "#1"]);
        a.pos.push(Some(v.to_string()));
        query.push(format!("body={}", pct(v)));
      }
    }
  }
  for r in ["r1", "b_2"] {
    if s.chance(20) {
      a.roles.push(r);
    }
  }
  let mut src = format!("mailto:{addr}[");
  write(s, &a, &mut src);
  src.push(']');
  let q = if query.is_empty() { String::new() } else { format!("?{}", query.join("&amp;")) };
  let mut c = a.roles.clone();
  if text.is_empty() && false {
    c.push("bare");
  }
  let html = format!("<a href=\"mailto:{addr}{q}\"{}>{}</a>", class(&c), if text.is_empty() { addr.to_string() } else { e(text) });
  (a, (src, html.clone(), html))
}

fn ui(s: &mut Src) -> (Al, M) {
  let mut a = Al::default();
  let m = match s.below(3) {
    0 => {
      let n = s.range(1, 6);
      let mut keys: Vec<&str> = vec![];
      for i in 0..n {
        let last = i + 1 == n;
        keys.push(if last { s.pick(&["T", "F11", "+", ",", "]", "<", "&", "Del", "\"", "/", "Enter"]) } else { s.pick(&["Ctrl", "Shift", "Alt", "Cmd"]) });
      }
      // runs of `+` may be a passthrough
      let comma = s.chance(25) || keys.last() == Some(&"+") || keys.last() == Some(&"\"");
      let sep = match (comma, s.chance(20)) {
        (true, false) => ",",
        (true, true) => ", ",
        (false, false) => "+",
        (false, true) => " + ",
      };
      let src = keys.join(sep).replace(']', "\\]");
      let d: Vec<String> = keys.iter().map(|k| format!("<kbd>{}</kbd>", e(k))).collect();
      let h: Vec<String> = keys.iter().map(|k| format!("<kbd class=\"key\">{}</kbd>", e(k))).collect();
      let (mut d, mut h) = (d.join("+"), h.join("+"));
      if n > 1 {
        d = format!("<span class=\"keyseq\">{d}</span>");
        h = format!("<kbd class=\"keyseq\">{h}</kbd>");
      }
      (format!("kbd:[{src}]"), d, h)
    }
    1 => {
      let t = s.pick(&["OK", "Save & Go", "a < b", "*b*", "Open...", "it's", "ü", "a, b"]);
      (format!("btn:[{t}]"), format!("<b class=\"button\">{}</b>", e(t)), format!("<kbd class=\"button\"><samp>{}</samp></kbd>", e(t)))
    }
    _ => {
      let n = s.below(6);
      let first = s.pick(&["File", "Edit", "V&W", "Tools"]);
      let items: Vec<&str> = (0..n).map(|_| s.pick(&["Save", "Save As...", "A & B", "New", "*b*", "Zoom, fit", "it's"])).collect();
      let sep = s.pick(&[" > ", ">", " >"]);
      let src = format!("menu:{first}[{}]", items.join(sep));
      let mut d = format!("<span class=\"menuseq\"><b class=\"menu\">{}</b>", e(first));
      let mut h = format!("<kbd class=\"menuseq\"><kbd class=\"menu\"><samp>{}</samp></kbd>", e(first));
      for (i, it) in items.iter().enumerate() {
        let c = if i + 1 == items.len() { "menuitem" } else { "submenu" };
        d.push_str(&format!("\u{a0}<b class=\"caret\">›</b><b class=\"{c}\">{}</b>", e(it)));
        h.push_str(&format!("\u{a0}<span class=\"caret\">›</span> <kbd class=\"menu\"><samp>{}</samp></kbd>", e(it)));
      }
      (src, d + "</span>", h + "</kbd>")
    }
  };
  a.pos.push(None);
  (a, m)
}

/// A block macro, with block title and id: (attributes, source, dr, html5s)
fn block(s: &mut Src, env: &mut Env, id: &str) -> (Al, M) {
  let mut lines = String::new();
  let title = s.chance(40).then(|| s.one(&[("Ti tle", "Ti tle"), ("A & B", "A &amp; B"), ("*b* c", "<strong>b</strong> c"), ("x <y>", "x &lt;y&gt;")]));
  let role = s.chance(20).then_some("blockrole");
  let kind = s.weighted(&[50, 15, 35]);
  let t;
  let mut a;
  let mut block_link = None;
  let name;
  match kind {
    0 => {
      name = "image";
      t = s.pick(IMG);
      a = image_attrs(s);
      if s.chance(10) && a.get("link").is_none() {
        let v = s.pick(&["https://x.org/a?b=1&c=2", "self", "x.html"]);
        block_link = Some(v);
      }
      if title.is_none() && s.chance(20) {
        let v = value(s);
        a.set("title", v);
      }
    }
    1 => {
      name = "audio";
      t = s.pick(&["a.ogg", "d/b_c.mp3", "https://x.org/i.wav"]);
      a = Al::default();
      for o in ["autoplay", "loop", "nocontrols"] {
        if s.chance(30) {
          a.opts.push(o);
        }
      }
    }
    _ => {
      name = "video";
      a = Al::default();
      match s.below(4) {
        0 => {
          t = s.pick(&["abc_DE-1", "a,b,c", "abc/PL_1", "x1"]);
          a.pos.push(Some("youtube".into()));
        }
        1 => {
          t = s.pick(&["12345", "12345/ab12"]);
          a.pos.push(Some("vimeo".into()));
        }
        2 => {
          t = s.pick(&["be5gtsbaco", "12"]);
          a.pos.push(Some("wistia".into()));
        }
        _ => {
          t = s.pick(&["a.mp4", "d/b_c.webm", "https://x.org/i.mp4"]);
          if s.chance(40) {
            a.pos.push(Some(s.pick(&["po.png", "https://x.org/po.png"]).into()));
          } else if s.chance(30) {
            a.set("poster", "q/po.png");
          }
        }
      }
      dim(s, &mut a, false);
      for o in ["autoplay", "loop", "muted", "nocontrols", "nofullscreen", "modest", "related", "reset"] {
        if s.chance(22) {
          a.opts.push(o);
        }
      }
      for (k, v) in [("theme", "light"), ("lang", "fr"), ("list", "PL9"), ("playlist", "u,v"), ("hash", "ff00"), ("preload", "none")] {
        if s.chance(15) {
          a.set(k, v);
        }
      }
    }
  }
  if kind > 0 {
    if s.chance(30) {
      a.set("start", s.pick(&["3", "00:01", "10,20"]));
    }
    if s.chance(30) {
      a.set("end", s.pick(&["5", "00:02:01"]));
    }
  }
  // (the roles of an audio macro's own list are not used)
  if kind == 2 && s.chance(15) {
    a.roles.clear();
  }
  if let Some((t, _)) = &title {
    lines.push_str(&format!(".{t}\n"));
  }
  let mut bl = format!("#{id}");
  if let Some(r) = role {
    bl.push_str(&format!(".{r}"));
  }
  if let Some(l) = block_link {
    let q = quoted(s, l, false);
    bl.push_str(&format!(",link={q}"));
  }
  lines.push_str(&format!("[{bl}]\n{name}::{t}["));
  write(s, &a, &mut lines);
  lines.push(']');
  let mut la = a.clone();
  if let Some(l) = block_link {
    la.set("link", l);
  }
  let a = la;

  let title_html = title.map(|(_, h)| h.to_string()).or(a.get("title").map(e));
  let tag = if title_html.is_some() { "figure" } else { "div" };
  let range = match (a.get("start"), a.get("end")) {
    (None, None) => String::new(),
    (Some(x), None) => format!("#t={x}"),
    (None, Some(y)) => format!("#t=,{y}"),
    (Some(x), Some(y)) => format!("#t={x},{y}"),
  };
  let flag = |o: &str| if a.opt(o) { format!(" {o}=\"\"") } else { String::new() };
  let controls = if a.opt("nocontrols") { "" } else { " controls=\"\"" };
  let dims = format!("{}{}", attr("width", a.get("width").or(a.pos(1))), attr("height", a.get("height").or(a.pos(2))));
  let inner;
  match name {
    "image" => {
      let caption = title_html.as_ref().map(|t| match env.caption {
        Some("") => t.clone(),
        c => {
          env.figures += 1;
          format!("{} {}. {t}", c.unwrap_or("Figure"), env.figures)
        }
      });
      let bare = img(env, &a, t);
      let align = a.get("align").map_or(String::new(), |x| format!("text-{x}"));
      let mut c = vec!["imageblock", a.get("float").unwrap_or(""), &align, role.unwrap_or("")];
      c.extend(&a.roles);
      let dr = format!(
        "<div id=\"{id}\"{}><div class=\"content\">{}</div>{}</div>",
        class(&c),
        image_link(env, &a, t, &format!("{bare}>"), ""),
        caption.as_ref().map_or(String::new(), |c| format!("<div class=\"title\">{c}</div>"))
      );
      let lazy = if a.get("loading").is_some() { " loading=\"lazy\"" } else { "" };
      let more = if a.get("link") == Some("self") || a.get("link") == Some(t) { " aria-label=\"Open the image in full size\"" } else { "" };
      let mut c = vec!["image-block", role.unwrap_or("")];
      c.extend(&a.roles);
      let mut linked = image_link(env, &a, t, &format!("{bare}{lazy}>"), more);
      if !more.is_empty() {
        linked = linked.replacen("class=\"image\"", "class=\"image bare\"", 1);
      }
      let h5 = format!(
        "<{tag} id=\"{id}\"{}{}>{linked}{}</{tag}>",
        class(&c),
        style(&a),
        caption.as_ref().map_or(String::new(), |c| format!("<figcaption>{c}</figcaption>"))
      );
      return (a, (lines, dr, h5));
    }
    "audio" => {
      inner = format!("<audio src=\"{}\"{}{}{controls}>Your browser does not support the audio tag.</audio>", e(&format!("{}{range}", env.media_path(t))), flag("autoplay"), flag("loop"));
    }
    _ if matches!(a.pos(0), Some("youtube" | "vimeo" | "wistia")) => {
      let mut params: Vec<String> = vec![];
      let mut frag = String::new();
      let p = a.pos(0).unwrap();
      let (base, id) = match p {
        "youtube" => {
          if let Some((v, l)) = t.split_once('/') {
            params.push(format!("list={l}"));
            ("https://www.youtube.com/embed/", v.to_string())
          } else if let Some((v, _)) = t.split_once(',') {
            params.push(format!("playlist={t}"));
            ("https://www.youtube.com/embed/", v.to_string())
          } else {
            if let Some(l) = a.get("playlist") {
              params.push(format!("playlist={t},{l}"));
            }
            ("https://www.youtube.com/embed/", t.to_string())
          }
        }
        "vimeo" => {
          if let Some((v, h)) = t.split_once('/') {
            params.push(format!("h={h}"));
            ("https://player.vimeo.com/video/", v.to_string())
          } else {
            ("https://player.vimeo.com/video/", t.to_string())
          }
        }
        _ => ("https://fast.wistia.com/embed/iframe/", t.to_string()),
      };
      let opts: &[(&str, &str)] = match p {
        "youtube" => &[("autoplay", "autoplay=1"), ("muted", "mute=1"), ("modest", "modestbranding=1"), ("loop", "loop=1"), ("nofullscreen", "fs=0"), ("nocontrols", "controls=0")],
        "vimeo" => &[("autoplay", "autoplay=1"), ("muted", "muted=1"), ("loop", "loop=1")],
        _ => &[("autoplay", "autoPlay=true"), ("muted", "muted=true"), ("loop", "endVideoBehavior=loop"), ("reset", "endVideoBehavior=reset")],
      };
      for (o, q) in opts {
        if a.opt(o) {
          params.push(q.to_string());
        }
      }
      if let (Some(h), true) = (a.get("hash"), p == "vimeo" && !t.contains('/')) {
        params.push(format!("h={h}"));
      }
      match (p, a.get("start")) {
        ("youtube", Some(x)) => params.push(format!("start={x}")),
        ("wistia", Some(x)) => params.push(format!("time={x}")),
        ("vimeo", Some(x)) => frag = format!("#at={x}"),
        _ => {}
      }
      if p == "youtube" {
        params.push(format!("rel={}", if a.opt("related") { 1 } else { 0 }));
        for (k, q) in [("theme", "theme"), ("lang", "hl"), ("end", "end")] {
          if let Some(v) = a.get(k) {
            params.push(format!("{q}={v}"));
          }
        }
        // the video's own list has precedence over the attribute
        if let Some(l) = a.get("list") {
          if !t.contains('/') {
            params.push(format!("list={l}"));
          }
        } else if a.opt("loop") && !t.contains(['/', ',']) && a.get("playlist").is_none() {
          params.push(format!("playlist={t}"));
        }
      }
      let q = if params.is_empty() { String::new() } else { format!("?{}", params.join("&")) };
      let full = if a.opt("nofullscreen") { "" } else { " allowfullscreen=\"\"" };
      let w = if p == "wistia" { " class=\"wistia_embed\" name=\"wistia_embed\"" } else { "" };
      inner = format!("<iframe{dims} src=\"{}\" frameborder=\"0\"{full}{w}></iframe>", e(&format!("{base}{id}{q}{frag}")));
    }
    _ => {
      let poster = a.get("poster").or(a.pos(0)).map(|p| env.media_path(p));
      inner = format!(
        "<video src=\"{}\"{dims}{}{}{}{}{}{controls}>Your browser does not support the video tag.</video>",
        e(&format!("{}{range}", env.media_path(t))),
        attr("poster", poster.as_deref()),
        flag("autoplay"),
        flag("muted"),
        flag("loop"),
        attr("preload", a.get("preload")),
      );
    }
  }
  let dr = format!(
    "<div id=\"{id}\"{}>{}<div class=\"content\">{inner}</div></div>",
    class(&[&format!("{name}block"), role.unwrap_or("")]),
    title_html.as_ref().map_or(String::new(), |t| format!("<div class=\"title\">{t}</div>"))
  );
  let h5 = format!(
    "<{tag} id=\"{id}\"{}>{inner}{}</{tag}>",
    class(&[&format!("{name}-block"), role.unwrap_or("")]),
    title_html.as_ref().map_or(String::new(), |t| format!("<figcaption>{t}</figcaption>"))
  );
  env.titled_av |= title_html.is_some();
  (a, (lines, dr, h5))
}

/// One way to write an element whatever the order of what is in it.
fn canon(el: &El, out: &mut String) {
  out.push('<');
  out.push_str(&el.tag);
  let mut attrs: Vec<(String, String)> = vec![];
  for (k, v) in &el.attrs {
    let set = |v: &str, by: char| v.split(by).map(|x| x.trim()).filter(|x| !x.is_empty()).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(&by.to_string());
    let v = match k.as_str() {
      "class" | "rel" => set(v, ' '),
      "style" => set(v, ';'),
      "src" if el.tag == "iframe" => {
        let (v, f) = v.split_once('#').unwrap_or((v, ""));
        match v.split_once('?') {
          Some((a, b)) => {
            let mut q: Vec<&str> = b.split('&').collect();
            q.sort();
            format!("{a}?{}#{f}", q.join("&"))
          }
          None => format!("{v}#{f}"),
        }
      }
      // (that a linked image's title is also the link's is left open)
      "title" if el.is("a", "image") => continue,
      _ => v.clone(),
    };
    attrs.push((k.clone(), v.replace("’", "'")));
  }
  attrs.sort();
  for (k, v) in attrs {
    out.push_str(&format!(" {k}={v:?}"));
  }
  out.push('>');
  kids(&el.kids, out);
  out.push_str("</>");
}

fn kids(k: &[Node], out: &mut String) {
  for n in k {
    match n {
      Node::El(x) => canon(x, out),
      Node::Text(t) => out.push_str(&t.replace(['\n', '\u{200b}'], " ").replace("’", "'")),
    }
  }
}

fn canon_of(html: &str) -> String {
  let mut out = String::new();
  match html::parse(html) {
    Ok(x) => kids(&x.kids, &mut out),
    Err(m) => panic!("model: {m}\n{html}"),
  }
  out.trim().to_string()
}

/// What is between the marks in the element which has them.
fn between(root: &El, i: usize) -> Option<String> {
  let (open, close) = (format!("qq{i} "), format!(" zz{i}"));
  let el = root.find(|x| x.kids.iter().any(|k| matches!(k, Node::Text(t) if t.contains(&open))))?;
  let mut out = String::new();
  kids(&el.kids, &mut out);
  let a = out.find(&open)? + open.len();
  let b = out.rfind(&close)?;
  if b < a {
    return None;
  }
  Some(out[a..b].trim().to_string())
}

fn run(s: &mut Src, cx: &mut Cx) -> Result<(), Fail> {
  let mut env = Env::default();
  let mut doc = String::new();
  let set = |s: &mut Src, doc: &mut String, k: &str, vs: &[&'static str], pc: u32| -> Option<&'static str> {
    if !s.chance(pc) {
      return None;
    }
    let v = s.pick(vs);
    let line = format!(":{k}: {v}");
    doc.push_str(line.trim_end());
    doc.push('\n');
    Some(v)
  };
  doc.push_str(":experimental:\n:r: r&s\n:host: x.org\n");
  env.imagesdir = set(s, &mut doc, "imagesdir", &["img", "../x/y", "https://cdn.org/i", "/abs"], 40);
  env.icons = set(s, &mut doc, "icons", &["font", "image", ""], 60);
  env.icontype = set(s, &mut doc, "icontype", &["svg", "jpg"], 15);
  env.iconsdir = set(s, &mut doc, "iconsdir", &["ico", "https://cdn.org/ic"], 20);
  env.hide = s.chance(15);
  if env.hide {
    doc.push_str(":hide-uri-scheme:\n");
  }
  match s.below(8) {
    0 => {
      doc.push_str(":figure-caption!:\n");
      env.caption = Some("");
    }
    1 => {
      doc.push_str(":figure-caption: Fig\n");
      env.caption = Some("Fig");
    }
    _ => {}
  }
  doc.push('\n');
  let mut want: Vec<(usize, bool, M)> = vec![];
  let mut size = 0;
  let n = s.range(1, 4);
  let mut texts: Vec<String> = vec![];
  for i in 0..n {
    if s.chance(40) {
      let (a, m) = block(s, &mut env, &format!("b{i}"));
      size += a.size();
      let (ctx, src) = match s.below(6) {
        0 => ("example", format!("====\n{}\n====\n\n", m.0)),
        1 => ("item", format!("* item\n+\n{}\n\n//-\n\n", m.0)),
        2 => ("open", format!("--\nfoo\n\n{}\n--\n\n", m.0)),
        3 if !m.0.contains('|') => ("cell", format!("|===\na|\n{}\n|===\n\n", m.0)),
        _ => ("top", format!("{}\n\n", m.0)),
      };
      cx.label(format!("block {ctx}"));
      cx.label(format!("{}::", m.0.split("::").next().unwrap().rsplit('\n').next().unwrap()));
      doc.push_str(&src);
      texts.push(m.0.clone());
      want.push((i, true, m));
    } else {
      let (a, m) = match s.weighted(&[30, 20, 35, 15, 20]) {
        0 => inline_image(s, &env),
        1 => icon(s, &env),
        2 => link(s, &env),
        3 => mailto(s),
        _ => ui(s),
      };
      size += a.size();
      let line = format!("qq{i} {} zz{i}", m.0);
      let ctx = s.below(8);
      cx.label(format!("inline {ctx}"));
      cx.label(m.0.split(['[', ':']).next().unwrap().to_string());
      let src = match ctx {
        0 => format!("* {line}\n\n//-\n\n"),
        1 if !m.0.contains(['|', '\n']) => format!("|===\n|{line}\n|===\n\n"),
        2 => format!("term:: {line}\n\n//-\n\n"),
        3 => format!("aa *bold*\n{line}\nbb _c_\n\n"),
        4 => format!("NOTE: {line}\n\n"),
        5 => format!("____\n{line}\n____\n\n"),
        _ => format!("{line}\n\n"),
      };
      doc.push_str(&src);
      texts.push(m.0.clone());
      want.push((i, false, m));
    }
  }
  let be = if s.chance(50) { Be::Html } else { Be::Html5s };
  cx.case(format!("be={be:?}\n{doc}"));
  cx.nontrivial(size >= 3);
  let mut o = Opts::default().be(be);
  o.safe = asciidork_core::SafeMode::Server;
  let c = convert(&doc, &o);
  if c.html.is_none() {
    fail!("media-nohtml", "no html: {:?}", c.diags);
  }
  ensure!(c.diags.is_empty(), "media-diag", "diagnostics of valid macros: {:?}\n{doc}", c.diags);
  let root = match html::parse(c.html()) {
    Ok(x) => x,
    Err(m) => fail!("media-malformed", "{m}\n{}", c.html()),
  };
  for (i, is_block, m) in &want {
    let exp = canon_of(if be == Be::Html { &m.1 } else { &m.2 });
    let kind = m.0.split("[#").last().unwrap().rsplit('\n').next().unwrap().split([':', '[']).next().unwrap_or("").to_string();
    let kind = if kind.contains(['@', '/', '<']) { "link".into() } else { kind };
    let got = if *is_block {
      let id = format!("b{i}");
      match root.find(|x| x.id() == Some(&id)) {
        Some(x) => {
          let mut o = String::new();
          canon(x, &mut o);
          o
        }
        None => fail!(format!("media-lost-{kind}"), "no element with id {id}\n{}\n{}", m.0, c.html()),
      }
    } else {
      match between(&root, *i) {
        Some(x) => x,
        None => fail!(format!("media-lost-{kind}"), "nothing between the marks {i}\n{}\n{}", m.0, c.html()),
      }
    };
    let _ = &texts;
    ensure!(got == exp, format!("media-{kind}"), "source:   {}\nexpected: {exp}\ngot:      {got}", m.0);
  }
  Ok(())
}
