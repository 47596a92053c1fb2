//! C23: the document header and the standalone page around the content.
use crate::conv::*;
use crate::engine::*;
use crate::html::{self, El, Node};
use crate::{ensure, fail};
use asciidork_core::AttrValue;

pub fn props() -> Vec<Prop> {
  vec![Prop {
    id: "C23",
    run,
    quick: 120_000,
    thorough: 4_000_000,
    rule: "random headers (title, authors, revision, attributes by entry or API, comments), embedded and standalone, against a model of the page; non-trivial: a title and an author, or 4+ attributes",
    assumptions: &["names, dates and attribute values are made of known pieces", "html5s and dr-html layouts of the header as at the pinned commit"],
  }]
}

#[derive(Clone, Debug, Default)]
struct Author {
  first: String,
  middle: Option<String>,
  last: Option<String>,
  email: Option<String>,
}

impl Author {
  fn full(&self) -> String {
    let mut v = vec![self.first.clone()];
    v.extend(self.middle.clone());
    v.extend(self.last.clone());
    v.join(" ")
  }
  fn initials(&self) -> String {
    let mut v = vec![self.first.clone()];
    v.extend(self.middle.clone());
    v.extend(self.last.clone());
    v.iter().filter_map(|n| n.chars().next()).collect()
  }
}

/// (source, text)
fn title(s: &mut Src) -> (String, String) {
  let mut src = vec![];
  let mut text = vec![];
  for i in 0..s.range(1, 4) {
    let (a, b) = s.one(&[
      ("Foo", "Foo"),
      ("bar", "bar"),
      ("*bo*", "bo"),
      ("_it_", "it"),
      ("`co`", "co"),
      ("A&B", "A&B"),
      ("<x>", "<x>"),
      ("\"`q r`\"", "“q r”"),
      ("'`s`'", "‘s’"),
      ("Jerry's", "Jerry'’s"),
      ("https://x.org[li *nk*]", "li nk"),
      ("https://y.org/a", "https://y.org/a"),
      ("H~2~O", "H2O"),
      ("a -- b", "a — b"),
      ("x...", "x..."),
      ("2", "2"),
      ("\\*no*", "*no*"),
      ("kbd:[F1]", "F1"),
      ("ÉTÉ", "ÉTÉ"),
      ("say \"hi\"", "say \"hi\""),
    ]);
    let b = if b == "Jerry'’s" { "Jerry's" } else { b };
    if i == 0 && a.starts_with("2") {
      continue;
    }
    src.push(a);
    text.push(b);
  }
  if src.is_empty() {
    return ("Foo".into(), "Foo".into());
  }
  (src.join(" "), text.join(" "))
}

/// One text whatever way a replacement is written in it.
fn plain(t: &str) -> String {
  // (html5s has the quotes of the language)
  t.replace(['„', '“', '”'], "\"").replace(['‚', '’', '‘'], "'").replace(['\u{2009}', '\u{200a}'], " ").replace('–', "—").replace("…", "...").replace('\u{200b}', "").split_whitespace().collect::<Vec<_>>().join(" ")
}

fn author(s: &mut Src, first: bool) -> (String, Author) {
  let one = |s: &mut Src| -> (String, String) {
    let a = s.one(&["Bob", "Al", "A.", "B.", "O-Neil", "Tomás", "Ann_Marie", "Jr.", "van", "Élan", "de_la_X", "J.R.", "X2", "Ω", "MacFoo"]);
    (a.to_string(), a.replace('_', " "))
  };
  let n = s.weighted(&[0, 15, 55, 20, 10]);
  let mut src = vec![];
  let mut names = vec![];
  for _ in 0..n {
    let (a, b) = one(s);
    src.push(a);
    names.push(b);
  }
  if first && !src[0].starts_with(|c: char| c.is_ascii_alphabetic()) {
    src[0] = "Zed".into();
    names[0] = "Zed".into();
  }
  let gap = if s.chance(10) { "  " } else { " " };
  let mut line = src.join(gap);
  let mut a = Author { first: names[0].clone(), ..Default::default() };
  if n > 1 {
    a.last = Some(names[n - 1].clone());
  }
  if n > 2 {
    // as written: several names keep what is between them
    a.middle = Some(names[1..n - 1].join(" "));
  }
  if s.chance(45) {
    let e = s.pick(&["a@b.org", "x.y+z@w-1.co", "bob_2@foo.com", "o'x@y.zz"]).to_string();
    line.push_str(&format!("{gap}<{e}>"));
    a.email = Some(e);
  }
  (line, a)
}

fn value(s: &mut Src) -> String {
  s.pick(&["one", "two words", "a & b", "a \"q\" b", "x <y> z", "it's", "a, b", "é", "1.0"]).to_string()
}

#[derive(Default, Debug)]
struct Model {
  title: Option<String>,
  authors: Vec<Author>,
  rev: [Option<String>; 3],
  iso: Option<String>,
  attrs: Vec<(&'static str, Option<String>)>,
}

impl Model {
  fn get(&self, k: &str) -> Option<&str> {
    self.attrs.iter().find(|a| a.0 == k).and_then(|a| a.1.as_deref())
  }
  fn on(&self, k: &str) -> bool {
    self.get(k).is_some()
  }
  fn off(&self, k: &str) -> bool {
    self.attrs.iter().any(|a| a.0 == k && a.1.is_none())
  }
}

fn run(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = if s.chance(50) { Be::Html } else { Be::Html5s };
  let embedded = s.chance(25);
  let mut o = Opts::default().be(be);
  o.embedded = embedded;
  if s.chance(90) {
    o.attrs.push(("stylesheet".into(), AttrValue::Bool(false), true));
  }
  let mut m = Model::default();
  let mut lines: Vec<String> = vec![];

  // the attributes, by entry or by the API
  let names = [
    "description", "keywords", "copyright", "app-name", "lang", "nolang", "encoding", "reproducible", "css-signature",
    "favicon", "noheader", "nofooter", "notitle", "showtitle", "title", "max-width", "toc", "doctype", "version-label",
    "revnumber", "revdate", "revremark", "other",
  ];
  let mut entries: Vec<(&'static str, String)> = vec![];
  let mut rev_entry = false;
  for k in names {
    let pct = match k {
      "notitle" | "showtitle" => 25,
      "revnumber" | "revdate" | "revremark" => 6,
      _ => 10,
    };
    // the two of them are one switch
    if !s.chance(pct) || (k == "showtitle" && m.attrs.iter().any(|a| a.0 == "notitle")) {
      continue;
    }
    let flag = matches!(k, "nolang" | "reproducible" | "noheader" | "nofooter" | "notitle" | "showtitle");
    let v = match k {
      _ if flag => (!s.chance(30)).then(String::new),
      "lang" => Some(s.pick(&["de", "en-GB", "e\"n"]).to_string()),
      "encoding" => Some("ISO-8859-1".to_string()),
      "css-signature" => Some(s.pick(&["sig", "a-b"]).to_string()),
      "favicon" => Some(s.pick(&["", "img/fav.png", "./x.svg", "a&b.ico", "plain"]).to_string()),
      "max-width" => Some(s.pick(&["50em", "800px"]).to_string()),
      "toc" => Some(s.pick(&["", "left", "right", "auto"]).to_string()),
      "doctype" => Some(s.pick(&["article", "book"]).to_string()),
      "version-label" => (!s.chance(20)).then(|| s.pick(&["Edition", "A & B"]).to_string()),
      "revnumber" => Some(s.pick(&["3.1", "v4", "9"]).to_string()),
      _ => Some(value(s)),
    };
    rev_entry |= k.starts_with("rev");
    m.attrs.push((k, v.clone()));
    if s.chance(35) && !k.starts_with("rev") && k != "doctype" {
      let x = match v {
        None => AttrValue::Bool(false),
        Some(x) if x.is_empty() => AttrValue::Bool(true),
        Some(x) => AttrValue::String(x),
      };
      // an entry in the document doesn't matter then
      if s.chance(20) && !flag {
        entries.push((k, format!(":{k}: ignored")));
      }
      o.attrs.push((k.to_string(), x, true));
    } else {
      let e = match v {
        None if s.chance(50) => format!(":!{k}:"),
        None => format!(":{k}!:"),
        Some(x) if x.is_empty() => format!(":{k}:"),
        Some(x) => format!(":{k}: {x}"),
      };
      entries.push((k, e));
    }
  }

  // before the title
  let early = s.range(0, entries.len());
  // revision attributes have to come after the revision line
  for (k, e) in entries.iter().take(early) {
    if !k.starts_with("rev") {
      lines.push(e.clone());
      if s.chance(15) {
        lines.push(s.pick(&["// comment", "", "////\n= block\n////\n"]).to_string());
      }
    }
  }
  if s.chance(15) {
    lines.insert(0, s.pick(&["// comment", "", "////\nblock\n\n:x: y\n////", "//"]).to_string());
  }

  if s.chance(85) {
    let (src, text) = title(s);
    m.title = Some(text);
    if s.chance(8) {
      lines.push(s.pick(&["[.role]", "[role=x]"]).to_string());
    }
    lines.push(format!("{} {src}", s.pick(&["=", "=", "=", "#"])));
    if s.chance(12) {
      lines.push("// comment".into());
    }
    if s.chance(60) {
      let mut line = String::new();
      for i in 0..s.weighted(&[0, 56, 22, 12, 6, 4]) {
        let (a, b) = author(s, i == 0);
        if i > 0 {
          line.push_str(s.pick(&["; ", ";", " ; "]));
        }
        line.push_str(&a);
        m.authors.push(b);
      }
      if s.chance(8) {
        line.push(';');
      }
      lines.push(line);
      if s.chance(12) {
        lines.push("// comment".into());
      }
      if s.chance(60) && !rev_entry {
        let num = s.pick(&["1.0", "2", "7.5.1-rc1", "3.x", "10"]);
        let (date, iso) = s.one(&[
          ("2024-01-02", "2024-01-02"),
          ("October 31, 2021", "2021-10-31"),
          ("2021-12-31", "2021-12-31"),
          ("someday & soon", "someday & soon"),
          ("02/03/2004", "2004-02-03"),
        ]);
        let gap = s.pick(&[" ", " ", "  "]);
        let remark = s.pick(&["Fall incarnation", "a: b", "x & <y>", "r", "a, b"]);
        let pre = s.pick(&["v", "", "LPR", "v", "Version-"]);
        let (line, n, d, r) = match s.below(6) {
          0 => (format!("v{num}"), true, false, false),
          1 => ("2023-04-05".to_string(), false, true, false),
          2 => (format!("{pre}{num},{gap}{date}"), true, true, false),
          3 => (format!("{pre}{num}:{gap}{remark}"), true, false, true),
          4 => (format!("v{num},{date}:{gap}{remark}"), true, true, true),
          _ => (format!("{pre}{num}, {date}:{gap}{remark}"), true, true, true),
        };
        let (date, iso) = if n { (date, iso) } else { ("2023-04-05", "2023-04-05") };
        m.rev = [n.then(|| num.to_string()), d.then(|| date.to_string()), r.then(|| remark.to_string())];
        m.iso = d.then(|| iso.to_string());
        lines.push(line);
        if s.chance(10) {
          lines.push("// comment".into());
        }
      }
    }
  } else if !lines.is_empty() {
    // nothing to end the header before
  }
  for (i, k) in ["revnumber", "revdate", "revremark"].iter().enumerate() {
    if let Some(v) = m.get(k).map(|v| v.to_string()) {
      if i == 1 {
        m.iso = None; // not judged
      }
      m.rev[i] = Some(v);
    }
  }
  if m.authors.is_empty() && s.chance(25) {
    let (line, mut a) = author(s, false);
    let line = line.split(" <").next().unwrap().trim_end().to_string();
    a.email = None;
    lines.push(format!(":author: {line}"));
    if s.chance(40) {
      lines.push(":email: x@y.org".into());
      a.email = Some("x@y.org".into());
    }
    m.authors.push(a);
  }
  for (i, (k, e)) in entries.iter().enumerate() {
    if i >= early || k.starts_with("rev") {
      lines.push(e.clone());
      if s.chance(8) {
        lines.push("// comment".into());
      }
    }
  }
  if lines.iter().any(|l| !l.is_empty()) {
    lines.push(String::new());
  }

  // the content: what the attributes say
  let mut refs: Vec<(String, String)> = vec![];
  for (i, a) in m.authors.iter().enumerate() {
    let mut put = |k: &str, v: Option<String>| {
      let v2 = v.clone();
      if i == 0 {
        refs.push((k.to_string(), v.unwrap_or_else(|| format!("{{{k}}}"))));
      }
      let k = format!("{k}_{}", i + 1);
      refs.push((k.clone(), v2.unwrap_or_else(|| format!("{{{k}}}"))));
    };
    put("author", Some(a.full()));
    put("firstname", Some(a.first.clone()));
    put("middlename", a.middle.clone());
    put("lastname", a.last.clone());
    put("authorinitials", Some(a.initials()));
    if m.authors.len() > 1 || !lines.iter().any(|l| l.starts_with(":email:")) {
      put("email", a.email.clone());
    }
  }
  if !m.authors.is_empty() {
    refs.push(("authors".into(), m.authors.iter().map(|a| a.full()).collect::<Vec<_>>().join(", ")));
  }
  for (i, k) in ["revnumber", "revdate", "revremark"].iter().enumerate() {
    refs.push((k.to_string(), m.rev[i].clone().unwrap_or_else(|| format!("{{{k}}}"))));
  }
  if let Some(v) = m.get("description") {
    refs.push(("description".into(), v.into()));
  }
  let mut want = vec![];
  let mut body = vec![];
  for (k, v) in &refs {
    body.push(format!("r-[{{{k}}}]-"));
    want.push(format!("r-[{v}]-"));
  }
  body.push("end".into());
  want.push("end".into());
  lines.push(body.join(" "));
  let src = lines.join("\n");
  cx.case(format!("{be:?} embedded={embedded} {:?}\n{src}", o.attrs.iter().map(|a| format!("{}={:?}", a.0, a.1)).collect::<Vec<_>>()));
  cx.nontrivial((m.title.is_some() && !m.authors.is_empty()) || m.attrs.len() >= 4);
  cx.label_if(!m.authors.is_empty(), "authors");
  cx.label_if(m.rev.iter().any(|r| r.is_some()), "revision");
  cx.label(if embedded { "embedded" } else { "standalone" });

  let c = convert(&src, &o);
  ensure!(c.diags.is_empty(), "reports", "{}", c.diags[0].plain_text());
  let root = html::parse(c.html()).map_err(|e| Fail::new("html", e))?;
  let want_body = plain(&want.join(" "));
  let para = |kids: &[&El]| -> Outcome {
    ensure!(kids.len() == 1, "content", "{} blocks: {}", kids.len(), c.html());
    let got = plain(&kids[0].text());
    ensure!(got == want_body, "attributes", "{got:?}\nnot {want_body:?}");
    Ok(())
  };
  let shows = |e: &El| m.title.as_ref().is_some_and(|t| e.tag == "h1" && plain(&e.text()) == plain(t));

  if embedded {
    let mut kids = root.els();
    let wanted = m.title.is_some() && !m.on("noheader") && !m.on("notitle") && !m.off("showtitle") && (m.on("showtitle") || m.off("notitle"));
    if wanted {
      ensure!(!kids.is_empty() && shows(kids[0]), "title", "{}", c.html());
      kids.remove(0);
    }
    return para(&kids);
  }

  let page = match root.els()[..] {
    [h] if h.tag == "html" => h,
    _ => fail!("page", "{}", c.html()),
  };
  let lang = if m.on("nolang") { None } else { Some(m.get("lang").unwrap_or("en")) };
  ensure!(page.attr("lang") == lang, "lang", "{:?}, not {lang:?}", page.attr("lang"));
  let (head, body) = match page.els()[..] {
    [h, b] if h.tag == "head" && b.tag == "body" => (h, b),
    _ => fail!("page", "{}", c.html()),
  };

  // head
  let el = |tag: &str, attrs: &[(&str, &str)], text: &str| El {
    tag: tag.into(),
    attrs: attrs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
    kids: if text.is_empty() { vec![] } else { vec![Node::Text(text.into())] },
  };
  let mut heads = vec![
    el("meta", &[("charset", m.get("encoding").unwrap_or("UTF-8"))], ""),
    el("meta", &[("http-equiv", "X-UA-Compatible"), ("content", "IE=edge")], ""),
    el("meta", &[("name", "viewport"), ("content", "width=device-width, initial-scale=1.0")], ""),
  ];
  if !m.on("reproducible") {
    heads.push(el("meta", &[("name", "generator"), ("content", "Asciidork")], ""));
  }
  for (k, name) in [("app-name", "application-name"), ("description", "description"), ("keywords", "keywords"), ("copyright", "copyright")] {
    if let Some(v) = m.get(k) {
      heads.push(el("meta", &[("name", name), ("content", &plain(v))], ""));
    }
  }
  match m.get("favicon") {
    Some("") => heads.push(el("link", &[("rel", "icon"), ("type", "image/x-icon"), ("href", "favicon.ico")], "")),
    Some(f) => {
      let ty = match f.rsplit_once('.') {
        Some((_, e)) => format!("image/{e}"),
        None => "image/ico".into(),
      };
      heads.push(el("link", &[("rel", "icon"), ("type", &ty), ("href", f)], ""));
    }
    None => {}
  }
  if !m.authors.is_empty() {
    let all = m.authors.iter().map(|a| a.full()).collect::<Vec<_>>().join(", ");
    heads.push(el("meta", &[("name", "author"), ("content", &plain(&all))], ""));
  }
  let t = m.get("title").map(|t| t.to_string()).or(m.title.clone()).unwrap_or_else(|| "Untitled".into());
  heads.push(el("title", &[], &plain(&t)));
  let got: Vec<El> = head
    .els()
    .into_iter()
    .filter(|e| e.tag != "style" && !(e.tag == "link" && e.attr("rel") == Some("stylesheet")))
    .map(|e| if e.tag == "title" { el("title", &[], &plain(&e.text())) } else { e.clone() })
    .map(|mut e| {
      e.attrs.iter_mut().for_each(|a| a.1 = plain(&a.1));
      e
    })
    .collect();
  for (i, w) in heads.iter().enumerate() {
    ensure!(got.get(i) == Some(w), format!("head {}", w.attr("name").unwrap_or(&w.tag)), "{}\nnot {}", got.get(i).map_or("none".into(), |g| g.show()), w.show());
  }
  ensure!(got.len() == heads.len(), "head", "also {}", got[heads.len()].show());

  // body
  let mut class = m.get("doctype").unwrap_or("article").to_string();
  match m.get("toc") {
    Some("left") => class.push_str(" toc2 toc-left"),
    Some("right") => class.push_str(" toc2 toc-right"),
    _ => {}
  }
  ensure!(body.attr("class") == Some(class.as_str()), "body class", "{:?}, not {class:?}", body.attr("class"));
  ensure!(body.id() == m.get("css-signature"), "body id", "{:?}", body.id());
  let width = m.get("max-width").map(|w| format!("max-width: {w};"));
  let wide = |e: &El, yes: bool| -> Outcome {
    let want = if yes { width.as_deref() } else { None };
    ensure!(e.attr("style") == want, "width", "{:?}, not {want:?} on {}", e.attr("style"), e.tag);
    Ok(())
  };
  wide(body, be == Be::Html5s)?;

  let mut kids = body.els();
  let is = |e: &El, div: &str, tag: &str| if be == Be::Html { e.tag == "div" && e.id() == Some(div) } else { e.tag == tag && (tag != "div" || e.id() == Some(div)) };
  if !m.on("noheader") {
    ensure!(!kids.is_empty() && is(kids[0], "header", "header"), "header", "{}", body.show());
    let h = kids.remove(0);
    wide(h, be == Be::Html)?;
    header(be, &m, h, &shows)?;
  }
  ensure!(!kids.is_empty() && is(kids[0], "content", "div"), "content", "{}", body.show());
  let content = kids.remove(0);
  wide(content, be == Be::Html)?;
  para(&content.els())?;
  if !m.on("nofooter") {
    ensure!(!kids.is_empty() && is(kids[0], "footer", "footer"), "footer", "{}", body.show());
    let f = kids.remove(0);
    wide(f, be == Be::Html)?;
    let label = if m.off("version-label") { "" } else { m.get("version-label").unwrap_or("Version") };
    let want = m.rev[0].as_ref().map_or(String::new(), |n| format!("{label} {n}"));
    ensure!(plain(&f.text()) == plain(&want), "footer", "{:?}, not {want:?}", f.text());
  }
  ensure!(kids.is_empty(), "page", "also {}", kids[0].show());
  Ok(())
}

fn header(be: Be, m: &Model, h: &El, shows: &dyn Fn(&El) -> bool) -> Outcome {
  let mut kids = h.els();
  if m.title.is_some() && !m.on("notitle") && !m.off("showtitle") {
    ensure!(!kids.is_empty() && shows(kids[0]), "title", "{}", h.show());
    kids.remove(0);
  }
  if m.authors.is_empty() && m.rev.iter().all(|r| r.is_none()) {
    ensure!(kids.is_empty(), "header", "also {}", kids[0].show());
    return Ok(());
  }
  ensure!(kids.len() == 1 && kids[0].is("div", "details"), "details", "{}", h.show());
  let d = kids[0];
  let mut got: Vec<(String, String, String)> = vec![];
  for e in d.els() {
    if e.tag == "br" {
      continue;
    }
    if e.has_class("email") {
      let a = match e.els()[..] {
        [a] if a.tag == "a" => a,
        _ => fail!("email", "{}", e.show()),
      };
      ensure!(a.attr("href") == Some(format!("mailto:{}", a.text()).as_str()), "email", "{}", e.show());
    }
    got.push((e.tag.clone(), e.id().unwrap_or("").to_string(), plain(&e.text())));
    if e.tag == "time" {
      let want = m.iso.as_deref().or(e.attr("datetime"));
      ensure!(e.attr("datetime") == want, "date", "{:?}, not {want:?}", e.attr("datetime"));
    }
  }
  let mut want = vec![];
  for (i, a) in m.authors.iter().enumerate() {
    let n = if i == 0 { String::new() } else { (i + 1).to_string() };
    want.push(("span".to_string(), format!("author{n}"), plain(&a.full())));
    if let Some(e) = &a.email {
      want.push(("span".to_string(), format!("email{n}"), plain(e)));
    }
  }
  let label = if m.off("version-label") { "" } else { m.get("version-label").unwrap_or("Version") };
  if let Some(n) = &m.rev[0] {
    let comma = if m.rev[1].is_some() { "," } else { "" };
    want.push(("span".to_string(), "revnumber".to_string(), plain(&format!("{} {n}{comma}", label.to_lowercase()))));
  }
  if let Some(x) = &m.rev[1] {
    want.push((if be == Be::Html { "span" } else { "time" }.to_string(), "revdate".to_string(), plain(x)));
  }
  if let Some(x) = &m.rev[2] {
    want.push(("span".to_string(), "revremark".to_string(), plain(x)));
  }
  ensure!(got == want, "details", "{got:?}\nnot {want:?}");
  Ok(())
}
