//! Reads the semantic tree back out of the HTML.
use crate::generate::S;
use crate::html::*;

pub fn norm(s: &str) -> String {
  s.split_whitespace().collect::<Vec<_>>().join(" ")
}

const FRAMEWORK: &[&str] = &[
  "paragraph", "listingblock", "literalblock", "sidebarblock", "exampleblock", "quoteblock",
  "verseblock", "openblock", "admonitionblock", "ulist", "olist", "dlist", "hdlist", "qlist",
  "qanda", "colist", "arabic", "imageblock", "tableblock", "checklist", "abstract", "glossary",
  "note", "tip", "important", "warning", "caution", "sect0", "sect1", "sect2", "sect3", "sect4",
  "sect5", "frame-all", "grid-all", "stretch", "fit-content", "arabic", "loweralpha", "lowerroman", "upperalpha",
  "upperroman", "decimal", "lowergreek", "square", "circle", "disc", "none", "no-bullet", "unstyled",
  "halign-left", "halign-right", "halign-center", "valign-top", "valign-middle", "valign-bottom",
  "content", "stemblock", "bibliography", "toc", "discrete",
];

pub struct Dr;

fn roles(e: &El) -> Vec<String> {
  e.classes().iter().filter(|c| !FRAMEWORK.contains(c)).map(|c| c.to_string()).collect()
}

fn base(k: &str, e: &El) -> S {
  S { k: k.into(), id: e.id().map(|s| s.to_string()), roles: roles(e), ..S::default() }
}

/// Splits off a leading `div.title`.
fn split_title<'a>(kids: &'a [Node]) -> (Option<String>, Vec<&'a Node>) {
  let mut v: Vec<&Node> = kids.iter().collect();
  if let Some(Node::El(e)) = v.first()
    && e.is("div", "title")
  {
    let t = norm(&e.text());
    v.remove(0);
    return (Some(t), v);
  }
  (None, v)
}

/// Content that is either inline text or blocks.
fn content(s: &mut S, nodes: &[&Node]) {
  let inline = |n: &Node| match n {
    Node::Text(t) => !t.trim().is_empty(),
    Node::El(e) => matches!(
      e.tag.as_str(),
      "strong" | "em" | "code" | "mark" | "span" | "a" | "sub" | "sup" | "br" | "img" | "b" | "i" | "kbd"
    ),
  };
  if nodes.iter().any(|n| inline(n)) {
    if nodes.iter().all(|n| inline(n) || matches!(n, Node::Text(_))) {
      let e = El { tag: String::new(), attrs: vec![], kids: nodes.iter().map(|n| (*n).clone()).collect() };
      s.text = Some(norm(&e.text()));
    } else {
      for n in nodes {
        match n {
          Node::Text(t) if t.trim().is_empty() => {}
          Node::Text(t) => s.kids.push(S::new("?text").text(norm(t))),
          Node::El(e) => s.kids.push(block(e)),
        }
      }
    }
    return;
  }
  for n in nodes {
    if let Node::El(e) = n {
      s.kids.push(block(e));
    }
  }
}

pub fn doc(root: &El) -> S {
  let mut s = S::new("doc");
  content(&mut s, &root.kids.iter().collect::<Vec<_>>());
  s
}

fn unknown(e: &El) -> S {
  S::new("?").text(e.show().chars().take(120).collect::<String>())
}

fn verb_text(e: &El) -> String {
  e.text()
}

fn only<'a>(nodes: &[&'a Node]) -> Option<&'a El> {
  let els: Vec<&El> = nodes.iter().filter_map(|n| match n { Node::El(e) => Some(e), _ => None }).collect();
  let text = nodes.iter().any(|n| matches!(n, Node::Text(t) if !t.trim().is_empty()));
  if els.len() == 1 && !text { Some(els[0]) } else { None }
}

pub fn block(e: &El) -> S {
  let (title, rest) = split_title(&e.kids);
  let with = |mut s: S| {
    s.title = title.clone();
    s
  };
  match e.tag.as_str() {
    "div" if e.has_class("paragraph") => {
      let mut s = with(base("para", e));
      match only(&rest) {
        Some(p) if p.tag == "p" && p.attrs.is_empty() => s.text = Some(norm(&p.text())),
        _ => return unknown(e),
      }
      s
    }
    "div" if e.has_class("listingblock") || e.has_class("literalblock") => {
      let mut s = with(base(if e.has_class("listingblock") { "listing" } else { "literal" }, e));
      let Some(c) = only(&rest).filter(|c| c.is("div", "content")) else { return unknown(e) };
      let kids: Vec<&Node> = c.kids.iter().collect();
      let Some(pre) = only(&kids).filter(|p| p.tag == "pre") else { return unknown(e) };
      if pre.has_class("highlight") {
        let Some(code) = pre.els().into_iter().next().filter(|c| c.tag == "code") else { return unknown(e) };
        let lang = code.attr("data-lang").unwrap_or("");
        let cls = code.attr("class").unwrap_or("");
        if !lang.is_empty() && cls != format!("language-{lang}") {
          return unknown(e);
        }
        s = s.at("source", lang);
      }
      s.text = Some(verb_text(pre));
      s
    }
    "div" if e.has_class("verseblock") => {
      let mut s = with(base("verse", e));
      let mut rest = rest;
      take_attribution(&mut s, &mut rest);
      let Some(pre) = only(&rest).filter(|p| p.is("pre", "content")) else { return unknown(e) };
      s.text = Some(pre.text());
      s
    }
    "div" if e.has_class("quoteblock") => {
      let mut s = with(base(if e.has_class("abstract") { "abstract" } else { "quote" }, e));
      let mut rest = rest;
      take_attribution(&mut s, &mut rest);
      let Some(q) = only(&rest).filter(|p| p.tag == "blockquote") else { return unknown(e) };
      content(&mut s, &q.kids.iter().collect::<Vec<_>>());
      s
    }
    "div" if e.has_class("sidebarblock") => {
      let mut s = base("sidebar", e);
      let Some(c) = only(&rest).filter(|c| c.is("div", "content")) else { return unknown(e) };
      let (t, r) = split_title(&c.kids);
      s.title = t;
      content(&mut s, &r);
      s
    }
    "div" if e.has_class("exampleblock") || e.has_class("openblock") => {
      let mut s = with(base(if e.has_class("exampleblock") { "example" } else { "open" }, e));
      let Some(c) = only(&rest).filter(|c| c.is("div", "content")) else { return unknown(e) };
      content(&mut s, &c.kids.iter().collect::<Vec<_>>());
      s
    }
    "details" => {
      let mut s = base("collapsible", e);
      if e.attr("open").is_some() {
        s = s.at("open", "");
      }
      let els = e.els();
      if els.len() != 2 || !els[0].is("summary", "title") || !els[1].is("div", "content") {
        return unknown(e);
      }
      s.title = Some(norm(&els[0].text()));
      content(&mut s, &els[1].kids.iter().collect::<Vec<_>>());
      s
    }
    "div" if e.has_class("admonitionblock") => {
      let kind = e.classes().into_iter().find(|c| ["note", "tip", "important", "warning", "caution"].contains(c));
      let mut s = base("admon", e).at("kind", kind.unwrap_or("?"));
      let Some(tr) = only(&rest).and_then(|t| only(&t.kids.iter().collect::<Vec<_>>())) else { return unknown(e) };
      let els = tr.els();
      if els.len() != 2 || !els[0].is("td", "icon") || !els[1].is("td", "content") {
        return unknown(e);
      }
      let label = norm(&els[0].text());
      if !label.is_empty() && label.to_lowercase() != kind.unwrap_or("?") {
        s = s.at("label", label);
      }
      let (t, r) = split_title(&els[1].kids);
      s.title = t;
      content(&mut s, &r);
      s
    }
    "div" if e.has_class("ulist") || e.has_class("olist") => {
      let un = e.has_class("ulist");
      let mut s = with(base(if un { "ulist" } else { "olist" }, e));
      let Some(l) = only(&rest).filter(|l| l.tag == if un { "ul" } else { "ol" }) else { return unknown(e) };
      if un {
        if let Some(st) = l.classes().iter().find(|c| **c != "checklist") {
          s = s.at("style", *st);
        }
        if e.has_class("checklist") != l.has_class("checklist") {
          return unknown(e);
        }
        if e.has_class("checklist") {
          s = s.at("checklist", "");
        }
      } else {
        let st = l.attr("class").unwrap_or("");
        if !e.has_class(st) {
          return unknown(e);
        }
        let ty = match st {
          "loweralpha" => Some("a"),
          "upperalpha" => Some("A"),
          "lowerroman" => Some("i"),
          "upperroman" => Some("I"),
          _ => None,
        };
        if l.attr("type") != ty {
          return unknown(l);
        }
        s = s.at("style", st);
        if let Some(x) = l.attr("start") {
          s = s.at("start", x);
        }
        if l.attr("reversed").is_some() {
          s = s.at("reversed", "");
        }
      }
      for k in &l.kids {
        match k {
          Node::El(li) if li.tag == "li" => s.kids.push(item(li)),
          Node::Text(t) if t.trim().is_empty() => {}
          _ => return unknown(e),
        }
      }
      s
    }
    "div" if e.has_class("dlist") => {
      let mut s = with(base("dlist", e));
      let Some(dl) = only(&rest).filter(|l| l.tag == "dl") else { return unknown(e) };
      let mut cur: Option<S> = None;
      for x in dl.els() {
        match x.tag.as_str() {
          "dt" => {
            if cur.as_ref().is_none_or(|c| c.kids.last().is_some_and(|k| k.k == "dd")) {
              s.kids.extend(cur.take());
              cur = Some(S::new("item"));
            }
            cur.as_mut().unwrap().kids.push(S::new("dt").text(norm(&x.text())));
          }
          "dd" => {
            let Some(c) = cur.as_mut() else { return unknown(e) };
            c.kids.push(dd(x));
          }
          _ => return unknown(e),
        }
      }
      s.kids.extend(cur);
      // terms without a description are items of their own
      s.kids = s.kids.into_iter().flat_map(split_terms).collect();
      s
    }
    "div" if e.has_class("hdlist") => {
      let mut s = with(base("hdlist", e));
      let Some(t) = only(&rest).filter(|l| l.tag == "table") else { return unknown(e) };
      for tr in t.els() {
        let els = tr.els();
        if tr.tag == "colgroup" {
          continue;
        }
        if tr.tag != "tr" || els.is_empty() || els.len() > 2 || !els[0].is("td", "hdlist1") {
          return unknown(e);
        }
        let mut it = S::new("item");
        let mut cur = vec![];
        for k in &els[0].kids {
          match k {
            Node::El(b) if b.tag == "br" => {
              it.kids.push(S::new("dt").text(norm(&El { kids: std::mem::take(&mut cur), ..El::default() }.text())));
            }
            k => cur.push(k.clone()),
          }
        }
        it.kids.push(S::new("dt").text(norm(&El { kids: cur, ..El::default() }.text())));
        if els.len() == 2 {
          if !els[1].is("td", "hdlist2") {
            return unknown(e);
          }
          let d = dd(els[1]);
          if d.text.is_some() || !d.kids.is_empty() {
            it.kids.push(d);
          }
        }
        s.kids.push(it);
      }
      s
    }
    "div" if e.has_class("qlist") => {
      let mut s = with(base("qlist", e));
      let Some(ol) = only(&rest).filter(|l| l.tag == "ol") else { return unknown(e) };
      for li in ol.els() {
        if li.tag != "li" {
          return unknown(e);
        }
        let mut it = S::new("item");
        let mut rest: Vec<&Node> = li.kids.iter().collect();
        while let Some(Node::El(p)) = rest.first() {
          let kids: Vec<&Node> = p.kids.iter().collect();
          match only(&kids) {
            Some(em) if p.tag == "p" && p.attrs.is_empty() && em.tag == "em" && em.attrs.is_empty() => {
              it.kids.push(S::new("dt").text(norm(&em.text())));
              rest.remove(0);
            }
            _ => break,
          }
        }
        let fake = El { tag: "dd".into(), kids: rest.into_iter().cloned().collect(), ..El::default() };
        let d = dd(&fake);
        if d.text.is_some() || !d.kids.is_empty() {
          it.kids.push(d);
        }
        s.kids.push(it);
      }
      s
    }
    "div" if e.has_class("colist") => {
      let mut s = with(base("colist", e));
      for li in e.all(|x| x.tag == "li") {
        s.kids.push(item(li));
      }
      s
    }
    "div" if e.has_class("imageblock") => {
      let mut s = base("image", e);
      let els = e.els();
      let Some(img) = e.find(|x| x.tag == "img") else { return unknown(e) };
      s = s.at("src", img.attr("src").unwrap_or("")).at("alt", img.attr("alt").unwrap_or(""));
      if els.len() == 2 && els[1].is("div", "title") {
        s.title = Some(norm(&els[1].text()));
      } else if els.len() != 1 {
        return unknown(e);
      }
      s
    }
    "div" if e.classes().iter().any(|c| c.starts_with("sect") && c.len() == 5) => sect(e),
    "div" if e.id() == Some("preamble") => {
      let mut s = S::new("preamble");
      let Some(c) = only(&rest).filter(|c| c.is("div", "sectionbody")) else { return unknown(e) };
      content(&mut s, &c.kids.iter().collect::<Vec<_>>());
      s
    }
    "table" => table(e),
    "hr" => base("hr", e),
    "div" if e.attr("style").is_some_and(|s| s.contains("page-break-after")) => S::new("pagebreak"),
    "x-raw" => S::new("raw").text(norm(&e.text())),
    "h1" | "h2" | "h3" | "h4" | "h5" | "h6" if e.has_class("discrete") || e.has_class("float") => {
      let lvl = e.tag[1..].parse::<usize>().unwrap() - 1;
      let mut s = base("discrete", e).at("level", lvl.to_string()).text(norm(&e.text()));
      s.roles.retain(|r| r != "float");
      s
    }
    _ => unknown(e),
  }
}

fn split_terms(it: S) -> Vec<S> {
  let has_dd = it.kids.last().is_some_and(|k| k.k == "dd");
  if has_dd || it.kids.len() <= 1 {
    return vec![it];
  }
  it.kids.into_iter().map(|k| S::new("item").kids(vec![k])).collect()
}

fn take_attribution(s: &mut S, rest: &mut Vec<&Node>) {
  if let Some(Node::El(a)) = rest.last()
    && a.is("div", "attribution")
  {
    let t = norm(&a.own_text());
    let t = t.trim_start_matches('\u{2014}').trim().to_string();
    if !t.is_empty() {
      s.at.push(("by".into(), t));
    }
    if let Some(c) = a.find(|x| x.tag == "cite") {
      s.at.push(("cite".into(), norm(&c.text())));
    }
    rest.pop();
  }
}

fn item(li: &El) -> S {
  let mut s = S::new("item");
  let mut kids: Vec<&Node> = li.kids.iter().collect();
  if let Some(Node::El(p)) = kids.first()
    && p.tag == "p"
  {
    let t = norm(&p.text());
    let (c, t) = match t.chars().next() {
      Some('\u{2713}') => (Some("x"), t[3..].trim().to_string()),
      Some('\u{274f}') => (Some("o"), t[3..].trim().to_string()),
      _ => (None, t),
    };
    if let Some(c) = c {
      s.at.push(("check".into(), c.into()));
    }
    s.text = Some(t);
    kids.remove(0);
  }
  for k in kids {
    match k {
      Node::El(e) => s.kids.push(block(e)),
      Node::Text(t) if t.trim().is_empty() => {}
      Node::Text(t) => s.kids.push(S::new("?text").text(norm(t))),
    }
  }
  s
}

fn dd(e: &El) -> S {
  let mut s = item(e);
  s.k = "dd".into();
  s
}

fn sect(e: &El) -> S {
  let cls = e.classes().into_iter().find(|c| c.starts_with("sect") && c.len() == 5).unwrap();
  let level = &cls[4..];
  let mut s = base("sect", e);
  s.at.push(("level".into(), level.into()));
  let mut kids: Vec<&Node> = e.kids.iter().collect();
  let Some(Node::El(h)) = kids.first() else { return unknown(e) };
  if h.tag != format!("h{}", level.parse::<usize>().unwrap_or(9) + 1) {
    return unknown(e);
  }
  s.id = h.id().map(|s| s.to_string());
  s.text = Some(norm(&h.text()));
  kids.remove(0);
  if level == "1" {
    let Some(b) = only(&kids).filter(|b| b.is("div", "sectionbody")) else { return unknown(e) };
    content(&mut s, &b.kids.iter().collect::<Vec<_>>());
  } else {
    content(&mut s, &kids);
  }
  s
}

fn table(e: &El) -> S {
  let mut s = base("table", e);
  for x in e.els() {
    match x.tag.as_str() {
      "caption" => s.title = Some(norm(&x.text())),
      "colgroup" => {}
      "thead" | "tbody" | "tfoot" => {
        let mut sec = S::new(&x.tag);
        for tr in x.els() {
          let mut row = S::new("row");
          for c in tr.els() {
            let mut cell = S::new(&c.tag);
            for a in ["colspan", "rowspan"] {
              if let Some(v) = c.attr(a) {
                cell.at.push((a.into(), v.into()));
              }
            }
            let kids: Vec<&Node> = c.kids.iter().collect();
            match only(&kids) {
              Some(d) if d.is("div", "content") => {
                cell.at.push(("adoc".into(), String::new()));
                content(&mut cell, &d.kids.iter().collect::<Vec<_>>());
              }
              Some(d) if d.is("div", "literal") => {
                cell.kids.push(S::new("lit").text(d.text()));
              }
              _ => {
                if c.els().iter().any(|p| p.is("p", "tableblock")) {
                  for p in c.els() {
                    cell.kids.push(S::new("p").text(norm(&p.text())));
                  }
                } else if !c.kids.is_empty() {
                  cell.text = Some(norm(&c.text()));
                }
              }
            }
            row.kids.push(cell);
          }
          sec.kids.push(row);
        }
        s.kids.push(sec);
      }
      _ => return unknown(e),
    }
  }
  s
}
