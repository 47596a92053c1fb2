//! A strict little HTML reader: every tag must be matched, attributes must be
//! quoted, `&`, `<` and `>` must be escaped in text.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node {
  El(El),
  Text(String),
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct El {
  pub tag: String,
  pub attrs: Vec<(String, String)>,
  pub kids: Vec<Node>,
}

const VOID: &[&str] = &[
  "area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track",
  "wbr", "param",
];

pub fn is_void(t: &str) -> bool {
  VOID.contains(&t)
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
  Open(String, Vec<(String, String)>, bool),
  Close(String),
  Text(String),
  Comment(String),
  Doctype,
}

/// Entities the backends may legitimately emit.
pub fn decode(s: &str) -> Result<String, String> {
  let mut o = String::new();
  let mut rest = s;
  while let Some(i) = rest.find('&') {
    o.push_str(&rest[..i]);
    rest = &rest[i..];
    let semi = rest[..floor(rest, rest.len().min(140))].find(';');
    let Some(e) = semi else {
      return Err(format!("bare `&` near {:?}", rest.chars().take(30).collect::<String>()));
    };
    let name = &rest[1..e];
    let c = match name {
      "lt" => "<".to_string(),
      "gt" => ">".to_string(),
      "amp" => "&".to_string(),
      "quot" => "\"".to_string(),
      "apos" => "'".to_string(),
      "nbsp" => "\u{a0}".to_string(),
      _ if name.starts_with('#') => {
        let n = if let Some(h) = name[1..].strip_prefix(['x', 'X']) {
          u32::from_str_radix(h, 16).ok()
        } else {
          name[1..].parse::<u32>().ok()
        };
        match n {
          Some(n) => char::from_u32(n).unwrap_or('\u{fffd}').to_string(),
          // too large, readers show a replacement character
          None if name[1..].trim_start_matches('x').bytes().all(|b| b.is_ascii_hexdigit()) && name.len() > 2 => "\u{fffd}".into(),
          None => return Err(format!("bad char reference &{name};")),
        }
      }
      _ if !name.is_empty() && name.chars().all(|c| c.is_ascii_alphanumeric()) => {
        format!("\u{e000}{name}\u{e001}")
      }
      _ => {
        return Err(format!("bare `&` near {:?}", rest.chars().take(30).collect::<String>()));
      }
    };
    o.push_str(&c);
    rest = &rest[e + 1..];
  }
  o.push_str(rest);
  Ok(o)
}

pub fn tokens(s: &str) -> Result<Vec<Tok>, String> {
  let b = s.as_bytes();
  let mut out = vec![];
  let mut i = 0;
  let near = |i: usize| -> String { s[floor(s, i.saturating_sub(30))..floor(s, (i + 60).min(s.len()))].to_string() };
  while i < b.len() {
    // an escaped arrow is emitted as is, which HTML readers take for text
    if b[i] == b'<' && !matches!(b.get(i + 1), Some(b'-' | b'=')) {
      if s[i..].starts_with("<!--") {
        let Some(e) = s[i + 4..].find("-->") else {
          return Err(format!("unclosed comment near {:?}", near(i)));
        };
        out.push(Tok::Comment(s[i + 4..i + 4 + e].to_string()));
        i += 4 + e + 3;
        continue;
      }
      if s[i..].starts_with("<!DOCTYPE") || s[i..].starts_with("<!doctype") {
        let Some(e) = s[i..].find('>') else { return Err("unclosed doctype".into()) };
        out.push(Tok::Doctype);
        i += e + 1;
        continue;
      }
      let start = i;
      i += 1;
      let close = i < b.len() && b[i] == b'/';
      if close {
        i += 1;
      }
      let ns = i;
      while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'-' || b[i] == b':') {
        i += 1;
      }
      if ns == i || !b[ns].is_ascii_alphabetic() {
        return Err(format!("bare `<` near {:?}", near(start)));
      }
      let name = s[ns..i].to_string();
      let mut attrs: Vec<(String, String)> = vec![];
      let mut selfclose = false;
      loop {
        let ws = i;
        while i < b.len() && b[i].is_ascii_whitespace() {
          i += 1;
        }
        if i >= b.len() {
          return Err(format!("unclosed tag near {:?}", near(start)));
        }
        if b[i] == b'>' {
          i += 1;
          break;
        }
        if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'>' {
          selfclose = true;
          i += 2;
          break;
        }
        if ws == i {
          return Err(format!("malformed tag near {:?}", near(start)));
        }
        let as_ = i;
        while i < b.len() && !b[i].is_ascii_whitespace() && !matches!(b[i], b'=' | b'>' | b'/' | b'"' | b'\'' | b'<') {
          i += 1;
        }
        if as_ == i {
          return Err(format!("malformed attribute near {:?}", near(start)));
        }
        let an = s[as_..i].to_string();
        let mut av = String::new();
        if i < b.len() && b[i] == b'=' {
          i += 1;
          if i >= b.len() || b[i] != b'"' {
            return Err(format!("unquoted attribute value near {:?}", near(start)));
          }
          i += 1;
          let vs = i;
          while i < b.len() && b[i] != b'"' {
            i += 1;
          }
          if i >= b.len() {
            return Err(format!("unclosed attribute value near {:?}", near(start)));
          }
          av = s[vs..i].to_string();
          i += 1;
        }
        if attrs.iter().any(|(n, _)| *n == an) {
          return Err(format!("duplicate attribute {an} near {:?}", near(start)));
        }
        attrs.push((an, av));
      }
      if close {
        if !attrs.is_empty() || selfclose {
          return Err(format!("malformed close tag near {:?}", near(start)));
        }
        out.push(Tok::Close(name));
      } else {
        let raw = name == "script" || name == "style";
        out.push(Tok::Open(name.clone(), attrs, selfclose));
        if raw && !selfclose {
          let end = format!("</{name}>");
          let Some(e) = s[i..].find(&end) else {
            return Err(format!("unclosed <{name}>"));
          };
          if e > 0 {
            out.push(Tok::Comment(s[i..i + e].to_string()));
          }
          i += e;
        }
      }
    } else {
      let st = i;
      i += 1;
      while i < b.len() && b[i] != b'<' {
        i += 1;
      }
      out.push(Tok::Text(s[st..i].to_string()));
    }
  }
  Ok(out)
}

fn floor(s: &str, mut i: usize) -> usize {
  while !s.is_char_boundary(i) {
    i -= 1;
  }
  i
}

/// Parse into a tree. `Err` describes the first malformation. Text and
/// attribute values are decoded.
pub fn parse(s: &str) -> Result<El, String> {
  let mut stack = vec![El { tag: "#root".into(), ..El::default() }];
  for t in tokens(s)? {
    match t {
      Tok::Open(tag, attrs, selfclose) => {
        let mut dec = vec![];
        for (k, v) in attrs {
          let d = decode(&v).map_err(|e| format!("in attribute {k} of <{tag}>: {e}"))?;
          dec.push((k, d));
        }
        let el = El { tag: tag.clone(), attrs: dec, kids: vec![] };
        if is_void(&tag) || (selfclose && is_foreign(&stack)) {
          stack.last_mut().unwrap().kids.push(Node::El(el));
        } else if selfclose {
          return Err(format!("self-closed non-void element <{tag}/>"));
        } else {
          stack.push(el);
        }
      }
      Tok::Close(tag) => {
        if is_void(&tag) {
          return Err(format!("close tag for void element </{tag}>"));
        }
        let top = stack.last().unwrap();
        if stack.len() == 1 || top.tag != tag {
          return Err(format!("</{tag}> closes <{}>", top.tag));
        }
        let el = stack.pop().unwrap();
        stack.last_mut().unwrap().kids.push(Node::El(el));
      }
      Tok::Text(t) => {
        if t.contains('>') {
          let i = t.find('>').unwrap();
          return Err(format!("bare `>` in text near {:?}", &t[floor(&t, i.saturating_sub(30))..floor(&t, (i + 30).min(t.len()))]));
        }
        let d = decode(&t)?;
        stack.last_mut().unwrap().kids.push(Node::Text(d));
      }
      Tok::Comment(_) | Tok::Doctype => {}
    }
  }
  if stack.len() != 1 {
    return Err(format!("<{}> never closed", stack.last().unwrap().tag));
  }
  Ok(stack.pop().unwrap())
}

fn is_foreign(stack: &[El]) -> bool {
  stack.iter().any(|e| e.tag == "svg" || e.tag == "math")
}

impl El {
  pub fn attr(&self, k: &str) -> Option<&str> {
    self.attrs.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
  }
  pub fn id(&self) -> Option<&str> {
    self.attr("id")
  }
  pub fn classes(&self) -> Vec<&str> {
    self.attr("class").map(|c| c.split_whitespace().collect()).unwrap_or_default()
  }
  pub fn has_class(&self, c: &str) -> bool {
    self.classes().contains(&c)
  }
  pub fn is(&self, tag: &str, class: &str) -> bool {
    self.tag == tag && (class.is_empty() || self.has_class(class))
  }
  /// element children
  pub fn els(&self) -> Vec<&El> {
    self
      .kids
      .iter()
      .filter_map(|k| match k {
        Node::El(e) => Some(e),
        Node::Text(_) => None,
      })
      .collect()
  }
  pub fn text(&self) -> String {
    let mut s = String::new();
    self.text_into(&mut s);
    s
  }
  fn text_into(&self, s: &mut String) {
    for k in &self.kids {
      match k {
        Node::El(e) => e.text_into(s),
        Node::Text(t) => s.push_str(t),
      }
    }
  }
  /// direct text only
  pub fn own_text(&self) -> String {
    self
      .kids
      .iter()
      .filter_map(|k| match k {
        Node::Text(t) => Some(t.as_str()),
        _ => None,
      })
      .collect()
  }
  pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a El)) {
    f(self);
    for e in self.els() {
      e.walk(f);
    }
  }
  pub fn all(&self, pred: impl Fn(&El) -> bool) -> Vec<&El> {
    let mut v = vec![];
    self.walk(&mut |e| {
      if pred(e) {
        v.push(e)
      }
    });
    v
  }
  pub fn find(&self, pred: impl Fn(&El) -> bool) -> Option<&El> {
    self.all(pred).into_iter().next()
  }
  pub fn ids(&self) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    self.walk(&mut |e| {
      if let Some(i) = e.id() {
        *m.entry(i.to_string()).or_default() += 1;
      }
    });
    m
  }
  /// compact one-line rendering for messages
  pub fn show(&self) -> String {
    let mut s = String::new();
    self.show_into(&mut s);
    s
  }
  fn show_into(&self, s: &mut String) {
    s.push_str(&self.tag);
    if let Some(i) = self.id() {
      s.push('#');
      s.push_str(i);
    }
    for c in self.classes() {
      s.push('.');
      s.push_str(c);
    }
    if !self.kids.is_empty() {
      s.push('(');
      for (i, k) in self.kids.iter().enumerate() {
        if i > 0 {
          s.push(' ');
        }
        match k {
          Node::El(e) => e.show_into(s),
          Node::Text(t) => s.push_str(&format!("{t:?}")),
        }
      }
      s.push(')');
    }
  }
}
