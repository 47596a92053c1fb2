//! Minimal strict JSON reader / string quoting.
#[derive(Clone, Debug, PartialEq)]
pub enum J {
  Null,
  Bool(bool),
  Num(f64),
  Str(String),
  Arr(Vec<J>),
  Obj(Vec<(String, J)>),
}

impl J {
  pub fn get(&self, k: &str) -> Option<&J> {
    match self {
      J::Obj(o) => o.iter().find(|(n, _)| n == k).map(|x| &x.1),
      _ => None,
    }
  }
  pub fn str(&self, k: &str) -> Option<&str> {
    match self.get(k) {
      Some(J::Str(s)) => Some(s),
      _ => None,
    }
  }
  pub fn arr(&self) -> &[J] {
    match self {
      J::Arr(a) => a,
      _ => &[],
    }
  }
  pub fn num(&self) -> Option<f64> {
    match self {
      J::Num(n) => Some(*n),
      _ => None,
    }
  }
}

pub fn quote(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      '\r' => o.push_str("\\r"),
      '\t' => o.push_str("\\t"),
      c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
      c => o.push(c),
    }
  }
  o.push('"');
  o
}

pub fn parse(s: &str) -> Result<J, String> {
  let b = s.as_bytes();
  let mut p = P { b, s, i: 0 };
  p.ws();
  let v = p.value(0)?;
  p.ws();
  if p.i != b.len() {
    return Err(format!("trailing data at {}", p.i));
  }
  Ok(v)
}

struct P<'a> {
  b: &'a [u8],
  s: &'a str,
  i: usize,
}

impl P<'_> {
  fn ws(&mut self) {
    while self.i < self.b.len() && matches!(self.b[self.i], b' ' | b'\n' | b'\r' | b'\t') {
      self.i += 1;
    }
  }
  fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
    if self.s[self.i..].starts_with(l) {
      self.i += l.len();
      Ok(v)
    } else {
      Err(format!("bad literal at {}", self.i))
    }
  }
  fn value(&mut self, depth: usize) -> Result<J, String> {
    if depth > 2000 {
      return Err("too deep".into());
    }
    match self.b.get(self.i) {
      Some(b'{') => {
        self.i += 1;
        let mut o = vec![];
        self.ws();
        if self.b.get(self.i) == Some(&b'}') {
          self.i += 1;
          return Ok(J::Obj(o));
        }
        loop {
          self.ws();
          let k = self.string()?;
          self.ws();
          if self.b.get(self.i) != Some(&b':') {
            return Err(format!("expected : at {}", self.i));
          }
          self.i += 1;
          self.ws();
          let v = self.value(depth + 1)?;
          o.push((k, v));
          self.ws();
          match self.b.get(self.i) {
            Some(b',') => self.i += 1,
            Some(b'}') => {
              self.i += 1;
              return Ok(J::Obj(o));
            }
            _ => return Err(format!("expected , or }} at {}", self.i)),
          }
        }
      }
      Some(b'[') => {
        self.i += 1;
        let mut a = vec![];
        self.ws();
        if self.b.get(self.i) == Some(&b']') {
          self.i += 1;
          return Ok(J::Arr(a));
        }
        loop {
          self.ws();
          a.push(self.value(depth + 1)?);
          self.ws();
          match self.b.get(self.i) {
            Some(b',') => self.i += 1,
            Some(b']') => {
              self.i += 1;
              return Ok(J::Arr(a));
            }
            _ => return Err(format!("expected , or ] at {}", self.i)),
          }
        }
      }
      Some(b'"') => Ok(J::Str(self.string()?)),
      Some(b't') => self.lit("true", J::Bool(true)),
      Some(b'f') => self.lit("false", J::Bool(false)),
      Some(b'n') => self.lit("null", J::Null),
      Some(c) if c.is_ascii_digit() || *c == b'-' => {
        let st = self.i;
        while self.i < self.b.len()
          && matches!(self.b[self.i], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E')
        {
          self.i += 1;
        }
        self.s[st..self.i].parse().map(J::Num).map_err(|e| format!("{e}"))
      }
      _ => Err(format!("unexpected char at {}", self.i)),
    }
  }
  fn string(&mut self) -> Result<String, String> {
    if self.b.get(self.i) != Some(&b'"') {
      return Err(format!("expected string at {}", self.i));
    }
    self.i += 1;
    let mut o = String::new();
    loop {
      let Some(c) = self.s[self.i..].chars().next() else {
        return Err("unterminated string".into());
      };
      self.i += c.len_utf8();
      match c {
        '"' => return Ok(o),
        '\\' => {
          let Some(e) = self.s[self.i..].chars().next() else {
            return Err("bad escape".into());
          };
          self.i += e.len_utf8();
          match e {
            '"' => o.push('"'),
            '\\' => o.push('\\'),
            '/' => o.push('/'),
            'b' => o.push('\u{8}'),
            'f' => o.push('\u{c}'),
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            'u' => {
              let hex = self.s.get(self.i..self.i + 4).ok_or("bad \\u")?;
              let n = u32::from_str_radix(hex, 16).map_err(|e| e.to_string())?;
              self.i += 4;
              if (0xD800..0xDC00).contains(&n) {
                let rest = self.s.get(self.i..self.i + 6).ok_or("lone surrogate")?;
                if !rest.starts_with("\\u") {
                  return Err("lone surrogate".into());
                }
                let m = u32::from_str_radix(&rest[2..], 16).map_err(|e| e.to_string())?;
                self.i += 6;
                let cp = 0x10000 + ((n - 0xD800) << 10) + (m.wrapping_sub(0xDC00));
                o.push(char::from_u32(cp).ok_or("bad surrogate")?);
              } else {
                o.push(char::from_u32(n).ok_or("bad \\u")?);
              }
            }
            _ => return Err(format!("bad escape \\{e}")),
          }
        }
        c if (c as u32) < 0x20 => return Err(format!("raw control char {:#x} in string", c as u32)),
        c => o.push(c),
      }
    }
  }
}
