//! Drives the code under test: source text + settings -> HTML / diagnostics.
use asciidork_core::*;
use asciidork_parser::includes::*;
use asciidork_parser::prelude::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Be {
  Html,
  Html5s,
}
pub const BACKENDS: [Be; 2] = [Be::Html, Be::Html5s];

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum FileKind {
  Stdin(String),
  Path(String),
  Tmp,
}

#[derive(Clone, Debug)]
pub struct Opts {
  pub be: Be,
  pub doctype: Option<DocType>,
  pub safe: SafeMode,
  pub strict: bool,
  pub embedded: bool,
  /// (name, value, readonly)
  pub attrs: Vec<(String, AttrValue, bool)>,
  pub files: Option<BTreeMap<String, Vec<u8>>>,
  pub base_dir: Option<String>,
  pub file: FileKind,
  pub now: Option<(u64, Option<u64>, Option<u64>)>,
}

impl Default for Opts {
  fn default() -> Self {
    Opts {
      be: Be::Html,
      doctype: None,
      safe: SafeMode::Secure,
      strict: false,
      embedded: true,
      attrs: vec![],
      files: None,
      base_dir: None,
      file: FileKind::Tmp,
      now: None,
    }
  }
}

impl Opts {
  pub fn be(mut self, be: Be) -> Self {
    self.be = be;
    self
  }
  pub fn attr(mut self, k: &str, v: &str) -> Self {
    self.attrs.push((k.into(), AttrValue::String(v.into()), true));
    self
  }
  pub fn strict(mut self, s: bool) -> Self {
    self.strict = s;
    self
  }
  pub fn standalone(mut self) -> Self {
    self.embedded = false;
    self
  }
  pub fn files(mut self, f: BTreeMap<String, Vec<u8>>) -> Self {
    self.files = Some(f);
    self
  }
}

/// In-memory resolver recording what it was asked for.
#[derive(Clone, Default)]
pub struct MemResolver {
  pub files: Rc<BTreeMap<String, Vec<u8>>>,
  pub base_dir: Option<String>,
  pub log: Rc<RefCell<Vec<String>>>,
}

/// what a file system makes of `.` and `..`
pub fn normal(path: &str) -> String {
  let mut out: Vec<&str> = vec![];
  for p in path.split('/') {
    match p {
      "" | "." => {}
      ".." => {
        out.pop();
      }
      p => out.push(p),
    }
  }
  format!("/{}", out.join("/"))
}

impl IncludeResolver for MemResolver {
  fn resolve(
    &mut self,
    target: IncludeTarget,
    buffer: &mut dyn IncludeBuffer,
    _safe: SafeMode,
  ) -> Result<usize, ResolveError> {
    let key = target.path().to_string();
    self.log.borrow_mut().push(key.clone());
    match self.files.get(&key).or_else(|| self.files.get(&normal(&key))) {
      Some(b) => {
        buffer.initialize(b.len());
        buffer.as_bytes_mut().copy_from_slice(b);
        Ok(b.len())
      }
      None => Err(ResolveError::NotFound),
    }
  }
  fn get_base_dir(&self) -> Option<String> {
    self.base_dir.clone()
  }
  fn clone_box(&self) -> Box<dyn IncludeResolver> {
    Box::new(self.clone())
  }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Conv {
  /// `None`: the strict parse was refused
  pub html: Option<String>,
  pub diags: Vec<Diagnostic>,
  pub asked: Vec<String>,
}

impl Conv {
  pub fn html(&self) -> &str {
    self.html.as_deref().unwrap_or("<!refused>")
  }
}

pub fn settings(o: &Opts) -> JobSettings {
  let mut job_attrs = JobAttrs::empty();
  for (k, v, ro) in &o.attrs {
    let a = JobAttr { readonly: *ro, value: v.clone() };
    job_attrs.insert_unchecked(k.clone(), a);
  }
  JobSettings {
    doctype: o.doctype,
    safe_mode: o.safe,
    job_attrs,
    embedded: o.embedded,
    strict: o.strict,
  }
}

pub fn convert(src: &str, o: &Opts) -> Conv {
  let bump = Bump::new();
  let file = match &o.file {
    FileKind::Stdin(c) => SourceFile::Stdin { cwd: Path::new(c.as_str()) },
    FileKind::Path(p) => SourceFile::Path(Path::new(p.as_str())),
    FileKind::Tmp => SourceFile::Tmp,
  };
  let mut p = Parser::from_str(src, file, &bump);
  p.apply_job_settings(settings(o));
  let log = Rc::new(RefCell::new(vec![]));
  if let Some(f) = &o.files {
    p.set_resolver(Box::new(MemResolver {
      files: Rc::new(f.clone()),
      base_dir: o.base_dir.clone(),
      log: log.clone(),
    }));
  }
  if let Some((now, mtime, repro)) = o.now {
    p.provide_timestamps(now, mtime, repro);
  }
  let res = p.parse();
  let out = match res {
    Ok(r) => {
      let diags = r.warnings.clone();
      let html = match o.be {
        Be::Html => asciidork_dr_html_backend::convert(r.document),
        Be::Html5s => asciidork_backend_html5s::convert(r.document),
      };
      match html {
        Ok(h) => (Some(h), diags),
        Err(e) => panic!("convert returned an error: {e}"),
      }
    }
    Err(d) => (None, d),
  };
  let asked = log.borrow().clone();
  Conv { html: out.0, diags: out.1, asked }
}

pub fn html(src: &str, o: &Opts) -> String {
  convert(src, o).html.unwrap_or_else(|| "<!refused>".into())
}
