//! C07, C08: the outline of a document and its table of contents.
use crate::conv::*;
use crate::engine::*;
use crate::html::{self, El, Node};
use crate::{ensure, fail};

pub fn props() -> Vec<Prop> {
  vec![
    Prop {
      id: "C07",
      run: run_outline,
      quick: 260_000,
      thorough: 4_000_000,
      rule: "random articles and books of nested, special and discrete headings with ids, roles, level offsets and section attributes changing in between, against a model of nesting, ids and numbers; non-trivial: 3+ headings",
      assumptions: &["titles are made of known pieces, sections are never out of sequence"],
    },
    Prop {
      id: "C08",
      run: run_toc,
      quick: 260_000,
      thorough: 4_000_000,
      rule: "random articles and books with a table of contents at each placement and depth, against the tree of their sections; non-trivial: 3+ headings and a table with 2+ entries",
      assumptions: &["titles are made of known pieces, sections are never out of sequence", "sectnums is not changed between sections"],
    },
  ]
}

// ---------------------------------------------------------------- model

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Head {
  tag: String,
  id: Option<String>,
  text: String,
  path: Vec<usize>,
  discrete: bool,
  part: bool,
  roles: Vec<String>,
  anchor: bool,
  link: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Toc {
  level: usize,
  href: String,
  text: String,
  kids: Vec<Toc>,
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
  H(Head),
  P { text: String, path: Vec<usize>, preamble: bool },
  T { path: Vec<usize>, title: String, class: String, nodes: Vec<Toc> },
}

pub struct Title {
  pub src: String,
  pub text: String,
  /// characters of the id, a space where a separator goes
  pub id: String,
}

const ATOMS: [(&str, &str, &str); 27] = [
  ("Foo", "Foo", "foo"),
  ("Bar", "Bar", "bar"),
  ("foo", "foo", "foo"),
  ("2", "2", "2"),
  ("3", "3", "3"),
  ("*bo*", "bo", "bo"),
  ("_it_", "it", "it"),
  ("`co`", "co", "co"),
  ("#ma#", "ma", "ma"),
  ("Jerry's", "Jerry’s", "jerrys"),
  ("é", "é", "é"),
  ("ÉTÉ", "ÉTÉ", "été"),
  ("A&B", "A&B", "ab"),
  ("&#169;", "©", ""),
  ("!", "!", ""),
  ("v1.2", "v1.2", "v1 2"),
  ("a-b", "a-b", "a b"),
  ("(x)", "(x)", "x"),
  ("one,", "one,", "one"),
  ("x,y", "x,y", "xy"),
  ("a/b", "a/b", "ab"),
  ("日本", "日本", "日本"),
  ("\"q\"", "\"q\"", "q"),
  ("1.2.3-a", "1.2.3-a", "1 2 3 a"),
  ("10%", "10%", "10"),
  ("ab:", "ab:", "ab"),
  ("+++<u>ra</u>+++", "ra", "ra"),
];

pub fn title(s: &mut Src, n: &mut usize) -> Title {
  let mut t = Title { src: String::new(), text: String::new(), id: String::new() };
  let len = s.weighted(&[0, 50, 30, 15, 5]);
  let at = s.below(len);
  for i in 0..len {
    let (a, b, c) = if i == at {
      if s.chance(50) {
        let (a, b, c) = ATOMS[s.below(3)];
        (a.to_string(), b.to_string(), c.to_string())
      } else {
        *n += 1;
        (format!("W{n}"), format!("W{n}"), format!("w{n}"))
      }
    } else {
      let (a, b, c) = s.one(&ATOMS);
      (a.to_string(), b.to_string(), c.to_string())
    };
    if i > 0 {
      t.src.push(' ');
      t.text.push(' ');
      t.id.push(' ');
    }
    t.src.push_str(&a);
    t.text.push_str(&b);
    t.id.push_str(&c);
  }
  t
}

#[derive(Clone)]
struct Env {
  sectids: bool,
  prefix: String,
  sep: Option<char>,
  nums: u8, // 0 off, 1 on, 2 all
  numlevels: usize,
  anchors: bool,
  links: bool,
}

/// the id generated for a title
fn auto_id(t: &Title, e: &Env, seen: &[String]) -> String {
  let mut id = e.prefix.clone();
  for c in t.id.chars() {
    if c != ' ' {
      id.push(c);
    } else if let Some(sep) = e.sep
      && !id.ends_with(sep)
    {
      id.push(sep);
    }
  }
  if let Some(sep) = e.sep {
    if id.ends_with(sep) {
      id.pop();
    }
    if e.prefix.is_empty() && id.starts_with(sep) {
      id.remove(0);
    }
  }
  if !seen.contains(&id) {
    return id;
  }
  let mut n = 2;
  loop {
    let next = match e.sep {
      Some(sep) => format!("{id}{sep}{n}"),
      None => format!("{id}{n}"),
    };
    if !seen.contains(&next) {
      return next;
    }
    n += 1;
  }
}

struct Sec {
  /// level in the document and level written
  level: usize,
  written: usize,
  special: Option<&'static str>,
  head: usize, // event
  toc_text: String,
}

struct Case {
  src: String,
  be: Be,
  want: Vec<Ev>,
  heads: usize,
  entries: usize,
}

fn roman(mut n: usize) -> String {
  let mut out = String::new();
  for (v, r) in [(50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")] {
    while n >= v {
      out.push_str(r);
      n -= v;
    }
  }
  out
}

const SPECIAL: [&str; 5] = ["preface", "acknowledgments", "glossary", "colophon", "index"];

fn gen_case(s: &mut Src, with_toc: bool) -> Case {
  let be = s.one(&BACKENDS);
  let kind = s.weighted(&[60, 20, 20]); // article, book of chapters, book with parts
  let (book, parts) = (kind > 0, kind == 2);
  let mut n = 0usize;
  let mut src = String::new();
  let has_title = s.chance(65);
  if has_title {
    src.push_str("= Doc Title\n");
  }
  if book {
    src.push_str(":doctype: book\n");
  }
  let mut e = Env { sectids: true, prefix: "_".into(), sep: Some('_'), nums: 0, numlevels: 3, anchors: false, links: false };
  let (mut appendix_caption, mut chapter_sig, mut part_sig, mut partnums) = (Some("Appendix".to_string()), None, None, false);
  if s.chance(20) {
    appendix_caption = s.one(&[None, Some("Exhibit".to_string()), Some("A&B".to_string())]);
    match &appendix_caption {
      None => src.push_str(":!appendix-caption:\n"),
      Some(c) => src.push_str(&format!(":appendix-caption: {c}\n")),
    }
  }
  if s.chance(15) {
    chapter_sig = Some("Chapter");
    src.push_str(":chapter-signifier: Chapter\n");
  }
  if s.chance(15) {
    part_sig = Some("Part");
    src.push_str(":part-signifier: Part\n");
  }
  if s.chance(40) {
    partnums = true;
    src.push_str(":partnums:\n");
  }
  // 0 none, 1 auto, 2 left, 3 right, 4 preamble, 5 macro
  let placement = if with_toc { s.weighted(&[4, 40, 8, 8, 20, 20]) } else { 0 };
  let (mut toclevels, mut toctitle, mut tocclass) = (2, "Table of Contents".to_string(), "toc".to_string());
  if placement > 0 {
    src.push_str(s.pick(&[&[":toc:\n", ":toc: auto\n"][..], &[":toc: left\n"], &[":toc: right\n"], &[":toc: preamble\n"], &[":toc: macro\n"]][placement - 1]));
    if s.chance(50) {
      toclevels = s.range(0, 6);
      src.push_str(&format!(":toclevels: {toclevels}\n"));
    }
    if s.chance(15) {
      toctitle = s.pick(&["Contents", "A < B & C"]).into();
      src.push_str(&format!(":toc-title: {toctitle}\n"));
    }
    if s.chance(15) {
      tocclass = "cls".into();
      src.push_str(":toc-class: cls\n");
    }
  }
  let mut toggles = vec![];
  for _ in 0..s.weighted(&[40, 30, 20, 10]) {
    toggles.push(toggle(s, &mut e, true, true));
  }
  for t in &toggles {
    src.push_str(t);
    src.push('\n');
  }
  let header = !src.is_empty();
  src.push('\n');
  if header && s.chance(10) {
    src.push_str("// a comment\n\n");
  }

  let mut want: Vec<Ev> = vec![];
  let mut secs: Vec<Sec> = vec![];
  let mut seen: Vec<String> = vec![];
  let mut stack: Vec<(usize, usize)> = vec![]; // level, ordinal
  let mut ordinal = 0;
  let mut offset: i32 = 0;
  let mut counts = [0usize; 6];
  let (mut part_num, mut appendix_num) = (0, 0);
  let mut outer: Option<[usize; 6]> = None; // section numbers outside the appendix
  let mut special_at: Option<usize> = None; // level of the enclosing special section
  let mut cur: Option<usize> = None; // current level
  let mut in_part = false; // there has been a part
  let mut sub_ok = true;
  let mut macro_done = placement != 5;
  let mut pre = true; // no section so far
  // numbering switched on and off all the time
  let numbering = !with_toc && s.chance(25);
  let count = if numbering { s.range(6, 20) } else { s.range(1, 12) };
  for _ in 0..count {
    match s.weighted(&[if placement > 0 { 80 } else { 62 }, if numbering { 2 } else { 18 }, if numbering { 2 } else { 8 }, if numbering { 40 } else { 12 }, 4]) {
      1 => {
        // paragraph
        n += 1;
        src.push_str(&format!("p{n} text\n\n"));
        want.push(Ev::P { text: format!("p{n} text"), path: stack.iter().map(|x| x.1).collect(), preamble: pre });
      }
      2 => {
        // discrete heading
        let level = s.range(1, 5);
        let written = level as i32 - offset;
        if !(1..=5).contains(&written) {
          continue;
        }
        let t = title(s, &mut n);
        let explicit = s.chance(20).then(|| {
          n += 1;
          format!("ex{n}")
        });
        src.push_str(&match &explicit {
          Some(id) => format!("[{}#{id}]\n", s.pick(&["discrete", "float"])),
          None => format!("[{}]\n", s.pick(&["discrete", "float"])),
        });
        let id = match explicit {
          Some(id) => Some(id),
          None => e.sectids.then(|| auto_id(&t, &e, &seen)),
        };
        seen.extend(id.clone());
        src.push_str(&format!("{} {}\n\n", "=".repeat(written as usize + 1), t.src));
        let path = stack.iter().map(|x| x.1).collect();
        want.push(Ev::H(Head { tag: format!("h{}", level + 1), id, text: t.text, path, discrete: true, ..Default::default() }));
      }
      3 => {
        if !src.ends_with("\n\n") {
          src.push('\n');
        }
        if numbering && s.chance(85) {
          if !want.is_empty() {
            e.nums = if e.nums == 0 { 1 } else { 0 };
            src.push_str(if e.nums == 0 { ":!sectnums:\n\n" } else { ":sectnums:\n\n" });
          }
        } else if s.chance(35) {
          let entry = s.one(&[":leveloffset: 1", ":leveloffset: +1", ":leveloffset: -1", ":leveloffset!:", ":leveloffset: 0", ":leveloffset: 2"]);
          let next = match entry {
            ":leveloffset: 1" => 1,
            ":leveloffset: +1" => offset + 1,
            ":leveloffset: -1" => offset - 1,
            ":leveloffset: 2" => 2,
            _ => 0,
          };
          if (-2..=3).contains(&next) && !want.is_empty() {
            offset = next;
            src.push_str(&format!("{entry}\n\n"));
          }
        } else if !want.is_empty() {
          let t = toggle(s, &mut e, !with_toc, false);
          src.push_str(&format!("{t}\n\n"));
        }
      }
      4 if placement == 5 && !macro_done => {
        macro_done = true;
        src.push_str("toc::[]\n\n");
        let path = stack.iter().map(|x| x.1).collect();
        want.push(Ev::T { path, title: toctitle.clone(), class: tocclass.clone(), nodes: vec![] });
      }
      4 => src.push_str("// comment\n\n"),
      _ => {
        // a section
        let mut special: Option<&'static str> = None;
        let lvl0_special = parts && s.chance(20);
        let min = if parts && in_part || parts && cur.is_none() { 0 } else { 1 };
        let max = match cur {
          None => 1,
          Some(l) if !sub_ok => l,
          Some(l) => (l + 1).min(5),
        };
        let mut level = if lvl0_special { 1 } else { s.range(min.min(max), max) };
        if parts && !in_part && !lvl0_special && special_at.is_none() && cur.is_some() && s.chance(50) {
          level = 0;
        }
        let mut authored = level;
        if lvl0_special {
          authored = 0;
          special = Some(if s.chance(50) { "appendix" } else { s.one(&SPECIAL) });
        } else if level == 1 && s.chance(18) {
          special = Some(if s.chance(60) { "appendix" } else { s.one(&SPECIAL) });
          if !book && !matches!(special, Some("appendix" | "glossary" | "index")) {
            special = Some("index");
          }
        }
        let written = authored as i32 - offset;
        if !(0..=5).contains(&written) || (written == 0 && offset != 0 && want.is_empty()) {
          continue;
        }
        // without a header, a level 0 heading at the start is the title
        if written == 0 && !header && want.is_empty() {
          continue;
        }
        // nothing but the title has this level before the body of a document
        if written == 0 && !has_title && want.is_empty() {
          continue;
        }
        let t = title(s, &mut n);
        let mut meta = String::new();
        let mut roles = vec![];
        let mut explicit = None;
        if s.chance(18) {
          explicit = Some(if s.chance(50) { auto_id(&title(s, &mut n), &e, &seen) } else {
            n += 1;
            format!("Ex-{n}.x")
          });
        }
        if let Some(id) = &explicit
          && (!id.starts_with(|c: char| c.is_alphabetic() || c == '_') || seen.contains(id))
        {
          explicit = None;
        }
        if s.chance(12) {
          roles.push("r1".to_string());
          if s.chance(40) {
            roles.push("r2".to_string());
          }
        }
        let style = special.unwrap_or("");
        match &explicit {
          Some(id) if s.chance(40) && !id.contains(',') => {
            meta.push_str(&format!("[[{id}]]\n"));
            if !style.is_empty() || !roles.is_empty() {
              meta.push_str(&format!("[{style}{}]\n", roles.iter().map(|r| format!(".{r}")).collect::<String>()));
            }
          }
          Some(id) if s.chance(40) || id.contains(['.', '%', '#']) => {
            let mut items = vec![];
            if !style.is_empty() {
              items.push(style.to_string());
            }
            items.push(format!("id={id}"));
            if !roles.is_empty() {
              items.push(format!("role=\"{}\"", roles.join(" ")));
            }
            meta.push_str(&format!("[{}]\n", items.join(",")));
          }
          _ => {
            let id = explicit.as_ref().map(|i| format!("#{i}")).unwrap_or_default();
            let all = format!("{style}{id}{}", roles.iter().map(|r| format!(".{r}")).collect::<String>());
            if !all.is_empty() {
              meta.push_str(&format!("[{all}]\n"));
            }
          }
        }
        if s.chance(5) {
          meta = format!("// comment\n{meta}");
        }
        let mark = if s.chance(12) { "#" } else { "=" };
        src.push_str(&format!("{meta}{} {}\n{}", mark.repeat(written as usize + 1), t.src, if s.chance(88) { "\n" } else { "" }));

        // the model
        let id = match explicit {
          Some(id) => Some(id),
          None => e.sectids.then(|| auto_id(&t, &e, &seen)),
        };
        seen.extend(id.clone());
        pre = false;
        cur = Some(level);
        while stack.last().is_some_and(|x| x.0 >= level) {
          stack.pop();
        }
        if special_at.is_some_and(|l| level <= l) {
          special_at = None;
        }
        if level <= 1
          && let Some(c) = outer.take()
        {
          counts = c;
        }
        sub_ok = !matches!(special, Some("glossary" | "colophon"));
        let mut prefix = String::new();
        if level == 0 {
          in_part = true;
          if partnums {
            part_num += 1;
            prefix = format!("{}{}: ", part_sig.map(|p| format!("{p} ")).unwrap_or_default(), roman(part_num));
          }
        } else if special == Some("appendix") {
          outer = Some(counts);
          counts = [0, appendix_num, 0, 0, 0, 0];
          let letter = (b'A' + appendix_num as u8) as char;
          appendix_num += 1;
          prefix = match &appendix_caption {
            Some(c) => format!("{c} {letter}: "),
            None => format!("{letter}. "),
          };
        } else {
          if special.is_some() {
            special_at = Some(level);
          }
          if level <= e.numlevels && (e.nums == 2 || e.nums == 1 && special_at.is_none()) {
            counts[level] += 1;
            for c in &mut counts[level + 1..] {
              *c = 0;
            }
            if level == 1 && book && let Some(sig) = chapter_sig {
              prefix = format!("{sig} ");
            }
            for (i, c) in counts[1..=level].iter().enumerate() {
              if i == 0 && outer.is_some() {
                prefix.push((b'A' + *c as u8) as char);
              } else {
                prefix.push_str(&c.to_string());
              }
              prefix.push('.');
            }
            prefix.push(' ');
          }
        }
        if level > 0 {
          stack.push((level, ordinal));
          ordinal += 1;
        }
        secs.push(Sec { level, written: authored, special, head: want.len(), toc_text: format!("{prefix}{}", t.text) });
        let has_id = id.is_some();
        want.push(Ev::H(Head {
          tag: format!("h{}", level + 1),
          id,
          text: format!("{prefix}{}", t.text),
          path: stack.iter().map(|x| x.1).collect(),
          discrete: false,
          part: level == 0,
          roles,
          anchor: e.anchors && has_id && level > 0,
          link: e.links && has_id && level > 0,
        }));
      }
    }
  }
  let heads = secs.len();
  let any = !secs.is_empty();
  // paragraphs before the first section are in a preamble only in a document with a title and sections
  for ev in &mut want {
    if let Ev::P { preamble, .. } = ev {
      *preamble &= has_title && any;
    }
  }
  // the table of contents
  let mut nodes: Vec<Toc> = vec![];
  let mut entries = 0;
  for sec in &secs {
    if sec.written > toclevels {
      continue;
    }
    entries += 1;
    let Ev::H(h) = &want[sec.head] else { unreachable!() };
    let node = Toc { level: sec.level, href: format!("#{}", h.id.as_deref().unwrap_or("")), text: sec.toc_text.clone(), kids: vec![] };
    // special sections written at level 0 end a part
    let top = sec.written == 0;
    insert(&mut nodes, node, top, sec.special.is_some() && top);
  }
  let ev = Ev::T { path: vec![], title: toctitle.clone(), class: tocclass.clone(), nodes: nodes.clone() };
  match placement {
    0 => {}
    5 => {
      let at = want.iter().position(|e| matches!(e, Ev::T { .. }));
      if let Some(at) = at {
        if nodes.is_empty() {
          want.remove(at);
        } else if let Ev::T { nodes: to, .. } = &mut want[at] {
          *to = nodes;
        }
      }
    }
    _ if nodes.is_empty() => {}
    4 => {
      // after the blocks before the first section, if there are any
      let first = secs[0].head;
      if first > 0 {
        want.insert(first, ev);
      }
    }
    _ => want.insert(0, ev),
  }
  Case { src, be, want, heads, entries }
}

/// under the last node of a lower level
fn insert(nodes: &mut Vec<Toc>, node: Toc, top: bool, _special: bool) {
  if !top
    && let Some(last) = nodes.last_mut()
    && last.level < node.level
  {
    insert(&mut last.kids, node, false, false);
  } else {
    nodes.push(node);
  }
}

/// an attribute entry
fn toggle(s: &mut Src, e: &mut Env, nums: bool, header: bool) -> String {
  loop {
    return match s.below(if header { 9 } else { 8 }) {
      0 => {
        e.sectids = !e.sectids;
        s.pick(if e.sectids { &[":sectids:"] } else { &[":!sectids:", ":sectids!:"] }).into()
      }
      1 | 2 if !nums => continue,
      1 => {
        e.nums = s.below(3) as u8;
        s.pick(&[&[":!sectnums:", ":sectnums!:"][..], &[":sectnums:"], &[":sectnums: all"]][e.nums as usize]).into()
      }
      2 => {
        e.numlevels = s.below(6);
        format!(":sectnumlevels: {}", e.numlevels)
      }
      3 => {
        e.anchors = !e.anchors;
        if e.anchors { ":sectanchors:" } else { ":!sectanchors:" }.into()
      }
      4 => {
        e.links = !e.links;
        if e.links { ":sectlinks:" } else { ":!sectlinks:" }.into()
      }
      5 => {
        e.prefix = s.pick(&["", "_", "id-", "x_", "-", "sec."]).to_string();
        format!(":idprefix:{}{}", if e.prefix.is_empty() { "" } else { " " }, e.prefix)
      }
      6 => {
        e.sep = s.one(&[None, Some('_'), Some('-'), Some('.')]);
        match e.sep {
          None => ":idseparator:".into(),
          Some(c) => format!(":idseparator: {c}"),
        }
      }
      7 => ":other: value".into(),
      _ => {
        e.nums = 1;
        ":sectnums:".into()
      }
    };
  }
}

// ---------------------------------------------------------------- reading the output

fn sect_level(e: &El) -> Option<usize> {
  for c in e.classes() {
    if let Some(n) = c.strip_prefix("sect").and_then(|n| n.parse().ok())
      && e.tag == "div"
    {
      return Some(n);
    }
    if let Some(n) = c.strip_prefix("level-").and_then(|n| n.parse().ok())
      && e.tag == "section"
    {
      return Some(n);
    }
  }
  None
}

fn toc_nodes(list: &El) -> Vec<Toc> {
  let class = list.classes().join(" ");
  let level = class.rsplit(|c: char| !c.is_ascii_digit()).next().and_then(|n| n.parse().ok()).unwrap_or(99);
  let mut out = vec![];
  for li in list.els() {
    let els = li.els();
    let a = els.first().filter(|a| a.tag == "a");
    out.push(Toc {
      level,
      href: a.and_then(|a| a.attr("href")).unwrap_or("none").to_string(),
      text: a.map(|a| a.text()).unwrap_or("none".into()),
      kids: els.get(1).map(|l| toc_nodes(l)).unwrap_or_default(),
    });
  }
  out
}

fn events(e: &El, path: &mut Vec<usize>, preamble: bool, ordinal: &mut usize, roles: &[String], out: &mut Vec<Ev>) {
  if e.id() == Some("toc") {
    let els = e.els();
    let title = els.first().map(|t| t.text()).unwrap_or_default();
    let nodes = els.get(1).map(|l| toc_nodes(l)).unwrap_or_default();
    out.push(Ev::T { path: path.clone(), title, class: e.classes().join(" "), nodes });
    return;
  }
  let tag = e.tag.as_str();
  match tag {
    "h1" | "h2" | "h3" | "h4" | "h5" | "h6" => {
      let discrete = e.has_class("discrete");
      let href = |class: &str| e.find(|a| a.is("a", class)).is_some_and(|a| a.attr("href") == e.id().map(|i| format!("#{i}")).as_deref());
      out.push(Ev::H(Head {
        tag: tag.into(),
        id: e.id().map(String::from),
        text: e.text(),
        path: path.clone(),
        discrete,
        part: tag == "h1",
        roles: if tag == "h1" {
          e.classes().iter().filter(|c| **c != "sect0").map(|c| c.to_string()).chain(roles.to_vec()).collect()
        } else if discrete {
          vec![]
        } else {
          roles.to_vec()
        },
        anchor: href("anchor"),
        link: href("link"),
      }));
      return;
    }
    "p" => {
      out.push(Ev::P { text: e.text(), path: path.clone(), preamble });
      return;
    }
    _ => {}
  }
  let level = sect_level(e);
  let pushed = level.is_some_and(|l| l > 0);
  let mut own: Vec<String> = roles.to_vec();
  if level.is_some() {
    own = e.classes().iter().filter(|c| !c.starts_with("sect") && !c.starts_with("level-") && **c != "doc-section").map(|c| c.to_string()).collect();
  }
  if pushed {
    path.push(*ordinal);
    *ordinal += 1;
  }
  for k in &e.kids {
    if let Node::El(k) = k {
      events(k, path, preamble || e.id() == Some("preamble"), ordinal, &own, out);
    }
  }
  if pushed {
    path.pop();
  }
}

fn show(evs: &[Ev]) -> String {
  let mut out = String::new();
  for e in evs {
    match e {
      Ev::H(h) => out.push_str(&format!(
        "{}{} {:?} id={:?} in {:?}{}{}{} roles {:?}\n",
        h.tag,
        if h.discrete { " discrete" } else { "" },
        h.text,
        h.id,
        h.path,
        if h.part { " part" } else { "" },
        if h.anchor { " anchor" } else { "" },
        if h.link { " link" } else { "" },
        h.roles
      )),
      Ev::P { text, path, preamble } => out.push_str(&format!("p {text:?} in {path:?}{}\n", if *preamble { " preamble" } else { "" })),
      Ev::T { path, title, class, nodes } => {
        out.push_str(&format!("toc {title:?} {class} in {path:?}\n"));
        fn go(n: &[Toc], d: usize, out: &mut String) {
          for t in n {
            out.push_str(&format!("{}{} {} {:?}\n", "  ".repeat(d), t.level, t.href, t.text));
            go(&t.kids, d + 1, out);
          }
        }
        go(nodes, 1, &mut out);
      }
    }
  }
  out
}

fn check(c: &Case) -> Outcome {
  let o = Opts::default().be(c.be);
  let r = convert(&c.src, &o);
  let root = match html::parse(r.html()) {
    Ok(r) => r,
    Err(e) => fail!("html", "{e}: {}", r.html()),
  };
  let mut got = vec![];
  events(&root, &mut vec![], false, &mut 0, &[], &mut got);
  let mut want = c.want.clone();
  // the level of a list is the level of its first entry
  fn levels(n: &mut [Toc], special_top: bool) {
    let Some(l) = n.first().map(|t| t.level) else { return };
    for t in n {
      t.level = if special_top { 99 } else { l };
      levels(&mut t.kids, false);
    }
  }
  for evs in [&mut want, &mut got] {
    for e in evs {
      if let Ev::T { nodes, .. } = e {
        // special sections of a multi-part book at the top can count as level 0 or 1
        let top = nodes.first().is_some_and(|t| t.level <= 1) && c.src.contains(":doctype: book");
        levels(nodes, top);
      }
    }
  }
  if want != got {
    let at = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    let sig = match (want.get(at), got.get(at)) {
      (Some(Ev::H(a)), Some(Ev::H(b))) if a.tag != b.tag => "heading level",
      (Some(Ev::H(a)), Some(Ev::H(b))) if a.text != b.text => "heading text",
      (Some(Ev::H(a)), Some(Ev::H(b))) if a.id != b.id => "heading id",
      (Some(Ev::H(a)), Some(Ev::H(b))) if a.path != b.path => "heading nesting",
      (Some(Ev::H(_)), Some(Ev::H(_))) => "heading",
      (Some(Ev::P { .. }), Some(Ev::P { .. })) => "paragraph",
      // numbers are counted over the entries
      (Some(Ev::T { nodes: a, .. }), Some(Ev::T { nodes: b, .. })) if a != b && a.len() == b.len() && c.src.contains(":toclevels: 0\n") => "toc numbers with toclevels 0",
      (Some(Ev::T { nodes: a, .. }), Some(Ev::T { nodes: b, .. })) if a != b => "toc entries",
      (Some(Ev::T { .. }), Some(Ev::T { .. })) => "toc",
      (Some(Ev::T { .. }), _) => "toc missing",
      (_, Some(Ev::T { .. })) => "toc unexpected",
      (None, _) => "unexpected",
      _ => "missing",
    };
    fail!(sig, "expected\n{}\ngot\n{}\n{}", show(&want), show(&got), r.html());
  }
  Ok(())
}

fn run_outline(s: &mut Src, cx: &mut Cx) -> Outcome {
  let c = gen_case(s, false);
  cx.case(format!("{:?}\n{}", c.be, c.src));
  cx.nontrivial(c.heads >= 3);
  check(&c)
}

fn run_toc(s: &mut Src, cx: &mut Cx) -> Outcome {
  let c = gen_case(s, true);
  cx.case(format!("{:?}\n{}", c.be, c.src));
  cx.nontrivial(c.heads >= 3 && c.entries >= 2);
  ensure!(c.want.len() < 100, "size", "");
  check(&c)
}
