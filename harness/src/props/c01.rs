//! C01: no input makes parse+convert panic, crash, or run forever.
use crate::conv::*;
use crate::engine::*;
use crate::generate::*;
use asciidork_core::*;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub fn prop() -> Prop {
  Prop {
    id: "C01",
    run,
    quick: 800_000,
    thorough: 15_000_000,
    rule: "documents spliced from syntax fragments, seeds taken from real AsciiDoc and random unicode, mutated; run through the parser and both backends under random settings and in-memory includes; non-trivial: the document has 2+ lines and renders to 1+ element",
    assumptions: &["8 MiB stack", "64-bit address space"],
  }
}

pub fn seeds() -> &'static Vec<&'static str> {
  static S: OnceLock<Vec<&'static str>> = OnceLock::new();
  S.get_or_init(|| include_str!("../../corpus/seeds.txt").split("\n\u{1e}\n").collect())
}

const FRAGS: &[&str] = &[
  "\n", "\n\n", " ", "a", "foo", "bar baz", "1", "= ", "== ", "=== ", "====== ", "* ", "** ", "- ", ". ", ".. ",
  "1. ", "a. ", "i) ", "foo:: ", "bar::: ", "baz;; ", "<1> ", "<.> ", "* [x] ", "* [ ] ", "+\n", "\n+\n",
  "----\n", "....\n", "====\n", "****\n", "____\n", "++++\n", "--\n", "```\n", "```rust\n", "////\n", "-----\n",
  "|===\n", ",===\n", ":===\n", "!===\n", "|", "a|", "2+|", ".2+|", "3*|", "h|", "^.^e|", "!", ",", ":", "\"",
  "'", "`", "*", "_", "#", "~", "^", "**", "__", "``", "##", "+", "++", "+++", "\\", "\\\\", "{", "}", "{empty}",
  "{foo}", "{counter:x}", "{counter2:y:7}", "{set:foo:bar}", "{set:foo!}", "[", "]", "[[", "]]", "[[[", "]]]", "[[id]]", "<<", ">>", "<<id>>", "<<id,text>>",
  "((", "))", "(((", ")))", "indexterm:[a,b]", "(C)", "(R)", "(TM)", "--", " -- ", "...", "->", "=>", "<-", "<=",
  "'''\n", "***\n", "---\n", "<<<\n", "toc::[]\n", "image::x.png[]", "image:x.png[a,b]", "video::x[]", "audio::x[]",
  "link:x[y]", "http://a.b", "https://a.b[c]", "mailto:a@b.c[d]", "a@b.co", "xref:id[]", "footnote:[x]",
  "footnote:a[b]", "footnote:a[]", "kbd:[a+b]", "btn:[x]", "menu:a[b>c]", "pass:[x]", "pass:q[x]", "stem:[x]",
  "icon:x[]", "anchor:x[]", "include::a.adoc[]\n", "include::b.adoc[lines=1..3]\n", "include::c.txt[tag=a]\n",
  "include::d.adoc[leveloffset=+1,indent=2]\n", "ifdef::foo[]\n", "ifndef::foo[]\n", "endif::[]\n", "endif::foo[]\n",
  "ifdef::foo[bar]\n", "ifeval::[1 == 1]\n", "ifeval::[\"{x}\" != 'a']\n", ":foo: bar\n", ":foo:\n", ":!foo:\n", ":foo!:\n",
  ":foo: a \\\n", ":leveloffset: +1\n", ":sectnums:\n", ":toc:\n", ":doctype: book\n", ":idprefix:\n", ":idseparator: -\n",
  ":experimental:\n", ":hardbreaks-option:\n", ":icons: font\n", ":author: A B\n", ":source-highlighter: x\n",
  "[source,rust]\n", "[quote,a,b]\n", "[verse]\n", "[NOTE]\n", "NOTE: ", "[cols=\"1,2\"]\n", "[cols=\"2*,a\"]\n", "[%header]\n",
  "[format=csv]\n", "[separator=;]\n", "[%collapsible]\n", "[horizontal]\n", "[qanda]\n", "[start=3]\n", "[%reversed]\n",
  "[discrete]\n", "[appendix]\n", "[glossary]\n", "[bibliography]\n", "[preface]\n", "[abstract]\n", "[partintro]\n", "[index]\n",
  "[subs=attributes+]\n", "[subs=\"+quotes,-callouts\"]\n", "[subs=none]\n", "[listing]\n", "[literal]\n", "[pass]\n", "[stem]\n", "[example]\n", "[sidebar]\n", "[normal]\n",
  "[#id.role%opt]\n", "[id=x,role=y]\n", ".Title\n", "// comment\n", "\t", "\r\n", "\r", "\u{feff}", "é", "日本", "😀", "\u{a0}", "\u{2028}", "\0",
  "<", ">", "&", "&amp;", "&#167;", "\"`", "`\"", "'`", "`'", "[.r]#", "[.r]*", " +\n", "==", "=", "====", ":::", "::", ";;", "%", "@", "!", "$$",
  "latexmath:[x]", "asciimath:[x]", "pass:c,q[", "++<b>++", "endif::", "ifdef::", "include::", "tag::a[]\n", "end::a[]\n", "# tag::a[]\n",
  "callout <1>\n", "foo # <1>\n", "<!--1-->", "[NOTE]\n====\n", "a::\nb\n+\n--\n", "|===\n|a |b\n\n|c |d\n|===\n", "== Foo\n\n", "= Doc\n", "= Doc\nAuthor Name <a@b.c>\nv1.0, 2020-01-01: rem\n:toc:\n\n",
  "A; B; C D E <x@y.z>\n", "v1,\n", ":: \n", "lines=1;3..-1", "tags=**;!a", "[[a,b]]", "[[[x,y]]]", "{zwsp}{plus}", "[.lead]", "[,ruby]\n", "Title\n=====\n", "Sect\n----\n",
  "ifdef::foo[", "ifndef::foo[", "]\n", ":attribute-missing: drop-line\n", "ifdef::foo,bar[]\n", "ifndef::foo+bar[", "endif::[]", "ifdef::a+b[x]", "include::a.adoc[",
];

pub const ATTRS: &[(&str, &str)] = &[
  ("experimental", ""), ("icons", "font"), ("icons", ""), ("sectnums", ""), ("toc", ""), ("toc", "left"), ("toc", "macro"), ("toc", "preamble"), ("toclevels", "5"),
  ("sectanchors", ""), ("sectlinks", ""), ("idprefix", ""), ("idseparator", "-"), ("xrefstyle", "full"), ("hardbreaks-option", ""),
  ("source-highlighter", "highlight.js"), ("attribute-missing", "drop-line"), ("attribute-missing", "warn"), ("doctype", "book"),
  ("leveloffset", "1"), ("leveloffset", "-1"), ("partnums", ""), ("hide-uri-scheme", ""), ("table-caption", ""), ("figure-caption", "Fig"), ("compat-mode", ""),
  ("stem", "latexmath"), ("stem", ""), ("imagesdir", "img"), ("iconsdir", "ic"), ("data-uri", ""), ("relfileprefix", "../"), ("outfilesuffix", ".htm"),
  ("max-include-depth", "3"), ("allow-uri-read", ""), ("showtitle", ""), ("notitle", ""), ("nofooter", ""), ("linkcss", ""), ("listing-caption", "Listing"), ("docinfo", "shared"),
  ("sectids", ""), ("tabsize", "4"), ("foo", "bar"), ("reproducible", ""), ("html5s-force-stem-type", "x"), ("title-separator", "|"), ("asset-uri-scheme", ""), ("appendix-caption", "App"), ("sectnumlevels", "9"),
];

pub fn rand_text(s: &mut Src, max: usize) -> String {
  let mut out = String::new();
  let n = s.range(1, max);
  for _ in 0..n {
    match s.weighted(&[60, 10, 12, 3]) {
      0 => out.push_str(s.pick(FRAGS)),
      1 => out.push_str(seeds()[s.below(seeds().len())]),
      2 => {
        let sd = seeds()[s.below(seeds().len())];
        let lines: Vec<&str> = sd.lines().collect();
        if !lines.is_empty() {
          out.push_str(lines[s.below(lines.len())]);
          out.push('\n');
        }
      }
      _ => {
        let c = char::from_u32(s.below(0x3000) as u32).unwrap_or('x');
        out.push(c);
      }
    }
  }
  out
}

const NUMBERS: &[&str] = &[
  "0", "1", "2", "3", "7", "26", "27", "99", "100", "127", "128", "255", "256", "257", "999", "32768", "65535", "65536", "2147483648", "4294967296",
  "9223372036854775808", "99999999999999999999", "-1", "007", "1.5", "",
];

pub fn mutate(s: &mut Src, t: String) -> String {
  let mut cs: Vec<char> = t.chars().collect();
  for _ in 0..s.below(4) {
    if cs.is_empty() {
      break;
    }
    let i = s.below(cs.len());
    match s.below(7) {
      // another number
      4 => {
        let Some(a) = (0..cs.len()).map(|k| (i + k) % cs.len()).find(|k| cs[*k].is_ascii_digit()) else { continue };
        let n = cs[a..].iter().take_while(|c| c.is_ascii_digit()).count();
        cs.splice(a..a + n, s.pick(NUMBERS).chars());
      }
      // another amount of the same punctuation
      5 => {
        let Some(a) = (0..cs.len()).map(|k| (i + k) % cs.len()).find(|k| cs[*k].is_ascii_punctuation()) else { continue };
        let c = cs[a];
        let n = s.below(4);
        cs.splice(a..a + 1, std::iter::repeat_n(c, if n == 3 { s.range(2, 40) } else { n }));
      }
      // a character of several bytes
      6 => cs.insert(i, s.one(&['é', '日', '😀', '\u{301}', '\u{a0}', '\u{2003}', '\u{130}', '\u{feff}', 'ß', '\u{200b}'])),
      0 => {
        let n = s.range(1, 4).min(cs.len() - i);
        cs.drain(i..i + n);
      }
      1 => {
        let f: Vec<char> = s.pick(FRAGS).chars().collect();
        cs.splice(i..i, f);
      }
      2 => {
        // truncate
        cs.truncate(i);
      }
      _ => {
        // duplicate a slice elsewhere
        let n = s.range(1, 20).min(cs.len() - i);
        let sl: Vec<char> = cs[i..i + n].to_vec();
        let j = s.below(cs.len());
        cs.splice(j..j, sl);
      }
    }
  }
  cs.into_iter().collect()
}

pub fn doc(s: &mut Src) -> String {
  let t = match s.weighted(&[30, 50, 20, 14]) {
    0 => rand_text(s, 8),
    1 => rand_text(s, 30),
    3 => {
      let cfg = Cfg { budget: s.range(1, 10) as i32, sections: s.chance(50), header: s.chance(30), ..Cfg::default() };
      let mut g = G::new(s, cfg);
      g.document().0
    }
    _ => {
      let a = seeds()[s.below(seeds().len())].to_string();
      let b = seeds()[s.below(seeds().len())];
      if s.chance(50) { a } else { format!("{a}\n\n{b}") }
    }
  };
  mutate(s, t)
}

fn run(s: &mut Src, cx: &mut Cx) -> Outcome {
  let src = doc(s);
  let mut o = Opts::default();
  o.be = if s.chance(35) { Be::Html5s } else { Be::Html };
  o.strict = s.chance(10);
  o.embedded = !s.chance(10);
  o.doctype = s.one(&[None, None, None, Some(DocType::Article), Some(DocType::Book), Some(DocType::Manpage), Some(DocType::Inline)]);
  o.safe = s.one(&[SafeMode::Unsafe, SafeMode::Safe, SafeMode::Server, SafeMode::Secure]);
  for _ in 0..s.below(4) {
    let (k, v) = s.one(ATTRS);
    let ro = s.chance(50);
    let junk = s.pick(FRAGS);
    let v = match s.below(12) {
      0 => s.pick(NUMBERS),
      1 => junk,
      _ => v,
    };
    o.attrs.push((k.into(), if v.is_empty() { AttrValue::Bool(true) } else { AttrValue::String(v.into()) }, ro));
  }
  if !o.embedded {
    o.attrs.push(("linkcss".into(), AttrValue::Bool(true), true));
  }
  o.file = match s.below(3) {
    0 => FileKind::Path("/d/x.adoc".into()),
    1 => FileKind::Stdin("/d".into()),
    _ => FileKind::Tmp,
  };
  if s.chance(60) {
    let mut m: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for f in ["a.adoc", "b.adoc", "c.txt", "d.adoc"] {
      if s.chance(80) {
        let t = doc(s);
        let bytes = match s.weighted(&[90, 5, 3, 2]) {
          0 => t.into_bytes(),
          1 => t.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
          2 => [0xFF, 0xFE].into_iter().chain(t.encode_utf16().flat_map(|u| u.to_le_bytes())).collect(),
          _ => {
            let mut b = t.into_bytes();
            if !b.is_empty() {
              let i = s.below(b.len());
              b[i] = 0xC3;
            }
            b
          }
        };
        m.insert(format!("/d/{f}"), bytes);
      }
    }
    o.files = Some(m);
    o.base_dir = if s.chance(80) { Some("/d".into()) } else { None };
  }
  if s.chance(40) {
    o.now = Some((1734960586, Some(1734960000), if s.chance(50) { Some(1262304000) } else { None }));
  }
  cx.case(format!(
    "{:?} doctype={:?} {:?} strict={} embedded={} {:?} {:?}\nattrs={:?} files={:?}\n{src:?}\n{src}",
    o.be, o.doctype, o.safe, o.strict, o.embedded, o.file, o.now, o.attrs,
    o.files.as_ref().map(|m| m.iter().map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).into_owned())).collect::<Vec<_>>())
  ));
  let c = convert(&src, &o);
  cx.label(if c.html.is_some() { "rendered" } else { "refused" });
  cx.nontrivial(src.lines().count() >= 2 && c.html().contains("</"));
  Ok(())
}
