//! C03 well-formed output, C04 no injection.
use super::c01;
use crate::conv::*;
use crate::engine::*;
use crate::generate::*;
use crate::{fail, html};
use asciidork_core::*;

pub fn wellformed() -> Prop {
  Prop {
    id: "C03",
    run: wf,
    quick: 250_000,
    thorough: 8_000_000,
    rule: "random documents without passthrough constructs, well-formed and malformed, under random settings, both backends, embedded and standalone; non-trivial: 5+ elements in the output",
    assumptions: &["passthroughs (macros, blocks, plus signs, subs that drop special characters, stem) are excluded: they emit their content raw by design"],
  }
}

/// constructs that emit raw text by design
pub fn has_pass(src: &str) -> bool {
  let l = src.to_lowercase();
  // an attribute reference can vanish and join what surrounds it: `p{empty}ass`
  let mut joined = String::new();
  let mut rest = l.as_str();
  while let Some(i) = rest.find('{') {
    joined.push_str(&rest[..i]);
    match rest[i..].find(['}', '\n']) {
      Some(j) => rest = &rest[i + j + 1..],
      None => {
        rest = &rest[i + 1..];
      }
    }
  }
  joined.push_str(rest);
  ["pass", "++", "$$", "subs", "stem", "math", "+\\"].iter().any(|p| l.contains(p) || joined.contains(p))
}

pub fn settings_for(s: &mut Src) -> Opts {
  let mut o = Opts::default();
  o.be = if s.chance(40) { Be::Html5s } else { Be::Html };
  o.embedded = !s.chance(20);
  o.doctype = s.one(&[None, None, None, None, Some(DocType::Article), Some(DocType::Book), Some(DocType::Manpage), Some(DocType::Inline)]);
  o.safe = s.one(&[SafeMode::Secure, SafeMode::Server, SafeMode::Safe, SafeMode::Unsafe]);
  for _ in 0..s.below(3) {
    let (k, v) = s.one(c01::ATTRS);
    if k == "doctype" || k.contains("stem") || k == "compat-mode" {
      continue;
    }
    o.attrs.push((k.into(), if v.is_empty() { AttrValue::Bool(true) } else { AttrValue::String(v.into()) }, s.chance(50)));
  }
  if !o.embedded {
    o.attrs.push(("linkcss".into(), AttrValue::Bool(true), true));
  }
  o
}

pub fn show_opts(o: &Opts) -> String {
  format!("{:?} doctype={:?} {:?} embedded={} attrs={:?}", o.be, o.doctype, o.safe, o.embedded, o.attrs)
}

fn wf(s: &mut Src, cx: &mut Cx) -> Outcome {
  let src = match s.below(4) {
    0 => {
      let cfg = Cfg { budget: s.range(2, 16) as i32, sections: s.chance(50), header: s.chance(40), html5s: true, ..Cfg::default() };
      let mut g = G::new(s, cfg);
      let d = g.document().0;
      if s.chance(50) { d } else { c01::mutate(s, d) }
    }
    _ => c01::doc(s),
  };
  let o = settings_for(s);
  cx.case(format!("{}\n{src:?}\n{src}", show_opts(&o)));
  if has_pass(&src) {
    cx.discarded = true;
    return Ok(());
  }
  let c = convert(&src, &o);
  let root = match html::parse(c.html()) {
    Ok(r) => r,
    Err(e) => fail!(format!("{:?} {}", o.be, e.split(" near").next().unwrap()), "{e}\n{}", c.html()),
  };
  let mut n = 0;
  root.walk(&mut |_| n += 1);
  cx.nontrivial(n > 5);
  cx.label(if o.be == Be::Html { "html" } else { "html5s" });
  Ok(())
}

pub fn injection() -> Prop {
  Prop {
    id: "C04",
    run: inj,
    quick: 300_000,
    thorough: 8_000_000,
    rule: "markup payloads at 1-4 positions of a document: the slots of construct templates (targets, ids, roles, titles, attribute values, cells, header fields, included files, attribute entries and API attributes), or any position of a random document; both backends, embedded and standalone; non-trivial: the payload's sentinel word reaches the output",
    assumptions: &["passthroughs are excluded: they emit their content raw by design"],
  }
}

const PAYLOADS: &[&str] = &[
  "<zzq>", "</p><zzq>", "\"><zzq>", "\" zzq=\"1", "' zzq='1", "<zzq a=\"b\">", "\" onload=\"zzq", "<script>zzq</script>", "zzq&<", "<zzq/>", "</div></td><zzq>", "<!--zzq",
  "zzq\"", "zzq>", "<zzq", "&\"<zzq>", "-><zzq>", "(C)<zzq>", "x<zzq>x", "a\" zzq", "--><zzq>", "é<zzq>", "&#60;zzq&#62;", "\\<zzq>", "<<zzq>>", "<zzq@a.b>", "<https://zzq>", "`<zzq>`", "*<zzq>*", "\"`<zzq>`\"",
];

/// `@` marks where a payload goes
const SLOTS: &[&str] = &[
  "@", "a @ b", "*@*", "_@_", "`@`", "#@#", "^@^", "~@~", "**@**", "[.r]#@#", "[@]#x#", "[.@]*x*", "[#@]_x_", "\"`@`\"", "'`@`'",
  "image:@[]", "image:x.png[@]", "image:x.png[a,@]", "image:x.png[a,1,@]", "image:x.png[alt=\"@\"]", "image:x.png[title=\"@\"]", "image:x.png[link=\"@\"]", "image:x.png[link=l,window=\"@\"]", "image:x.png[role=\"@\"]", "image:x.png[float=\"@\"]", "image:x.png[align=\"@\"]",
  "image:x.svg[a,opts=interactive,fallback=\"@\"]", "image:x.svg[@,opts=inline]", "image::@[]", "image::x.png[@]", "image::x.png[a,@]", "image::x.png[title=\"@\"]", "image::x.png[link=\"@\"]", "[link=\"@\"]\nimage::x.png[]", "image::x.png[align=\"@\"]", "image::x.png[float=\"@\"]", "[alt=@]\nimage::x.png[]", ".@\nimage::x.png[]",
  "icon:@[]", "icon:x[@]", "icon:x[size=\"@\"]", "icon:x[title=\"@\"]", "icon:x[alt=\"@\"]", "icon:x[link=\"@\"]", "icon:x[flip=\"@\"]", "icon:x[role=\"@\"]",
  "link:@[x]", "link:a[@]", "link:a[x,role=\"@\"]", "link:a[x,window=\"@\"]", "link:a[x,id=\"@\"]", "link:a[x,title=\"@\"]", "http://a.b/@[x]", "http://a.b/@", "http://a.b[@]", "mailto:@[x]", "mailto:a@b.c[x,@,@]", "a@b.c @", "<http://a.b/@>",
  "xref:@[x]", "xref:a[@]", "xref:a.adoc#@[]", "<<@>>", "<<a,@>>", "<<a.adoc#@,x>>", "[[@]]x", "[[a,@]]x <<a>>", "anchor:@[]x", "anchor:a[@]x <<a>>", "[[@]]\nx", "[[a,@]]\nx <<a>>", "[#@]\nx", "[id=\"@\"]\nx", "[.@]\nx", "[role=\"@\"]\nx",
  "[reftext=\"@\"]\n[[a]]\nx <<a>>", "* [[[@]]] x", "* [[[a,@]]] x <<a>>", "[bibliography]\n== B\n\n* [[[a,@]]] x <<a>>",
  "kbd:[@]", "kbd:[a+@]", "btn:[@]", "menu:@[a]", "menu:a[@]", "menu:a[b > @ > c]", "footnote:[@]", "footnote:@[x]", "footnote:a[@] footnote:a[]", "((@))", "(((@)))", "indexterm:[@]", "indexterm2:[@]", "indexterm:[a,see=@]",
  "video::@[]", "video::x[@]", "video::x[poster=\"@\"]", "video::x[start=\"@\"]", "video::@[youtube]", "video::x[youtube,list=\"@\"]", "video::x[youtube,theme=\"@\",lang=\"@\",start=\"@\",end=\"@\"]", "video::x[vimeo,hash=\"@\"]", "video::@[vimeo]", "video::x[wistia,start=\"@\"]", "video::x[width=\"@\"]", "video::x[preload=\"@\"]", "audio::@[]", "audio::x[start=\"@\",end=\"@\"]", ".@\naudio::x[]",
  ":foo: @\n\n{foo}", ":foo: @\n\nimage::{foo}[]", ":foo: @\n\n[#{foo}.{foo}]\nx", ":foo: @\n\nlink:{foo}[{foo}]", ":foo: @\n\n== {foo}", ":foo: @\n\n|===\n|{foo}\n|===", ":foo: @\n\n----\n{foo}\n----", ":foo: @\n\n[subs=attributes+]\n----\n{foo}\n----", "{set:foo:@}{foo}", "{counter:@}", "{counter:c:@}", "{@}", ":@: x\n\ny",
  "== @", "== @ [[a]]", "=== @", "[discrete]\n== @", "[.@]\n== x", "[#@]\n== x", "[[a,@]]\n== x\n\n<<a>>", "[appendix]\n== @", "[discrete.@#@]\n== x", "[reftext=\"@\"]\n== x\n\n<<_x>>",
  ".@\nx", ".@\n----\nx\n----", ".@\n|===\n|x\n|===", ".@\n====\nx\n====", ".@\n* x", ".@\n****\nx\n****", ".@\n[NOTE]\nx", "[NOTE,caption=\"@\"]\nx", "[NOTE,icon=\"@\"]\nx", "NOTE: @", ".@\n[%collapsible]\n====\nx\n====", ".@\n--\nx\n--", ".@\n____\nx\n____", "[caption=\"@\"]\n.t\n|===\n|x\n|===",
  "----\n@\n----", "....\n@\n....", "```\n@\n```", "```@\nx\n```", "[source,@]\n----\nx\n----", "[source,ruby,@]\n----\nx\n----", "[,@]\n----\nx\n----", "[source%@]\n----\nx\n----", "[listing]\n@", "[literal]\n@", " @", "[source,r]\n----\nx @<1>\n----\n<1> @", "[source,line-comment=\"@\"]\n----\nx @ <1>\n----", "----\n@ <!--1-->\n----",
  "____\n@\n____", "[quote,@]\n____\nx\n____", "[quote,a,@]\n____\nx\n____", "[verse,@,@]\n____\n@\n____", "[quote,@,@]\nx", "\"x @\"\n-- @, @", "[verse]\n@", "> @", "> x\n> -- @", "[example]\n@", "[sidebar]\n@", "[abstract]\n@", "[abstract]\n.@\nx", "[stem]\nx",
  "* @", ". @", "* [x] @", "a:: @", "@:: b", "[horizontal]\n@:: @", "[qanda]\n@:: @", "[horizontal,labelwidth=\"@\",itemwidth=\"@\"]\na:: b", "[start=\"@\"]\n. x", "[@]\n. x", "[@]\n* x", "* x\n+\n@", "<1> @", "[glossary]\n@:: @",
  "|===\n|@\n|===", "[cols=\"@\"]\n|===\n|x\n|===", "[cols=\"1a\"]\n|===\n|@\n|===", "[cols=\"1l\"]\n|===\n|@\n|===", "[cols=\"1m,1s,1e,1h,1d\"]\n|===\n|@ |@ |@ |@ |@\n|===", "[%header]\n|===\n|@\n|x\n|===", "[%header,format=csv]\n|===\n@,\"@\"\n@,b\n|===", ",===\n@,b\n,===", ":===\n@:b\n:===", "[frame=\"@\",grid=\"@\",stripes=\"@\",width=\"@\"]\n|===\n|x\n|===", "[separator=@]\n|===\n|x\n|===", "|===\na|@ footnote:[@]\n|===", ":table-frame: @\n:table-grid: @\n:table-stripes: @\n\n|===\n|x\n|===",
  "toc::[title=\"@\"]", "[#@.@]\ntoc::[]\n\n== x", ":toc:\n:toc-title: @\n:toc-class: @\n\n== x", ":appendix-caption: @\n\n[appendix]\n== x", ":note-caption: @\n\nNOTE: x", ":table-caption: @\n\n.t\n|===\n|x\n|===", ":source-language: @\n\n[source]\n----\nx\n----", ":imagesdir: @\n\nimage::x.png[]\nimage:y.png[]", ":iconsdir: @\n\nicon:x[]", ":icontype: @\n\nicon:x[]", ":relfileprefix: @\n\nxref:a.adoc[]", ":outfilesuffix: @\n\nxref:a.adoc[]", ":idprefix: @\n\n== x", ":idseparator: @\n\n== x y", ":section-refsig: @\n:xrefstyle: full\n:sectnums:\n\n== x\n\n<<_x>>", ":html5s-image-self-link-label: @\n\nimage::x.png[link=self]", ":part-signifier: @\n:partnums:\n:doctype: book\n\n= x",
  "include::@[]", "// @", "////\n@\n////", "'''\n@", "<<<@", "ifdef::@[]\nx\nendif::[]", "ifeval::[\"@\" == 1]\nx\nendif::[]", "ifdef::foo[@]", "ifndef::foo[@]", "include::p.adoc[]", "----\ninclude::p.adoc[]\n----", "include::a.adoc[tag=@]", "image:http://a.b/@[]", "stem:[x]", "a +\n@", "@::@[@]", "@:@[@]", "[@]", "[@,@]\n@", "[subs=\"@\"]\nx @", "[opts=\"@\"]\nx", "[cols=@,@=@]\n|===\n|@\n|===",
];

const HEADS: &[&str] = &[
  "= @\n", "= T: @\n", "= T\n@\n", "= T\nA B <@>\n", "= T\nA B <a@b.c>\nv1, 2020-01-01: @\n", "= T\nA B\nv@, @: @\n", "= T\n:description: @\n:keywords: @\n:copyright: @\n:app-name: @\n", "= T\n:author: @\n:email: @\n", "= T\n:authors: @; @\n", "= T\n:revnumber: @\n:revdate: @\n:revremark: @\n:version-label: @\n",
  "= T\n:title: @\n", "= T\n:lang: @\n:encoding: @\n", "= T\n:favicon: @\n", "= T\n:css-signature: @\n:max-width: @\n", "= T\n:stylesheet: @\n:stylesdir: @\n:linkcss:\n", "= T\n:webfonts: @\n:linkcss:\n", "= T\n:toc: left\n:toc-title: @\n", "= T\n:doctype: book\n:toc:\n", "= T\n:title-separator: @\n", "= T @: U\n", "= T\n:last-update-label: @\n", "[reftext=@]\n= T\n", "[.@#@]\n= T\n", "= T\n:docinfo: shared\n", "= T\n:stem: @\n", "",
];

fn inj(s: &mut Src, cx: &mut Cx) -> Outcome {
  let mut src = String::new();
  let fill = |s: &mut Src, t: &str| -> String {
    let p = *s.one(&PAYLOADS.iter().collect::<Vec<_>>());
    let mut o = String::new();
    for (i, part) in t.split('@').enumerate() {
      if i > 0 {
        // a payload per slot, or the same one
        o.push_str(if s.chance(30) { s.pick(PAYLOADS) } else { p });
        if s.chance(15) {
          o.push_str(" y");
        }
      }
      o.push_str(part);
    }
    o
  };
  let mut o = settings_for(s);
  match s.below(4) {
    0..=2 => {
      if s.chance(25) || !o.embedded {
        let h = s.pick(HEADS);
        src.push_str(&fill(s, h));
        src.push('\n');
      }
      for _ in 0..s.range(1, 3) {
        let t = s.pick(SLOTS);
        // nested in something else
        let t = match s.below(12) {
          0 => format!("* x\n+\n{t}"),
          1 => format!("====\n{t}\n===="),
          2 => format!("|===\na|\n{t}\n|==="),
          3 if !t.contains('\n') => format!("== {t}"),
          4 if !t.contains('\n') => format!(".{t}\nx"),
          5 if !t.contains('\n') => format!("a:: {t}"),
          6 if !t.contains('\n') => format!("|===\n|{t}\n|==="),
          7 if !t.contains('\n') => format!("x footnote:[{t}]"),
          8 if !t.contains('\n') => format!("*{t}*"),
          _ => t.to_string(),
        };
        src.push_str(&fill(s, &t));
        src.push_str("\n\n");
      }
      if s.chance(10) {
        src = c01::mutate(s, src);
      }
    }
    _ => {
      let mut d = c01::doc(s);
      for _ in 0..s.range(1, 4) {
        let cs: Vec<usize> = d.char_indices().map(|x| x.0).chain([d.len()]).collect();
        let i = cs[s.below(cs.len())];
        d.insert_str(i, s.pick(PAYLOADS));
      }
      src = d;
    }
  }
  if s.chance(10) {
    let k = s.one(&["foo", "imagesdir", "toc-title", "note-caption", "description", "author", "lang", "table-caption", "source-language", "appendix-caption", "doctitle", "title", "revnumber", "toc-class", "iconsdir"]);
    o.attrs.push((k.into(), AttrValue::String(s.pick(PAYLOADS).into()), s.chance(50)));
  }
  let files = ["a.adoc", "p.adoc"].iter().map(|n| (n.to_string(), format!("x {}\n", s.pick(PAYLOADS)).into_bytes())).collect();
  o.files = Some(files);
  o.base_dir = Some("/w".into());
  o.file = FileKind::Path("/w/m.adoc".into());
  if s.chance(50) {
    o.attrs.push(("experimental".into(), AttrValue::Bool(true), true));
  }
  if s.chance(30) {
    o.attrs.push(("icons".into(), AttrValue::String(s.pick(&["font", "image", ""]).into()), true));
  }
  cx.case(format!("{}\n{src:?}\n{src}", show_opts(&o)));
  if has_pass(&src) {
    cx.discarded = true;
    return Ok(());
  }
  let c = convert(&src, &o);
  cx.nontrivial(c.html().contains("zzq"));
  let root = match html::parse(c.html()) {
    Ok(r) => r,
    Err(e) => fail!(format!("{:?} {}", o.be, e.split(" near").next().unwrap()), "{e}\n{}", c.html()),
  };
  let mut bad = None;
  root.walk(&mut |e| {
    let own_script = e.tag == "script" && !e.text().contains("zzq");
    if e.tag.contains("zzq") || (e.tag == "script" && !own_script) {
      bad = Some(format!("element <{}>", e.tag));
    }
    for (k, _) in &e.attrs {
      if k.contains("zzq") || k.starts_with("on") {
        bad = Some(format!("attribute {k} of <{}>", e.tag));
      }
    }
  });
  if let Some(b) = bad {
    fail!(format!("{:?} injected {b}", o.be), "{b}\n{}", c.html());
  }
  cx.label(if o.be == Be::Html { "html" } else { "html5s" });
  Ok(())
}
