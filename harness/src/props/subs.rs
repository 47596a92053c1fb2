//! C05: verbatim content is reproduced exactly. C16: substitutions apply exactly as configured.
use crate::conv::*;
use crate::engine::*;
use crate::html::{self, El};
use crate::props::c01;
use crate::{ensure, fail};

pub fn verbatim() -> Prop {
  Prop {
    id: "C05",
    run: run_verbatim,
    quick: 450_000,
    thorough: 6_000_000,
    rule: "lines of random text, markup and Unicode inside every kind of verbatim block, alone or nested in lists, delimited blocks, sections and table cells; non-trivial: 2+ lines with a character that is markup elsewhere",
    assumptions: &["lines that close the block, callout numbers and live preprocessor directives are not content"],
  }
}

pub fn subs() -> Prop {
  Prop {
    id: "C16",
    run: run_subs,
    quick: 450_000,
    thorough: 6_000_000,
    rule: "one probe per substitution inside each kind of block under a random `subs` attribute (absolute, added, removed, groups, short forms), and inside pass macros with a random substitution list; non-trivial: the attribute changes the substitutions",
    assumptions: &[],
  }
}

// ---------------------------------------------------------------- C05

const VLINES: &[&str] = &[
  "fn main() {", "  x = *y* + _z_;", "a < b && c > d", "<b>bold</b> &amp; &copy;", "{empty}{foo} {counter:z}", "(C) (R) (TM) -- ... -> => <- <=", "it's 'q' \"d\"",
  "https://a.b[x] link:c[d] a@b.co", "<<ref>> [[anchor]] [[[bib]]] xref:y[]", "footnote:[x] kbd:[a] image:x.png[]", "* item", "** item", ". item", "- item", "a:: b", "== Heading",
  "= Title", ".Title", "[NOTE]", "[[id]]", "[source,ruby]", "|===", "|a |b", "====", "****", "____", "++++", "--", "```", "----", "....", "-----", "|====", "NOTE: x", "+", "++a++ +b+ +++c+++",
  "pass:[x] pass:q[*a*]", "stem:[x]", "// comment", "////", "'''", "<<<", "trailing +", "\\*a*", "\\{b}", "\\\\**c**", "#hash#", "`code`", "``code``", "~sub~ ^sup^", "((term)) (((a,b)))", ":attr: value", ":!attr:", "{set:a:b}", "\"`curly`\" '`q`'",
  "\ttab", "    four", " one", "a\tb", "é 日本 😀 \u{a0} ß", "\u{200b}zero", "%x $y @z !w ~v ^u", "end;", "}", "",
  "", "toc::[]", "image::x.png[]", "video::v[]", "[%hardbreaks]", "[.role]#x#", "a|b", "2+|c", "!===", ",===", "*", "-", ".", "[", "]", "{", "}", "\\", "<", ">", "&", "#", "<a1>", "<1 2>", "x <y>", "1.", "a.", "- [x] y", "~~~", "===", "=", "# md", "> q", "tag::x[]", "end::x[]", "a\\", "\\\\",
];

fn vline(s: &mut Src) -> String {
  match s.weighted(&[60, 20, 20]) {
    0 => s.pick(VLINES).to_string(),
    1 => {
      let mut l = String::new();
      for _ in 0..s.range(1, 6) {
        let f = if s.chance(80) { s.pick(VLINES) } else { "w" };
        l.push_str(f);
        if s.chance(40) {
          l.push(' ');
        }
      }
      l
    }
    _ => {
      let t = c01::rand_text(s, 4);
      t.split(['\n', '\r', '\u{2028}', '\u{85}', '\u{b}', '\u{c}', '\0', '\u{feff}']).next().unwrap_or("").to_string()
    }
  }
}

pub fn has_callout(l: &str) -> bool {
  let mut i = 0;
  while let Some(k) = l[i..].find('<') {
    let r = &l[i + k + 1..];
    let r2 = r.strip_prefix("!--").unwrap_or(r);
    let d = r2.trim_start_matches(|c: char| c.is_ascii_digit());
    let n = r2.len() - d.len();
    let after = if n > 0 { Some(d) } else { r2.strip_prefix('.') };
    if after.is_some_and(|a| a.starts_with('>') || a.starts_with("-->")) {
      return true;
    }
    i += k + 1;
  }
  false
}

fn is_directive(l: &str) -> bool {
  let l = l.trim_start_matches('\\');
  ["include::", "ifdef::", "ifndef::", "ifeval::", "endif::"].iter().any(|d| l.starts_with(d))
}

/// `{name}a@b.co`
fn glued_email(t: &str) -> bool {
  t.match_indices('@').any(|(i, _)| {
    let before = t[..i].trim_end_matches(|c: char| c.is_alphanumeric() || "._+".contains(c));
    before.ends_with('}')
  })
}

fn run_verbatim(s: &mut Src, cx: &mut Cx) -> Outcome {
  let be = if s.chance(35) { Be::Html5s } else { Be::Html };
  let n = s.range(1, 7);
  let mut lines: Vec<String> = (0..n).map(|_| vline(s).trim_end().to_string()).collect();
  // 0 listing, 1 literal, 2 fence, 3 source, 4 literal paragraph, 5 [listing] paragraph, 6 pass block, 7 fence+lang, 8 masq literal/listing, 9 longer content
  let kind = s.below(9);
  let place = s.below(8);
  let cell = place == 4 || place == 5;
  let in_list = place == 1 || place == 2;
  let para = kind == 4 || kind == 5;
  let delim = match kind {
    0 | 3 => "----",
    1 | 8 => "....",
    2 | 7 => "```",
    6 => "++++",
    _ => "",
  };
  let ok = |l: &String| {
    !has_callout(l)
      && !is_directive(l)
      && l.trim_end() != delim
      && !(delim == "```" && l.starts_with("```"))
      // a table drops the comment lines of its source
      && !(cell && (l.starts_with("//") || l.contains('|') || l.contains('!') || l.contains('¦')))
      // a paragraph ends at a blank line, and some lines interrupt it
      && !(para && (l.trim().is_empty() || l.starts_with(|c: char| !c.is_ascii_alphanumeric()) || l.contains("::") || l.contains(";;") || l.ends_with('+') || l.trim_start_matches(|c: char| c.is_ascii_digit()).starts_with('.') || l.starts_with("a.")))
      // the enclosing example block would end
      && !(place == 3 && l.trim_end() == "====")
  };
  lines.retain(ok);
  // blank lines at either end are not content
  while lines.first().is_some_and(|l| l.trim().is_empty()) {
    lines.remove(0);
  }
  while lines.last().is_some_and(|l| l.trim().is_empty()) {
    lines.pop();
  }
  if para {
    for l in &mut lines {
      if kind == 5 {
        *l = format!("w{l}");
      }
    }
  }
  if lines.is_empty() {
    cx.discarded = true;
    return Ok(());
  }
  let mut want = lines.clone();
  let mut body: Vec<String> = vec![];
  let mut src_lines = lines.clone();
  // escaped directives lose their backslash
  if !para && s.chance(15) {
    let d = s.pick(&["include::a.adoc[]", "ifdef::x[]", "endif::[]", "ifeval::[1 == 1]", "ifndef::x[y]"]);
    let k = s.below(src_lines.len() + 1);
    src_lines.insert(k, format!("\\{d}"));
    want.insert(k, d.to_string());
  }
  let pad = s.range(1, 4);
  match kind {
    0 => body.push("----".into()),
    1 => body.push("....".into()),
    2 => body.push("```".into()),
    3 => {
      body.push(s.pick(&["[source]", "[source,ruby]", "[,rust]", "[source,ruby,linenums]"]).into());
      body.push("----".into());
    }
    4 => src_lines = src_lines.iter().map(|l| format!("{}{l}", " ".repeat(pad))).collect(),
    5 => body.push(s.pick(&["[listing]", "[literal]", "[source]", "[source,ruby]"]).into()),
    6 => body.push("++++".into()),
    7 => body.push("```ruby".into()),
    _ => {
      body.push("[listing]".into());
      body.push("....".into());
    }
  }
  // `indent` shifts the whole block
  let mut indent = None;
  if matches!(kind, 0 | 1 | 3) && s.chance(15) && !lines.iter().any(|l| l.contains('\t')) {
    let k = s.below(5);
    indent = Some(k);
    let at = format!("indent={k}");
    if kind == 3 {
      body[0] = format!("[source,ruby,{at}]");
    } else {
      body.insert(0, format!("[{at}]"));
    }
    let min = want.iter().filter(|l| !l.trim().is_empty()).map(|l| l.len() - l.trim_start_matches(' ').len()).min().unwrap_or(0);
    want = want.iter().map(|l| if l.trim().is_empty() { String::new() } else { format!("{}{}", " ".repeat(k), &l[min..]) }).collect();
  }
  let blank_edges = !para && s.chance(10);
  if blank_edges {
    body.push(String::new());
  }
  body.extend(src_lines);
  if blank_edges {
    body.push(String::new());
  }
  if !delim.is_empty() {
    body.push(delim.into());
  }
  let b = body.join("\n");
  let doc = match place {
    0 => format!("{b}\n"),
    1 if kind != 4 => format!("* w\n+\n{b}\n"),
    2 if kind != 4 => format!("w:: x\n+\n{b}\n\nlast\n"),
    3 => format!("====\n{b}\n====\n"),
    4 => format!("|===\na|\n{b}\n|===\n"),
    5 => format!("[cols=\"1,a\"]\n|===\n|w\n|{}{b}\n|===\n", if kind == 4 { "w\n\n" } else { "\n" }),
    6 => format!("= T\n:foo: bar\n\n== S\n\nw\n\n{b}\n\nx\n"),
    _ => format!("w\n\n{b}\n\nx\n"),
  };
  let _ = in_list;
  cx.case(format!("{be:?} kind={kind} place={place} indent={indent:?}\n{doc}"));
  cx.nontrivial(want.len() >= 2 && want.iter().any(|l| l.contains(['*', '_', '`', '<', '{', '[', '(', ':', '=', '|'])));
  cx.label(["listing", "literal", "fence", "source", "literalpara", "styledpara", "pass", "fencelang", "masq"][kind]);
  let c = convert(&doc, &Opts::default().be(be));
  let want = want.join("\n");
  if kind == 6 {
    let sig = if glued_email(&want) { "email glued to an attribute reference" } else { "pass" };
    ensure!(c.html().contains(want.as_str()), sig, "the content of a passthrough block was changed\nwanted {want:?}\n{}", c.html());
    return Ok(());
  }
  let root = match html::parse(c.html()) {
    Ok(r) => r,
    Err(e) => fail!("malformed", "{e}\n{}", c.html()),
  };
  let pres: Vec<&El> = root.all(|e| e.tag == "pre");
  if pres.len() != 1 {
    fail!(format!("{} pre", pres.len()), "expected one verbatim block\n{}", c.html());
  }
  let got = pres[0].text();
  if got != want && glued_email(&want) {
    fail!("email glued to an attribute reference", "wanted {want:?}\ngot    {got:?}");
  }
  if got != want {
    let k = want.chars().zip(got.chars()).take_while(|(x, y)| x == y).count();
    let a: String = want.chars().skip(k).take(6).collect();
    let g: String = got.chars().skip(k).take(6).collect();
    fail!(format!("text {a:?} {g:?}"), "wanted {want:?}\ngot    {got:?}\n{}", c.html());
  }
  let inner: Vec<&El> = pres[0].els().into_iter().filter(|e| e.tag != "code").collect();
  ensure!(inner.is_empty() && pres[0].find(|e| e.tag != "pre" && e.tag != "code").is_none(), "markup", "markup inside a verbatim block\n{}", c.html());
  ensure!(c.diags.is_empty(), "diagnostics", "{}", c.diags[0].plain_text());
  Ok(())
}

// ---------------------------------------------------------------- C16

/// c q a r m p o(callouts)
const ALL: &str = "cqarmpo";

fn name(c: char, s: &mut Src) -> &'static str {
  match c {
    'c' => s.one(&["specialchars", "specialcharacters"]),
    'q' => "quotes",
    'a' => "attributes",
    'r' => "replacements",
    'm' => "macros",
    'p' => "post_replacements",
    'o' => "callouts",
    'n' => "normal",
    'v' => "verbatim",
    _ => "none",
  }
}

fn group(c: char) -> String {
  match c {
    'n' => "cqarmp".into(),
    'v' => "co".into(),
    '0' => String::new(),
    c => c.to_string(),
  }
}

fn run_subs(s: &mut Src, cx: &mut Cx) -> Outcome {
  if s.chance(35) {
    return run_pass_macro(s, cx);
  }
  let be = if s.chance(35) { Be::Html5s } else { Be::Html };
  let kind = s.below(8);
  let base = match kind {
    0 | 6 => "cqarmp", // paragraph, verse
    1..=4 => "co",     // listing, literal, source, [listing] paragraph
    _ => "",           // pass block, [pass] paragraph
  };
  // the subs attribute
  let mut set: Vec<char> = base.chars().collect();
  let mut spec = vec![];
  let n = s.below(4);
  let modifying = s.chance(60);
  if n > 0 && !modifying {
    set.clear();
  }
  for _ in 0..n {
    let c = s.one(&['c', 'q', 'a', 'r', 'm', 'p', 'o', 'n', 'v', if modifying { 'q' } else { '0' }]);
    let nm = name(c, s);
    let g = group(c);
    if modifying {
      match s.below(3) {
        0 => {
          spec.push(format!("+{nm}"));
          set.extend(g.chars());
        }
        1 => {
          spec.push(format!("{nm}+"));
          set.extend(g.chars());
        }
        _ => {
          spec.push(format!("-{nm}"));
          set.retain(|x| !g.contains(*x));
        }
      }
    } else {
      spec.push(nm.to_string());
      set.extend(g.chars());
    }
  }
  // `none` together with others is contradictory
  if spec.len() > 1 && spec.iter().any(|x| x == "none") {
    cx.discarded = true;
    return Ok(());
  }
  let on = |c: char| set.contains(&c);
  let sep = s.one(&[",", ", "]);
  let spec = spec.join(sep);
  // probes
  let lt = if on('c') { "&lt;" } else { "<" };
  let mut probes: Vec<(String, String)> = vec![];
  let avail: Vec<char> = ALL.chars().collect();
  for _ in 0..s.range(1, 5) {
    let c = s.one(&avail);
    let p: (String, String) = match c {
      'c' => ("a < b & c".into(), if on('c') { "a &lt; b &amp; c".into() } else { "a < b & c".into() }),
      'q' => match s.below(3) {
        0 => ("x *b* y".into(), if on('q') { "x <strong>b</strong> y".into() } else { "x *b* y".into() }),
        1 => ("x __b__y".into(), if on('q') { "x <em>b</em>y".into() } else { "x __b__y".into() }),
        _ => ("x `b` y".into(), if on('q') { "x <code>b</code> y".into() } else { "x `b` y".into() }),
      },
      'a' => ("x {foo} y".into(), if on('a') { "x val y".into() } else { "x {foo} y".into() }),
      'r' => ("x (C) y".into(), if on('r') { "x &#169; y".into() } else { "x (C) y".into() }),
      'm' => match s.below(3) {
        0 => ("x link:u[t] y".into(), if on('m') { "x <a href=\"u\">t</a> y".into() } else { "x link:u[t] y".into() }),
        1 => ("x <<id1>> y".into(), if on('m') { "x <a href=\"#id1\">[id1]</a> y".into() } else if on('c') { "x &lt;&lt;id1&gt;&gt; y".into() } else { "x <<id1>> y".into() }),
        _ => {
          let a = if be == Be::Html { "<a id=\"id2\"></a>" } else { "<a id=\"id2\" aria-hidden=\"true\"></a>" };
          ("x [[id2]]y".into(), if on('m') { format!("x {a}y") } else { "x [[id2]]y".into() })
        }
      },
      'p' => ("x +".into(), if on('p') { "x<br>".into() } else { "x +".into() }),
      _ => {
        if on('o') && !on('c') {
          continue;
        }
        let gt = if on('c') { "&gt;" } else { ">" };
        let co = if be == Be::Html { "<b class=\"conum\">(1)</b>" } else { "<b class=\"conum\">1</b>" };
        ("x <1>".into(), if on('o') { format!("x {co}") } else { format!("x {lt}1{gt}") })
      }
    };
    if !probes.contains(&p) {
      probes.push(p);
    }
  }
  probes.push(("end".into(), "end".into()));
  let body: Vec<&str> = probes.iter().map(|p| p.0.as_str()).collect();
  let want: Vec<&str> = probes.iter().map(|p| p.1.as_str()).collect();
  let body = body.join("\n");
  let at = if spec.is_empty() { String::new() } else if spec.contains(',') || s.chance(50) { format!("subs=\"{spec}\"") } else { format!("subs={spec}") };
  let al = |style: &str| match (style.is_empty(), at.is_empty()) {
    (true, true) => String::new(),
    (true, false) => format!("[{at}]\n"),
    (false, true) => format!("[{style}]\n"),
    (false, false) => format!("[{style},{at}]\n"),
  };
  let b = match kind {
    0 => format!("{}{body}\n", al("")),
    1 => format!("{}----\n{body}\n----\n", al("")),
    2 => format!("{}....\n{body}\n....\n", al("")),
    3 => format!("{}----\n{body}\n----\n", al("source,ruby")),
    4 => format!("{}{body}\n", al("listing")),
    5 => format!("{}++++\n{body}\n++++\n", al("")),
    6 => format!("{}____\n{body}\n____\n", al("verse")),
    _ => format!("{}{body}\n", al("pass")),
  };
  let doc = format!(":foo: val\n\n{b}");
  cx.case(format!("{be:?}\n{doc}"));
  cx.nontrivial(!spec.is_empty());
  cx.label(["para", "listing", "literal", "source", "listingpara", "pass", "verse", "passpara"][kind]);
  let c = convert(&doc, &Opts::default().be(be));
  let got = c.html().replace("&#8217;", "'");
  let want_s = want.join("\n");
  let flat = |x: &str| x.replace("<br>\n", "<br>").replace("<br> ", "<br>").replace('\n', " ");
  if !flat(&got).contains(&flat(&want_s)) {
    // which probe
    let mut sig = String::new();
    for p in &probes {
      if !flat(&got).contains(flat(&p.1).as_str()) {
        sig = p.0.clone();
        break;
      }
    }
    fail!(format!("kind {kind} {sig}"), "wanted {want_s:?}\nin {}", c.html());
  }
  // nothing else inside
  let (open, close) = match kind {
    0 => ("<p>", "</p>"),
    1..=4 => ("<pre", "</pre>"),
    6 => ("<pre", "</pre>"),
    _ => ("", ""),
  };
  if !open.is_empty() {
    let i = got.find(open).map(|i| i + open.len());
    let j = got.find(close);
    if let (Some(i), Some(j)) = (i, j) {
      let inner = &got[i..j];
      let inner = inner.split_once("><code").map_or(inner, |x| x.1);
      let inner = inner.split_once('>').filter(|_| kind != 0).map_or(inner, |x| x.1).trim_end_matches("</code>");
      if flat(inner) != flat(&want_s) {
        fail!(format!("kind {kind} rest"), "wanted {want_s:?}\ngot {inner:?}\nin {}", c.html());
      }
    } else {
      fail!("structure", "{}", c.html());
    }
  } else {
    ensure!(flat(got.trim()) == flat(&want_s), format!("kind {kind} rest"), "wanted {want_s:?}\ngot {got:?}");
  }
  Ok(())
}

fn run_pass_macro(s: &mut Src, cx: &mut Cx) -> Outcome {
  let mut set = String::new();
  let mut spec = vec![];
  for _ in 0..s.below(4) {
    let c = s.one(&['c', 'q', 'a', 'r', 'm', 'n', 'v']);
    set.push_str(&group(c));
    let long = s.chance(50);
    spec.push(if long { name(c, s).to_string() } else { c.to_string() });
  }
  let on = |c: char| set.contains(c);
  let lt = if on('c') { "&lt;" } else { "<" };
  let mut probes: Vec<(String, String)> = vec![];
  for _ in 0..s.range(1, 4) {
    let p: (String, String) = match s.below(5) {
      0 => ("a < b".into(), format!("a {lt} b")),
      1 => ("*b*".into(), if on('q') { "<strong>b</strong>".into() } else { "*b*".into() }),
      2 => ("{foo}".into(), if on('a') { "val".into() } else { "{foo}".into() }),
      3 => ("(C)".into(), if on('r') { "&#169;".into() } else { "(C)".into() }),
      _ => ("a@b.co".into(), if on('m') { "<a href=\"mailto:a@b.co\">a@b.co</a>".into() } else { "a@b.co".into() }),
    };
    if !probes.contains(&p) {
      probes.push(p);
    }
  }
  let a: Vec<&str> = probes.iter().map(|p| p.0.as_str()).collect();
  let b: Vec<&str> = probes.iter().map(|p| p.1.as_str()).collect();
  let spec = spec.join(",");
  let doc = format!(":foo: val\n\nw pass:{spec}[{}] *x*\n", a.join(" z "));
  cx.case(doc.clone());
  cx.nontrivial(!spec.is_empty());
  cx.label("passmacro");
  let c = convert(&doc, &Opts::default());
  let want = format!("<div class=\"paragraph\"><p>w {} <strong>x</strong></p></div>", b.join(" z "));
  ensure!(c.html().trim() == want, format!("passmacro"), "wanted {want}\ngot    {}", c.html());
  Ok(())
}
