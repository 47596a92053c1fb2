//! C07, C12, C22: the structure of the output is the structure written.
use crate::conv::*;
use crate::engine::*;
use crate::generate::*;
use crate::{ensure, fail, html, sem};

pub fn blocks() -> Prop {
  Prop {
    id: "C22",
    run: |s, cx| {
      let cfg = Cfg { budget: s.range(2, 18) as i32, ..Cfg::default() };
      tree(s, cx, cfg)
    },
    quick: 300_000,
    thorough: 8_000_000,
    rule: "documents built from a block model (paragraphs, verbatim, delimited, nested, titled, with ids, roles and options); non-trivial: 4+ nodes in the expected tree, depth 3+",
    assumptions: &["unambiguous AsciiDoc only: constructs whose reading differs between processors are not generated"],
  }
}

pub fn lists() -> Prop {
  Prop {
    id: "C12",
    run: |s, cx| {
      let cfg = Cfg { budget: s.range(3, 22) as i32, max_depth: 7, list_depth: 5, meta_pct: 12, ..Cfg::default() }
        .only(&[("ulist", 20), ("olist", 20), ("dlist", 16), ("para", 6), ("listing", 3), ("example", 3), ("open", 2), ("admonpara", 1), ("table", 1), ("literal", 1), ("image", 1), ("fence", 1), ("quote", 1)]);
      tree(s, cx, cfg)
    },
    quick: 300_000,
    thorough: 8_000_000,
    rule: "documents of nested lists of every kind with attached blocks; non-trivial: 4+ nodes in the expected tree, depth 3+",
    assumptions: &["unambiguous AsciiDoc only"],
  }
}

fn tree(s: &mut Src, cx: &mut Cx, cfg: Cfg) -> Outcome {
  let mut g = G::new(s, cfg);
  let (src, want) = g.document();
  cx.case(src.clone());
  check_tree(&src, &want, cx, &Opts::default())
}

pub fn check_tree(src: &str, want: &S, cx: &mut Cx, o: &Opts) -> Outcome {
  cx.nontrivial(want.count() >= 4 && want.depth() >= 3);
  want.walk(&mut |n| {
    if !cx.labels.contains(&n.k) {
      cx.label(n.k.clone())
    }
  });
  let c = convert(src, o);
  let root = match html::parse(c.html()) {
    Ok(r) => r,
    Err(e) => fail!("malformed", "output is not well-formed: {e}\n{}", c.html()),
  };
  let got = sem::doc(&root);
  if let Some((sig, x, y)) = diff(want, &got) {
    fail!(format!("tree {sig}"), "expected: {x}\nbut got:  {y}\n--- expected\n{}\n--- got\n{}\n--- html\n{}", want.show(), got.show(), c.html());
  }
  ensure!(c.diags.is_empty(), "diagnostics", "a valid document produced diagnostics: {}", c.diags[0].plain_text());
  Ok(())
}
