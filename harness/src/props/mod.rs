use crate::engine::Prop;
pub mod c01;
pub mod callouts;
pub mod diag;
pub mod header;
pub mod incl;
pub mod inline;
pub mod attrs;
pub mod media;
pub mod meta;
pub mod prep;
pub mod refs;
pub mod sect;
pub mod subs;
pub mod tables;
pub mod trees;
pub mod wf;

pub fn all() -> Vec<Prop> {
  let mut v = vec![c01::prop(), wf::wellformed(), wf::injection(), subs::verbatim(), inline::inline(), subs::subs(), prep::conditionals(), incl::prop(), trees::lists(), trees::blocks()];
  v.extend(media::props());
  v.extend(meta::props());
  v.extend(attrs::props());
  v.extend(sect::props());
  v.extend(refs::props());
  v.push(callouts::prop());
  v.push(diag::prop());
  v.extend(tables::props());
  v.extend(header::props());
  v
}
pub fn get(id: &str) -> Prop {
  all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
    eprintln!("no such property {id}");
    std::process::exit(2)
  })
}
