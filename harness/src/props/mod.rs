use crate::run::Prop;
pub mod encoding;
pub mod env;
pub mod invalid;
pub mod locs;
pub mod meta;
pub mod numbers;
pub mod onig;
pub mod program;
pub mod render;
pub mod totality;
pub mod warn;
pub mod words;
pub fn all() -> Vec<Prop> {
    let mut v = vec![totality::prop()];
    v.extend(program::props());
    v.push(invalid::prop());
    v.push(locs::prop());
    v.extend([encoding::prop(), render::prop(), env::prop(), warn::prop(), onig::prop()]);
    v.extend([meta::c14(), meta::c15(), meta::c20()]);
    v
}
