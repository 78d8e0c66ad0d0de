pub mod cost;
mod deep;
mod errors;
mod hooks;
mod long;
mod read;
mod robust;
mod ser;
mod text;
mod tree;
mod wrap;
mod write;

use crate::engine::Check;

pub fn all() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(write::checks());
    v.extend(read::checks());
    v.extend(text::checks());
    v.extend(tree::checks());
    v.extend(ser::checks());
    v.extend(hooks::checks());
    v.extend(wrap::checks());
    v.extend(robust::checks());
    v.extend(errors::checks());
    v.extend(cost::checks());
    v
}
