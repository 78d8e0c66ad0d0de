//! Reference models used by the checks: independent of instant-xml.
//!
//! * `schema`: description of generated families of derived types, and their generator
//! * `emit`:   Rust source of a family (used by build scripts)
//! * `val`:    untyped values of the generated types
//! * `model`:  what the annotations prescribe (value -> tree) and what a document means (tree -> value)
//! * `xmlref`: an independent strict XML + namespaces parser
//! * `render`: writes a tree as a document in a randomly chosen style
//! * `src`:    recorded choice sequences (generation, replay, shrinking)
pub mod emit;
pub mod gen;
pub mod lexical;
pub mod model;
pub mod names;
pub mod render;
pub mod schema;
pub mod src;
pub mod val;
pub mod xmlref;
