//! Generated derived types.
// for paths with a leading colon
extern crate self as types;
include!(concat!(env!("OUT_DIR"), "/families.rs"));
