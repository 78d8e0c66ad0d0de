//! Generates the families of derived types of one seed.
use std::path::Path;

fn main() {
    println!("cargo:rerun-if-env-changed=XM_TYPE_SEED");
    println!("cargo:rerun-if-env-changed=XM_FAMILIES");
    println!("cargo:rerun-if-env-changed=XM_THEMES");
    println!("cargo:rerun-if-changed=build.rs");
    let num = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    let (seed, n) = (num("XM_TYPE_SEED", 1), num("XM_FAMILIES", 32) as usize);
    let list = std::env::var("XM_THEMES").unwrap_or_default();
    let themes = xmodel::schema::parse_themes(&list);
    let mut out = format!("pub const THEMES: &str = {list:?};\n");
    out += &format!("pub const SEED: u64 = {seed};\npub const FAMILIES: usize = {n};\n");
    for id in 0..n {
        out.push_str(&xmodel::emit::module(&xmodel::schema::gen_family(seed, id, &themes)));
    }
    out.push_str("pub fn entries() -> Vec<&'static support::Entry> { let mut v = Vec::new();\n");
    for id in 0..n {
        out.push_str(&format!("v.extend(f{id}::ENTRIES.iter());\n"));
    }
    out.push_str("v }\n");
    std::fs::write(Path::new(&std::env::var("OUT_DIR").unwrap()).join("families.rs"), out).unwrap();
}
