//! Rust source of a family.
use crate::names::{self, Case, CASES};
use crate::schema::*;
use std::fmt::Write;

pub fn lit(s: &str) -> String {
    format!("{s:?}")
}

fn sc(k: ScK, borrow: bool) -> &'static str {
    match k {
        ScK::Bool => "bool",
        ScK::Char => "char",
        ScK::I8 => "i8",
        ScK::I16 => "i16",
        ScK::I32 => "i32",
        ScK::I64 => "i64",
        ScK::Isize => "isize",
        ScK::U8 => "u8",
        ScK::U16 => "u16",
        ScK::U32 => "u32",
        ScK::U64 => "u64",
        ScK::Usize => "usize",
        ScK::F32 => "f32",
        ScK::F64 => "f64",
        ScK::Str => "String",
        ScK::Cow if borrow => "Cow<'a, str>",
        ScK::Cow => "Cow<'static, str>",
        ScK::Ip => "IpAddr",
        ScK::DtUtc => "DateTime<Utc>",
        ScK::NDt => "NaiveDateTime",
        ScK::NDate => "NaiveDate",
        ScK::Disp => "Disp",
    }
}

fn ty(f: &Family, t: &Ty, lt: &str, borrow: bool) -> String {
    // some families name the types of the standard library by path
    let (cow, opt, vec) = match f.id % 4 {
        1 => ("::std::borrow::Cow", "::core::option::Option", "std::vec::Vec"),
        _ => ("Cow", "Option", "Vec"),
    };
    match t {
        Ty::Sc(ScK::Cow) => sc(ScK::Cow, borrow).replace("Cow", cow),
        Ty::Sc(k) => sc(*k, borrow).to_owned(),
        Ty::Ref(r) => inst(f, *r, lt),
        Ty::Opt(t) => format!("{opt}<{}>", ty(f, t, lt, borrow)),
        Ty::Vec(t) => format!("{vec}<{}>", ty(f, t, lt, borrow)),
        Ty::Bx(t) => format!("Box<{}>", ty(f, t, lt, borrow)),
        Ty::CowList(t) => format!("{cow}<'static, [{}]>", ty(f, t, lt, borrow)),
        Ty::Any => format!("AnyElement<{lt}>"),
    }
}

/// A type with its arguments
fn inst(f: &Family, r: usize, lt: &str) -> String {
    let d = &f.types[r];
    match (d.lifetime, d.generic) {
        (true, _) => format!("{}<{lt}>", d.ident),
        (false, Some(i)) => format!("{}<{}>", d.ident, ty(f, &d.fields[i].ty, lt, false)),
        _ => d.ident.clone(),
    }
}

fn uri(f: &Family, i: usize, style: u8) -> String {
    match style {
        0 => lit(&f.uris[i]),
        1 => format!("U{i}"),
        // paths of each form
        _ => match (f.id + i) % 5 {
            0 => format!("self::U{i}"),
            1 => format!("super::f{}::U{i}", f.id),
            2 => format!("crate::f{}::U{i}", f.id),
            3 => format!("::types::f{}::U{i}", f.id),
            _ => format!("consts::U{i}"),
        },
    }
}

fn ns(f: &Family, d: &TypeDef) -> Option<String> {
    let mut parts = Vec::new();
    if let Some(i) = d.ns {
        parts.push(uri(f, i, d.ns_style));
    }
    for (n, (p, i)) in d.prefixes.iter().enumerate() {
        // literals, constants and paths mixed
        parts.push(format!("{p} = {}", uri(f, *i, (d.ns_style + n as u8) % 3)));
    }
    (!parts.is_empty()).then(|| format!("ns({})", parts.join(", ")))
}

fn case(c: Case) -> Option<&'static str> {
    CASES.iter().find(|(k, _)| *k == c).map(|(_, s)| *s)
}

/// The items in one attribute or in one for each
fn xml(items: &[String], split: bool) -> String {
    match split {
        _ if items.is_empty() => String::new(),
        false => format!("#[xml({})]\n", items.join(", ")),
        true => items.iter().map(|i| format!("#[xml({i})]\n")).collect::<Vec<_>>().join("/// and\n"),
    }
}

/// The declaration of one type with the given derives
pub fn decl(f: &Family, ix: usize, derives: &str) -> String {
    let d = &f.types[ix];
    let mut o = String::new();
    let mut items = Vec::new();
    match d.kind {
        Kind::Transparent => items.push("transparent".to_owned()),
        Kind::ScalarEnum => items.push("scalar".to_owned()),
        Kind::Forward => items.push("forward".to_owned()),
        _ => {}
    }
    if let Some(r) = &d.rename {
        items.push(format!("rename = {}", lit(r)));
    }
    if let Some(c) = case(d.rename_all) {
        items.push(format!("rename_all = {}", lit(c)));
    }
    if let Some(n) = ns(f, d) {
        items.push(n);
    }
    if d.force_prefix {
        items.push("force_prefix".to_owned());
    }
    // the order of the items does not matter
    if d.ns_style == 1 {
        items.reverse();
    }
    // some families have an attribute for each item
    let split = f.id % 5 == 2;
    let _ = write!(o, "#[derive({derives})]\n{}", xml(&items, split));
    let lt = if d.lifetime { "<'a>" } else { "" };
    let gen = if d.generic.is_some() { "<T>" } else { "" };
    // some families declare their structs in a macro that gets the types of the fields
    let in_macro = f.id % 4 == 3 && matches!(d.kind, Kind::Named | Kind::Transparent | Kind::Tuple);
    let mut params = Vec::new();
    let mut param = |t: String| match in_macro {
        true => {
            params.push(t);
            format!("$t{}", params.len() - 1)
        }
        false => t,
    };
    match d.kind {
        Kind::Unit => {
            let _ = writeln!(o, "pub struct {};", d.ident);
        }
        Kind::Named | Kind::Transparent => {
            let _ = writeln!(o, "pub struct {}{lt}{gen} {{", d.ident);
            for (i, fd) in d.fields.iter().enumerate() {
                let mut items = Vec::new();
                match fd.role {
                    Role::Attribute => items.push("attribute".to_owned()),
                    Role::Direct => items.push("direct".to_owned()),
                    Role::Element => {}
                }
                if let Some(r) = &fd.rename {
                    items.push(format!("rename = {}", lit(r)));
                }
                if let Some(n) = fd.ns {
                    let style = if fd.role == Role::Attribute { 1 } else { (d.ns_style + i as u8) % 3 };
                    items.push(format!("ns({})", uri(f, n, style)));
                }
                if fd.borrow {
                    items.push("borrow".to_owned());
                }
                if fd.hook {
                    items.push("deserialize_with = \"::instant_xml::from_xml_str\"".to_owned());
                    if fd.role == Role::Element {
                        items.push(format!("serialize_with = \"hook_{ix}_{i}\""));
                    }
                }
                let t = match d.generic == Some(i) {
                    true => "T".to_owned(),
                    false => param(ty(f, &fd.ty, "'a", fd.borrow)),
                };
                let _ = writeln!(o, "{}pub {}: {t},", xml(&items, split), fd.ident);
            }
            let _ = writeln!(o, "}}");
        }
        Kind::Tuple => {
            let fields: Vec<String> = d.fields.iter().map(|fd| format!("pub {}", param(ty(f, &fd.ty, "'a", false)))).collect();
            let _ = writeln!(o, "pub struct {}({});", d.ident, fields.join(", "));
        }
        Kind::ScalarEnum => {
            let _ = writeln!(o, "pub enum {} {{", d.ident);
            for v in &d.variants {
                let items: Vec<String> = v.rename.iter().map(|r| format!("rename = {}", lit(r))).collect();
                let disc = v.disc.as_ref().map(|(t, _)| format!(" = {t}")).unwrap_or_default();
                let _ = writeln!(o, "{}{}{disc},", xml(&items, split), v.ident);
            }
            let _ = writeln!(o, "}}");
        }
        Kind::Forward => {
            let _ = writeln!(o, "pub enum {} {{", d.ident);
            for v in &d.variants {
                let _ = writeln!(o, "{}({}),", v.ident, ty(f, v.ty.as_ref().unwrap(), "'a", false));
            }
            let _ = writeln!(o, "}}");
        }
    }
    if in_macro {
        let decl: Vec<String> = (0..params.len()).map(|i| format!("$t{i}:ty")).collect();
        return format!("macro_rules! mk_{ix} {{ ({}) => {{\n{o}}} }}\nmk_{ix}!({});\n", decl.join(", "), params.join(", "));
    }
    o
}

/// Hook functions of one type
fn hooks(f: &Family, ix: usize) -> String {
    let d = &f.types[ix];
    let mut o = String::new();
    for (i, fd) in d.fields.iter().enumerate() {
        if fd.hook && fd.role == Role::Element {
            let (ns, name) = f.field_id(d, fd);
            let _ = writeln!(
                o,
                "fn hook_{ix}_{i}<W: std::fmt::Write + ?Sized>(v: &Disp, s: &mut instant_xml::Serializer<'_, W>) -> Result<(), instant_xml::Error> {{\n\
                 instant_xml::display_to_xml(v, Some(instant_xml::Id {{ ns: {}, name: {} }}), s)\n}}",
                lit(ns),
                lit(name)
            );
        }
    }
    o
}

fn conv(f: &Family, ix: usize) -> String {
    let d = &f.types[ix];
    let mut o = String::new();
    let lt = if d.lifetime { "<'a>" } else { "" };
    let full = inst(f, ix, "'a");
    let id = &d.ident;
    let _ = writeln!(o, "impl{lt} ::support::Conv for {full} {{");
    match d.kind {
        Kind::ScalarEnum => {
            let _ = writeln!(o, "fn to_val(&self) -> ::support::Val {{ match self {{");
            for (i, v) in d.variants.iter().enumerate() {
                let _ = writeln!(o, "{id}::{} => ::support::Val::Enum({i}, None),", v.ident);
            }
            let _ = writeln!(o, "}} }}\nfn from_val(v: &::support::Val) -> Self {{ match v {{");
            for (i, v) in d.variants.iter().enumerate() {
                let _ = writeln!(o, "::support::Val::Enum({i}, None) => {id}::{},", v.ident);
            }
            let _ = writeln!(o, "_ => unreachable!(), }} }}");
        }
        Kind::Forward => {
            let _ = writeln!(o, "fn to_val(&self) -> ::support::Val {{ match self {{");
            for (i, v) in d.variants.iter().enumerate() {
                let _ = writeln!(o, "{id}::{}(x) => ::support::Val::Enum({i}, Some(Box::new(x.to_val()))),", v.ident);
            }
            let _ = writeln!(o, "}} }}\nfn from_val(v: &::support::Val) -> Self {{ match v {{");
            for (i, v) in d.variants.iter().enumerate() {
                let _ = writeln!(o, "::support::Val::Enum({i}, Some(x)) => {id}::{}(::support::Conv::from_val(x)),", v.ident);
            }
            let _ = writeln!(o, "_ => unreachable!(), }} }}");
        }
        Kind::Unit => {
            let _ = writeln!(o, "fn to_val(&self) -> ::support::Val {{ ::support::Val::Struct(vec![]) }}\nfn from_val(_: &::support::Val) -> Self {{ {id} }}");
        }
        _ => {
            let tuple = d.kind == Kind::Tuple;
            let vals: Vec<String> = d.fields.iter().map(|x| format!("self.{}.to_val()", x.ident)).collect();
            let _ = writeln!(o, "fn to_val(&self) -> ::support::Val {{ ::support::Val::Struct(vec![{}]) }}", vals.join(", "));
            let inits: Vec<String> = d
                .fields
                .iter()
                .enumerate()
                .map(|(i, x)| match tuple {
                    true => format!("::support::Conv::from_val(&f[{i}])"),
                    false => format!("{}: ::support::Conv::from_val(&f[{i}])", x.ident),
                })
                .collect();
            let body = match tuple {
                true => format!("{id}({})", inits.join(", ")),
                false => format!("{id} {{ {} }}", inits.join(", ")),
            };
            let _ = writeln!(
                o,
                "#[allow(unused_variables)]\nfn from_val(v: &::support::Val) -> Self {{ let ::support::Val::Struct(f) = v else {{ unreachable!() }}; {body} }}"
            );
            let bs: Vec<String> = d.fields.iter().map(|x| format!("self.{}.borrows(out);", x.ident)).collect();
            let _ = writeln!(o, "#[allow(unused_variables)]\nfn borrows(&self, out: &mut Vec<::support::Borrow>) {{ {} }}", bs.join(" "));
        }
    }
    let _ = writeln!(o, "}}");
    o
}

pub fn module(f: &Family) -> String {
    let mut o = String::new();
    let _ = writeln!(o, "pub mod f{} {{\n#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, clippy::all)]", f.id);
    let _ = writeln!(o, "use ::support::{{Conv as _, Disp}};\nuse instant_xml::{{FromXml, ToXml, AnyElement}};\nuse std::borrow::Cow;\nuse std::net::IpAddr;\nuse chrono::{{DateTime, NaiveDate, NaiveDateTime, Utc}};");
    for (i, u) in f.uris.iter().enumerate() {
        let _ = writeln!(o, "pub const U{i}: &str = {};", lit(u));
    }
    let _ = writeln!(o, "pub mod consts {{ pub use super::*; }}");
    for ix in 0..f.types.len() {
        let derives = match f.types[ix].read_only {
            true => "Clone, Debug, PartialEq, FromXml",
            false => "Clone, Debug, PartialEq, FromXml, ToXml",
        };
        o.push_str(&decl(f, ix, derives));
        o.push_str(&hooks(f, ix));
        o.push_str(&conv(f, ix));
    }
    let _ = writeln!(o, "pub static ENTRIES: &[::support::Entry] = &[");
    for ix in f.roots() {
        let t = inst(f, ix, "'_");
        let d = &f.types[ix];
        let w = |body: String| match d.read_only {
            true => "None".to_owned(),
            false => format!("Some({body})"),
        };
        let _ = writeln!(
            o,
            "::support::Entry {{ fam: {}, ty: {ix},\n\
             write: {},\n\
             read: |s| instant_xml::from_str::<{t}>(s).map(|v| v.to_val()),\n\
             read_limits: |s, l| instant_xml::Deserializer::new(s)?.with_limits(l).deserialize::<{t}>().map(|v| v.to_val()),\n\
             read_borrows: |s| {{ let v = instant_xml::from_str::<{t}>(s)?; let mut b = Vec::new(); v.borrows(&mut b); Ok((v.to_val(), b)) }},\n\
             }},",
            f.id,
            w(format!("|v, w| ::support::write_val::<{t}>(v, w)")),
        );
    }
    let _ = writeln!(o, "];\n}}");
    o
}

/// For messages
pub fn describe(f: &Family) -> String {
    let mut o = String::new();
    for (i, u) in f.uris.iter().enumerate() {
        let _ = writeln!(o, "const U{i}: &str = {};", lit(u));
    }
    for ix in 0..f.types.len() {
        o.push_str(&decl(f, ix, "ToXml, FromXml"));
    }
    o
}

pub fn unraw(s: &str) -> &str {
    names::unraw(s)
}
