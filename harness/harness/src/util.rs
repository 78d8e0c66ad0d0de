//! Shared by the checks.
use instant_xml::Error;
use support::Entry;
use xmodel::model::{self, Cls, DErr, El, Nd};
use xmodel::render::{render, Style};
use xmodel::schema::*;
use xmodel::src::Src;
use xmodel::val::Val;
use xmodel::{emit, gen};

use crate::engine::Cx;

/// A type of a family together with the access to its implementation
#[derive(Clone, Copy)]
pub struct Ty_<'a> {
    pub f: &'a Family,
    pub t: usize,
    pub e: &'static Entry,
}

pub fn pick<'a>(cx: &'a Cx, s: &mut Src, ok: impl Fn(&Family, usize, &Entry) -> bool) -> Ty_<'a> {
    // the last types of a family contain the others
    for _ in 0..200 {
        let f = &cx.fams[s.idx(cx.fams.len())];
        let mut es: Vec<&'static Entry> = cx.entries.iter().copied().filter(|e| e.fam == f.id && ok(f, e.ty, e)).collect();
        if es.is_empty() {
            continue;
        }
        es.reverse();
        let i = match s.below(3) {
            0 => 0,
            _ => s.idx(es.len()),
        };
        return Ty_ { f, t: es[i].ty, e: es[i] };
    }
    // deterministic fallback
    let e = *cx.entries.iter().find(|e| ok(&cx.fams[e.fam], e.ty, e)).expect("no type qualifies");
    Ty_ { f: &cx.fams[e.fam], t: e.ty, e }
}

pub fn writable(_: &Family, _: usize, e: &Entry) -> bool {
    e.write.is_some()
}

impl Ty_<'_> {
    pub fn name(&self) -> String {
        format!("f{}::{} (theme {})", self.f.id, self.f.types[self.t].ident, self.f.theme)
    }
    /// The declarations of the family, for messages
    pub fn decls(&self) -> String {
        format!("type {} of\n{}", self.f.types[self.t].ident, emit::describe(self.f))
    }
    pub fn val(&self, s: &mut Src) -> Val {
        gen::root_val(s, self.f, self.t)
    }
    pub fn write(&self, v: &Val) -> Result<String, Error> {
        let mut out = String::new();
        (self.e.write.unwrap())(v, &mut out)?;
        Ok(out)
    }
    pub fn el(&self, v: &Val) -> El {
        model::write_root(self.f, self.t, v)
    }
    pub fn expect(&self, e: &El) -> Result<Val, DErr> {
        model::read_root(self.f, self.t, e)
    }
    pub fn render(&self, e: &El, s: &mut Src, st: Style) -> String {
        render(Some(self.f), e, s, st)
    }
    /// Compares reading `doc` with what it means
    pub fn read_as(&self, doc: &str, want: &Result<Val, DErr>, kinds: bool) -> Result<(), String> {
        let got = (self.e.read)(doc);
        match compare(&got, want, kinds) {
            None => Ok(()),
            Some(m) => Err(format!("{m}\ndocument: {doc}\n{}", self.decls())),
        }
    }
}

pub fn compare(got: &Result<Val, Error>, want: &Result<Val, DErr>, kinds: bool) -> Option<String> {
    match (got, want) {
        (Ok(g), Ok(w)) if g == w => None,
        (Ok(g), Ok(w)) => Some(format!("wrong value\nexpected {w:?}\nread     {g:?}")),
        (Ok(g), Err(w)) => Some(format!("expected an error ({w:?}), read {g:?}")),
        (Err(g), Ok(w)) => Some(format!("expected {w:?}, got the error {g:?}")),
        (Err(Error::MissingValue(_)), Err(DErr::Missing(_))) | (Err(Error::DuplicateValue(_)), Err(DErr::Dup(_))) => None,
        (Err(g), Err(w @ (DErr::Missing(_) | DErr::Dup(_)))) if kinds => Some(format!("expected a {w:?} error, got {g:?}")),
        (Err(_), Err(_)) => None,
    }
}

/// Paths of the elements of the tree that are read as a type of this kind
pub fn typed_paths(f: &Family, e: &El, ok: impl Fn(&TypeDef) -> bool) -> Vec<Vec<usize>> {
    e.paths().into_iter().filter(|p| matches!(e.at(p).cls, Cls::Type(t) if ok(&f.types[t]))).collect()
}

pub fn has_any(f: &Family, t: usize) -> bool {
    f.types[t].fields.iter().any(|fd| matches!(fd.ty.core(), Ty::Any))
}

#[allow(dead_code)]
/// Whether the type of this element (or None for foreign and scalar ones) is open: a catch-all field takes unknown elements
pub fn open(f: &Family, e: &El) -> bool {
    matches!(e.cls, Cls::Type(t) if has_any(f, t))
}

pub const FOREIGN_NS: [&str; 4] = ["urn:zz", "", "urn:a", "urn:zz/2"];
pub const FOREIGN: [&str; 10] = ["zz", "extra", "z-9", "item", "a", "Foo", "é", "value", "name", "Item"];

pub fn foreign_tree(s: &mut Src, depth: usize, uris: &[String]) -> El {
    let ns = match s.below(3) {
        0 if !uris.is_empty() => s.pick(uris).clone(),
        _ => (*s.pick(&FOREIGN_NS)).to_owned(),
    };
    let mut e = El::new(&ns, s.pick(&FOREIGN), Cls::Foreign);
    for i in 0..s.small(3) {
        let ns = *s.pick(&["", "", "urn:zz", xmodel::xmlref::XML_NS]);
        let name = format!("{}{i}", s.pick(&["a", "id", "x-", "lang"]));
        e.attrs.push(model::At { ns: ns.into(), name, val: gen::text(s) });
    }
    let n = match depth {
        0 => 0,
        1..=4 => s.small(4),
        // a chain
        _ => 1,
    };
    for _ in 0..n {
        let k = match s.below(3) {
            0 if depth < 5 => Nd::T(gen::text(s)),
            _ => Nd::E(foreign_tree(s, depth - 1, uris)),
        };
        e.kids.push(k);
    }
    e.normalise();
    e
}

#[allow(dead_code)]
pub fn err_name(e: &Error) -> &'static str {
    match e {
        Error::Format(_) => "Format",
        Error::InvalidEntity(_) => "InvalidEntity",
        Error::Parse(_) => "Parse",
        Error::Other(_) => "Other",
        Error::UnexpectedEndOfStream => "UnexpectedEndOfStream",
        Error::UnexpectedValue(_) => "UnexpectedValue",
        Error::UnexpectedTag(_) => "UnexpectedTag",
        Error::MissingTag => "MissingTag",
        Error::MissingValue(_) => "MissingValue",
        Error::UnexpectedToken(_) => "UnexpectedToken",
        Error::UnknownPrefix(_) => "UnknownPrefix",
        Error::UnexpectedNode(_) => "UnexpectedNode",
        Error::UnexpectedState(_) => "UnexpectedState",
        Error::ExpectedScalar(_) => "ExpectedScalar",
        Error::DuplicateValue(_) => "DuplicateValue",
    }
}
