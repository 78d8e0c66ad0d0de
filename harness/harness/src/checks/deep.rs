//! Handwritten mutually recursive types in several namespaces: documents as deep as the reader's
//! limit, declarations used far from where they are written. Parts of C01, C02, C05 and C07.
use instant_xml::{from_str, to_string, FromXml, ToXml};
use xmodel::model::{At, Cls, El, Nd};
use xmodel::render::{render, Style};
use xmodel::src::Src;
use xmodel::xmlref;

use crate::engine::{Cx, Obs};

const A: &str = "urn:a";
const B: &str = "urn:b";
const C: &str = "urn:c/é";

#[derive(Clone, Debug, Default, PartialEq, ToXml, FromXml)]
#[xml(ns(A, b = B))]
struct Da {
    #[xml(attribute)]
    p: Option<u32>,
    #[xml(attribute, ns(B))]
    q: Option<u32>,
    #[xml(ns(B))]
    text: Option<String>,
    kids: Vec<Dk>,
}

#[derive(Clone, Debug, Default, PartialEq, ToXml, FromXml)]
#[xml(ns(B, c = C), rename = "db")]
struct Db {
    #[xml(attribute, ns(C))]
    q: Option<u32>,
    text: Option<String>,
    one: Option<Box<Dn>>,
    kids: Vec<Dk>,
}

#[derive(Clone, Debug, Default, PartialEq, ToXml, FromXml)]
struct Dn {
    #[xml(attribute)]
    p: Option<u32>,
    #[xml(ns(C))]
    text: Vec<String>,
    kids: Vec<Dk>,
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(forward)]
enum Dk {
    A(Da),
    B(Db),
}

fn number(s: &mut Src) -> Option<u32> {
    s.chance(1, 3).then(|| s.below(1000) as u32)
}

fn text(s: &mut Src) -> String {
    (*s.pick(&["t", "a b", "<&>", "é", "  x "])).to_owned()
}

/// `depth` is the number of levels below, at most one child goes that deep
fn kids(s: &mut Src, depth: usize) -> Vec<Dk> {
    let mut out = Vec::new();
    if depth > 0 {
        let n = 1 + s.small(3);
        let deep = s.idx(n);
        for i in 0..n {
            let d = if i == deep { depth - 1 } else { s.small(2).min(depth - 1) };
            out.push(if s.chance(1, 2) { Dk::A(da(s, d)) } else { Dk::B(db(s, d)) });
        }
    }
    out
}

fn da(s: &mut Src, depth: usize) -> Da {
    let (p, q) = (number(s), number(s));
    let text = (depth > 0 && s.chance(1, 4)).then(|| text(s));
    Da { p, q, text, kids: kids(s, depth) }
}

fn db(s: &mut Src, depth: usize) -> Db {
    let q = number(s);
    let text = (depth > 0 && s.chance(1, 4)).then(|| text(s));
    let nested = depth > 1 && s.chance(1, 3);
    let one = (depth > 0 && (nested || s.chance(1, 4))).then(|| Box::new(dn(s, depth - 1)));
    let kids = if nested { Vec::new() } else { kids(s, depth) };
    Db { q, text, one, kids }
}

fn dn(s: &mut Src, depth: usize) -> Dn {
    let p = number(s);
    let text = if depth > 0 { (0..s.small(3)).map(|_| text(s)).collect() } else { Vec::new() };
    Dn { p, text, kids: kids(s, depth) }
}

fn attr(e: &mut El, ns: &str, name: &str, v: Option<u32>) {
    if let Some(v) = v {
        e.attrs.push(At { ns: ns.into(), name: name.into(), val: v.to_string() });
    }
}

fn child(e: &mut El, ns: &str, t: &str) {
    let mut c = El::new(ns, "text", Cls::Scalar);
    if !t.is_empty() {
        c.kids.push(Nd::T(t.into()));
    }
    e.kids.push(Nd::E(c));
}

fn ka(v: &[Dk], e: &mut El) {
    for k in v {
        e.kids.push(Nd::E(match k {
            Dk::A(a) => a.el(),
            Dk::B(b) => b.el(),
        }));
    }
}

trait Tree {
    fn el(&self) -> El;
}

impl Tree for Da {
    fn el(&self) -> El {
        let mut e = El::new(A, "Da", Cls::Foreign);
        attr(&mut e, "", "p", self.p);
        attr(&mut e, B, "q", self.q);
        if let Some(t) = &self.text {
            child(&mut e, B, t);
        }
        ka(&self.kids, &mut e);
        e
    }
}

impl Tree for Db {
    fn el(&self) -> El {
        let mut e = El::new(B, "db", Cls::Foreign);
        attr(&mut e, C, "q", self.q);
        if let Some(t) = &self.text {
            child(&mut e, B, t);
        }
        if let Some(n) = &self.one {
            e.kids.push(Nd::E(n.el()));
        }
        ka(&self.kids, &mut e);
        e
    }
}

impl Tree for Dn {
    fn el(&self) -> El {
        let mut e = El::new("", "Dn", Cls::Foreign);
        attr(&mut e, "", "p", self.p);
        for t in &self.text {
            child(&mut e, C, t);
        }
        ka(&self.kids, &mut e);
        e
    }
}

enum Root {
    A(Da),
    B(Db),
    N(Dn),
}

fn root(s: &mut Src) -> Root {
    let depth = match s.below(4) {
        0 => s.range(24, 31),
        1 => s.range(8, 20),
        _ => s.small(8),
    };
    match s.below(3) {
        0 => Root::A(da(s, depth)),
        1 => Root::B(db(s, depth)),
        _ => Root::N(dn(s, depth)),
    }
}

macro_rules! each {
    ($r:expr, $v:ident: $t:ident => $e:expr) => {
        match $r {
            Root::A($v) => { type $t = Da; $e }
            Root::B($v) => { type $t = Db; $e }
            Root::N($v) => { type $t = Dn; $e }
        }
    };
}

fn note(o: &mut Obs, doc: &str, depth: usize) {
    o.key(&[doc]);
    o.sample(|| doc.chars().take(400).collect());
    o.nontrivial = depth >= 4;
    o.tag(match depth {
        0..=7 => "depth under 8",
        8..=19 => "depth 8 to 19",
        _ => "depth 20 and more",
    });
}

fn read_in(s: &mut Src, o: &mut Obs, st: Style, noise: bool) -> Result<(), String> {
    let r = root(s);
    let mut el = each!(&r, v: T => v.el());
    let depth = el.depth();
    if noise {
        // unknown elements and attributes
        let paths = el.paths();
        for _ in 0..s.small(6) {
            let path = s.pick(&paths).clone();
            let e = el.at_mut(&path);
            if e.name == "text" {
                continue;
            }
            if s.chance(1, 2) {
                if !e.attrs.iter().any(|a| a.name == "x") {
                    let at = s.idx(e.attrs.len() + 1);
                    e.attrs.insert(at, At { ns: (*s.pick(&["", A, B, "urn:zz"])).into(), name: "x".into(), val: text(s) });
                }
            } else {
                let below = 31usize.saturating_sub(path.len());
                let mut c = El::new(s.pick(&["", A, B, C, "urn:zz"]), "x", Cls::Foreign);
                for _ in 0..s.idx(below.max(1)) {
                    let mut p = El::new(s.pick(&["", A, B, C]), s.pick(&["Da", "db", "y", "text"]), Cls::Foreign);
                    if s.chance(1, 4) {
                        p.kids.push(Nd::T(text(s)));
                    }
                    p.kids.push(Nd::E(c));
                    c = p;
                }
                // its outermost element must not be a known one
                c.name = "x".into();
                if path.len() < 31 {
                    // at the end, so that the paths stay valid
                    e.kids.push(Nd::E(c));
                }
            }
        }
    }
    let doc = render(None, &el, s, st);
    if el.depth() > 32 {
        return Ok(());
    }
    note(o, &doc, depth);
    each!(r, v: T => match from_str::<T>(&doc) {
        Ok(got) if got == v => Ok(()),
        Ok(got) => Err(format!("read as {got:?}\ninstead of {v:?}\ndocument: {doc}")),
        Err(e) => Err(format!("{e:?} instead of {v:?}\ndocument: {doc}")),
    })
}

/// C05
pub(super) fn namespaces(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    read_in(s, o, Style { ns: true, ..Style::PLAIN }, false)
}

/// C07
pub(super) fn noise(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    read_in(s, o, Style::FULL, true)
}

/// C02
pub(super) fn tree(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let r = root(s);
    let want = each!(&r, v: T => v.el());
    let doc = each!(&r, v: T => to_string(v)).map_err(|e| format!("writing failed: {e:?}\ntree: {want:?}"))?;
    note(o, &doc, want.depth());
    let got = xmlref::parse_output(&doc).map_err(|e| format!("not well-formed: {e}\ndocument: {doc}"))?;
    match xmlref::diff(&want, &got.to_el(), "") {
        None => Ok(()),
        Some(d) => Err(format!("{d}\ndocument: {doc}")),
    }
}

/// C01
pub(super) fn round_trip(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let r = root(s);
    each!(r, v: T => {
        let doc = to_string(&v).map_err(|e| format!("writing failed: {e:?}\nvalue: {v:?}"))?;
        note(o, &doc, v.el().depth());
        match from_str::<T>(&doc) {
            Ok(got) if got == v => Ok(()),
            Ok(got) => Err(format!("read as {got:?}\ninstead of {v:?}\ndocument: {doc}")),
            Err(e) => Err(format!("{e:?} instead of {v:?}\ndocument: {doc}")),
        }
    })
}
