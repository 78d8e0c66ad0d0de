//! C01 round trip, C02 prescribed tree, C03 escaping, C17 names, C18 writers.
use std::fmt;

use instant_xml::{Error, FromXml, ToXml};
use xmodel::model::{El, Nd};
use xmodel::schema::*;
use xmodel::src::Src;
use xmodel::val::{Sc, Val};
use xmodel::xmlref::{self, PEl};
use xmodel::gen;

use crate::engine::{part, Check, Cx, Obs};
use crate::util::*;

const TRUST: &[&str] = &[
    "the reference model, lexical forms and XML parser in harness/xmodel",
    "generated types stay in the domain described in DESIGN.md",
];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            level: "exploration",
            rule: "a random value of a generated type is written and read back; nontrivial: the value has at least 4 nodes; distinct: by type and written document",
            assumptions: TRUST,
            parts: vec![part("round trip", 60_000, round_trip), part("deep", 12_000, super::deep::round_trip), part("long", 40, super::long::round_trip)],
            known: vec![("K2", tuple_list), ("K5", tuple_absent), ("K6", transparent_list), ("K7", tuple_empty_text)],
        },
        Check {
            id: "C02",
            level: "exploration",
            rule: "a random value of a generated type is written, parsed by an independent parser and compared with the tree the annotations prescribe; nontrivial: at least 2 elements or 2 attributes; distinct: by type and document",
            assumptions: TRUST,
            parts: vec![part("tree", 60_000, tree), part("deep", 12_000, super::deep::tree)],
            known: vec![("K1", escaped_uri)],
        },
        Check {
            id: "C03",
            level: "exploration",
            rule: "one string of a random value is replaced by a marker and by random strings; the document may only change at the marker; nontrivial: the string needs escaping; distinct: by type, position and string",
            assumptions: TRUST,
            parts: vec![part("replace", 60_000, replace)],
            known: vec![],
        },
        Check {
            id: "C17",
            level: "exploration",
            rule: "types with random identifiers, rename_all cases and renames are written and read; all names are computed by an independent implementation of the renaming rules; nontrivial: the family uses rename_all or rename; distinct: by type and document",
            assumptions: TRUST,
            parts: vec![part("names written", 25_000, tree), part("names read", 25_000, names_read)],
            known: vec![],
        },
        Check {
            id: "C18",
            level: "fault_enumeration",
            rule: "a random value is written repeatedly, with a recording writer and with writers failing at every call and at byte offsets, and list items are compared with the same items written in another list; nontrivial: the writer is called at least 5 times; distinct: by type and document",
            assumptions: TRUST,
            parts: vec![part("fail", 12_000, failing), part("siblings", 25_000, siblings)],
            known: vec![],
        },
    ]
}

fn note(o: &mut Obs, ty: &Ty_<'_>, doc: &str) {
    o.key(&[&ty.name(), doc]);
    o.sample(|| format!("{}: {doc}", ty.name()));
    o.tag(&format!("theme {}", ty.f.theme));
}

pub(super) fn round_trip(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, writable);
    let v = ty.val(s);
    let doc = ty.write(&v).map_err(|e| format!("writing failed: {e:?}\nvalue: {v:?}\n{}", ty.decls()))?;
    note(o, &ty, &doc);
    o.nontrivial = v.size() >= 4;
    match (ty.e.read)(&doc) {
        Ok(w) if w == v => Ok(()),
        Ok(w) => Err(format!("round trip changed the value\nwritten: {v:?}\nread:    {w:?}\ndocument: {doc}\n{}", ty.decls())),
        Err(e) => Err(format!("round trip failed: {e:?}\nwritten: {v:?}\ndocument: {doc}\n{}", ty.decls())),
    }
}

pub(super) fn tree(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, writable);
    let v = ty.val(s);
    let doc = ty.write(&v).map_err(|e| format!("writing failed: {e:?}\nvalue: {v:?}\n{}", ty.decls()))?;
    note(o, &ty, &doc);
    let want = ty.el(&v);
    o.nontrivial = want.count() >= 2 || want.attrs.len() >= 2;
    let got = xmlref::parse_output(&doc).map_err(|e| format!("not well-formed: {e}\nvalue: {v:?}\ndocument: {doc}\n{}", ty.decls()))?;
    match xmlref::diff(&want, &got.to_el(), "") {
        None => Ok(()),
        Some(d) => Err(format!("{d}\nvalue: {v:?}\ndocument: {doc}\n{}", ty.decls())),
    }
}

fn names_read(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, |_, _, _| true);
    let v = ty.val(s);
    let el = ty.el(&v);
    let doc = ty.render(&el, s, xmodel::render::Style::PLAIN);
    note(o, &ty, &doc);
    o.nontrivial = ty.f.types.iter().any(|d| d.rename_all != xmodel::names::Case::None || d.fields.iter().any(|f| f.rename.is_some()));
    ty.read_as(&doc, &ty.expect(&el), false)
}

// ---- C03

/// Number of strings in the value that appear as text, and access to the n-th
fn strings<'v>(f: &Family, t: &Ty, v: &'v mut Val, out: &mut Vec<&'v mut Sc>) {
    match (t, v) {
        (Ty::Sc(ScK::Str | ScK::Cow | ScK::Disp | ScK::Char), Val::Sc(s)) => out.push(s),
        (Ty::Opt(t), Val::Opt(Some(v))) => strings(f, t, v, out),
        (Ty::Bx(t), v) => strings(f, t, v, out),
        (Ty::Vec(t) | Ty::CowList(t), Val::List(vs)) => vs.iter_mut().for_each(|v| strings(f, t, v, out)),
        (Ty::Ref(r), Val::Enum(i, Some(v))) => strings(f, f.types[*r].variants[*i].ty.as_ref().unwrap(), v, out),
        (Ty::Ref(r), Val::Struct(vs)) => {
            for (fd, v) in f.types[*r].fields.iter().zip(vs) {
                strings(f, &fd.ty, v, out);
            }
        }
        _ => {}
    }
}

const MARK: char = '\u{F8FF}';

fn replace(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, writable);
    let mut v = ty.val(s);
    let root = Ty::Ref(ty.t);
    let n = {
        let mut all = Vec::new();
        strings(ty.f, &root, &mut v, &mut all);
        all.len()
    };
    if n == 0 {
        return Ok(());
    }
    let k = s.idx(n);
    let set = |f: &dyn Fn(&Sc) -> Sc| {
        let mut w = v.clone();
        let mut all = Vec::new();
        strings(ty.f, &root, &mut w, &mut all);
        let new = f(all[k]);
        *all[k] = new;
        w
    };
    let marked = set(&|old| match old {
        Sc::Char(_) => Sc::Char(MARK),
        _ => Sc::Str(MARK.into()),
    });
    let base = ty.write(&marked).map_err(|e| format!("writing failed: {e:?}\nvalue: {marked:?}\n{}", ty.decls()))?;
    if base.matches(MARK).count() != 1 {
        return match base.contains(MARK) {
            true => Ok(()),
            false => Err(format!("the string is not in the document\nvalue: {marked:?}\ndocument: {base}\n{}", ty.decls())),
        };
    }
    let (pre, post) = base.split_once(MARK).unwrap();
    for _ in 0..3 {
        let text = gen::text(s);
        let c = gen::xml_char(s);
        let w = set(&|old| match old {
            Sc::Char(_) => Sc::Char(c),
            _ => Sc::Str(text.clone()),
        });
        let is_char = matches!({
            let mut x = w.clone();
            let mut all = Vec::new();
            strings(ty.f, &root, &mut x, &mut all);
            all[k].clone()
        }, Sc::Char(_));
        let text = if is_char { c.to_string() } else { text };
        let doc = ty.write(&w).map_err(|e| format!("writing failed: {e:?}\nvalue: {w:?}\n{}", ty.decls()))?;
        o.runs += 1;
        o.key(&[&ty.name(), pre, &text]);
        o.nontrivial |= text.contains(['&', '<', '>', '"', '\'']);
        o.sample(|| format!("{}: {text:?} in {doc}", ty.name()));
        let bad = |m: &str| Err(format!("{m}\nstring: {text:?}\nwith marker: {base}\ndocument: {doc}\n{}", ty.decls()));
        if doc.len() < pre.len() + post.len() || !doc.starts_with(pre) || !doc.ends_with(post) {
            return bad("the rest of the document changed");
        }
        let mid = &doc[pre.len()..doc.len() - post.len()];
        if mid.contains('<') {
            return bad("unescaped markup");
        }
        match xmlref::unescape(mid) {
            Ok(t) if t == text => {}
            Ok(t) => return bad(&format!("a parser reads {t:?}")),
            Err(e) => return bad(&format!("not well-formed: {e}")),
        }
        // the whole document: same tree, with this string
        match (xmlref::parse_output(&base), xmlref::parse_output(&doc)) {
            (Ok(a), Ok(b)) => {
                let mut want = a.to_el();
                put(&mut want, &text);
                want.normalise();
                let mut got = b.to_el();
                got.normalise();
                if let Some(d) = xmlref::diff(&want, &got, "") {
                    return bad(&d);
                }
            }
            (a, b) => return bad(&format!("not well-formed: {:?} {:?}", a.err(), b.err())),
        }
    }
    Ok(())
}

fn put(e: &mut El, text: &str) {
    for a in &mut e.attrs {
        a.val = a.val.replace(MARK, text);
    }
    for k in &mut e.kids {
        match k {
            Nd::T(t) => *t = t.replace(MARK, text),
            Nd::E(e) => put(e, text),
        }
    }
}

// ---- C18

struct Recorder {
    out: String,
    calls: usize,
    fail_call: Option<usize>,
    fail_byte: Option<usize>,
    /// after the failure, calls succeed again
    transient: bool,
    failed: bool,
    after: usize,
}

impl Recorder {
    fn new() -> Self {
        Recorder { out: String::new(), calls: 0, fail_call: None, fail_byte: None, transient: false, failed: false, after: 0 }
    }
}

impl fmt::Write for Recorder {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = self.calls;
        self.calls += 1;
        if self.failed {
            self.after += 1;
            if !self.transient {
                return Err(fmt::Error);
            }
        }
        if !self.failed && (self.fail_call == Some(n) || self.fail_byte.is_some_and(|b| self.out.len() + s.len() > b)) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}

fn failing(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, writable);
    let v = ty.val(s);
    let doc = ty.write(&v).map_err(|e| format!("writing failed: {e:?}\nvalue: {v:?}\n{}", ty.decls()))?;
    note(o, &ty, &doc);
    let write = ty.e.write.unwrap();
    for _ in 0..2 {
        let mut r = Recorder::new();
        write(&v, &mut r).map_err(|e| format!("writing again failed: {e:?}\nvalue: {v:?}\n{}", ty.decls()))?;
        if r.out != doc {
            return Err(format!("writing again gives another document\nfirst:  {doc}\nsecond: {}\n{}", r.out, ty.decls()));
        }
        o.nontrivial |= r.calls >= 5;
        let calls = r.calls;
        let points: Vec<usize> = match calls > 300 {
            true => (0..300).map(|_| s.idx(calls)).collect(),
            false => (0..calls).collect(),
        };
        let transient = s.chance(1, 2);
        for k in points {
            let mut r = Recorder { fail_call: Some(k), transient, ..Recorder::new() };
            check_failed(&ty, &v, &doc, write(&v, &mut r), &r, &format!("call {k} of {calls}"))?;
            o.runs += 1;
        }
        if doc.is_empty() {
            continue;
        }
        for _ in 0..4 {
            let b = s.idx(doc.len());
            let mut r = Recorder { fail_byte: Some(b), transient, ..Recorder::new() };
            check_failed(&ty, &v, &doc, write(&v, &mut r), &r, &format!("byte {b}"))?;
            o.runs += 1;
        }
    }
    Ok(())
}

fn check_failed(ty: &Ty_<'_>, v: &Val, doc: &str, res: Result<(), Error>, r: &Recorder, at: &str) -> Result<(), String> {
    let ctx = || format!("writer failing at {at}\nvalue: {v:?}\ndocument: {doc}\nwritten: {}\n{}", r.out, ty.decls());
    match res {
        Err(Error::Format(_)) => {}
        Ok(()) => return Err(format!("the error of the writer was swallowed: {}", ctx())),
        Err(e) => return Err(format!("expected a Format error, got {e:?}: {}", ctx())),
    }
    if !doc.starts_with(&r.out) {
        return Err(format!("what was written is not a prefix of the document: {}", ctx()));
    }
    Ok(())
}

/// Finds lists of elements: path of field indexes to the list inside the value
fn lists(f: &Family, t: &Ty, v: &Val, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Ty)>) {
    match (t, v) {
        (Ty::Bx(t), v) => lists(f, t, v, path, out),
        (Ty::Opt(t), Val::Opt(Some(v))) => lists(f, t, v, path, out),
        (Ty::Vec(inner) | Ty::CowList(inner), Val::List(vs)) => {
            if vs.len() >= 2 {
                out.push((path.clone(), (**inner).clone()));
            }
            for (i, v) in vs.iter().enumerate() {
                path.push(i);
                lists(f, inner, v, path, out);
                path.pop();
            }
        }
        (Ty::Ref(r), Val::Enum(i, Some(v))) => lists(f, f.types[*r].variants[*i].ty.as_ref().unwrap(), v, path, out),
        (Ty::Ref(r), Val::Struct(vs)) => {
            for (i, (fd, v)) in f.types[*r].fields.iter().zip(vs).enumerate() {
                path.push(i);
                lists(f, &fd.ty, v, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn at_mut<'v>(v: &'v mut Val, path: &[usize]) -> &'v mut Vec<Val> {
    match v {
        Val::Opt(Some(v)) | Val::Enum(_, Some(v)) => at_mut(v, path),
        Val::List(vs) | Val::Struct(vs) => match path.split_first() {
            None => vs,
            Some((i, rest)) => at_mut(&mut vs[*i], rest),
        },
        _ => unreachable!(),
    }
}

/// The bytes of an item of a list are the same whatever items precede it
fn siblings(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, writable);
    let v = ty.val(s);
    let mut found = Vec::new();
    lists(ty.f, &Ty::Ref(ty.t), &v, &mut Vec::new(), &mut found);
    if found.is_empty() {
        return Ok(());
    }
    let (path, _) = found[s.idx(found.len())].clone();
    let write = |v: &Val| ty.write(v).map_err(|e| format!("writing failed: {e:?}\nvalue: {v:?}\n{}", ty.decls()));
    let items = at_mut(&mut v.clone(), &path).clone();
    let with = |keep: &[usize]| {
        let mut w = v.clone();
        *at_mut(&mut w, &path) = keep.iter().map(|i| items[*i].clone()).collect();
        w
    };
    let none = write(&with(&[]))?;
    let full = write(&v)?;
    note(o, &ty, &full);
    o.nontrivial = true;
    // the rest of the document around the list, from the empty list: only used when the element
    // does not change its form
    let mut pieces = Vec::new();
    for i in 0..items.len() {
        let one = write(&with(&[i]))?;
        o.runs += 1;
        pieces.push(one);
    }
    // common prefix and suffix of all single-item documents around the item: use two copies
    for (i, one) in pieces.iter().enumerate() {
        let two = write(&with(&[i, i]))?;
        if two.len() < one.len() {
            return Err(format!("a longer list gives a shorter document\none: {one}\ntwo: {two}\n{}", ty.decls()));
        }
        let len = two.len() - one.len();
        // `one` = pre item post, `two` = pre item item post: some split must work
        let ok = (0..=one.len().saturating_sub(len)).any(|p| {
            one.is_char_boundary(p) && one.is_char_boundary(p + len) && {
                let (pre, item, post) = (&one[..p], &one[p..p + len], &one[p + len..]);
                two == format!("{pre}{item}{item}{post}")
            }
        });
        if !ok {
            return Err(format!("an item repeated is not written the same way twice\nonce:  {one}\ntwice: {two}\n{}", ty.decls()));
        }
    }
    // all items together: the lengths add up and the pieces appear in order
    let parsed = xmlref::parse_output(&full).map_err(|e| format!("not well-formed: {e}\n{full}"))?;
    let mut whole: Vec<&str> = Vec::new();
    spans(&parsed, &full, &mut whole);
    for one in &pieces {
        let p = xmlref::parse_output(one).map_err(|e| format!("not well-formed: {e}\n{one}"))?;
        let mut part: Vec<&str> = Vec::new();
        spans(&p, one, &mut part);
        // leaves of the single-item document that are not in the empty one belong to the item
        for leaf in part {
            if !none.contains(leaf) && !whole.contains(&leaf) {
                return Err(format!("{leaf} is written differently next to other items\nalone: {one}\nwhole: {full}\n{}", ty.decls()));
            }
        }
    }
    Ok(())
}

/// The text of the elements without child elements
fn spans<'d>(e: &PEl, doc: &'d str, out: &mut Vec<&'d str>) {
    if e.elems().next().is_none() {
        out.push(&doc[e.span.0..e.span.1]);
    }
    e.elems().for_each(|c| spans(c, doc, out));
}


#[derive(Debug, PartialEq, ToXml, FromXml)]
#[xml(ns("urn:x?a=1&b=2"))]
pub(super) struct Query;

#[derive(Debug, PartialEq, ToXml, FromXml)]
struct Item(u8);

#[derive(Debug, PartialEq, ToXml, FromXml)]
struct Tuple(Vec<Item>);

/// K1: the URI of a namespace declaration is written as it is
fn escaped_uri() -> bool {
    let doc = instant_xml::to_string(&Query).unwrap_or_default();
    !doc.contains("&amp;")
}

/// K2: a list in a tuple struct keeps one item
fn tuple_list() -> bool {
    let v = Tuple(vec![Item(1), Item(2)]);
    let doc = instant_xml::to_string(&v).unwrap_or_default();
    !matches!(instant_xml::from_str::<Tuple>(&doc), Ok(w) if w == v)
}

#[derive(Debug, PartialEq, ToXml, FromXml)]
struct Other;

#[derive(Debug, PartialEq, ToXml, FromXml)]
struct OptFirst(Option<Item>, Other);

#[derive(Debug, PartialEq, ToXml, FromXml)]
struct TextFirst(String, Other);

#[derive(Debug, PartialEq, ToXml, FromXml)]
#[xml(transparent)]
struct Two {
    a: u8,
    b: u8,
}

#[derive(Debug, PartialEq, ToXml, FromXml)]
struct Pairs {
    two: Vec<Two>,
}

fn changed<T: ToXml + for<'a> FromXml<'a> + PartialEq>(v: T) -> bool {
    let doc = instant_xml::to_string(&v).unwrap_or_default();
    !matches!(instant_xml::from_str::<T>(&doc), Ok(w) if w == v)
}

/// K5: an absent option in a tuple struct before another field
fn tuple_absent() -> bool {
    changed(OptFirst(None, Other))
}

/// K6: a list of a transparent struct with several fields
fn transparent_list() -> bool {
    changed(Pairs { two: vec![Two { a: 1, b: 2 }] })
}

/// K7: an empty string in a tuple struct before an element
fn tuple_empty_text() -> bool {
    changed(TextFirst(String::new(), Other))
}
