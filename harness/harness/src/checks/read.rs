//! C05 namespaces, C06 names, C07 insignificant differences, C08 order, C09 missing and repeated
//! content, C16 enums.
use std::borrow::Cow;

use instant_xml::{AnyElement, Error, FromXml};
use xmodel::model::{At, Cls, DErr, El, Nd};
use xmodel::render::Style;
use xmodel::schema::*;
use xmodel::src::Src;

use crate::engine::{part, Check, Cx, Obs};
use crate::util::*;

const TRUST: &[&str] = &[
    "the reference model and renderer in harness/xmodel",
    "generated types stay in the domain described in DESIGN.md",
];

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C05",
            level: "exploration",
            rule: "the tree of a random value is rendered in several random namespace styles and read; nontrivial: at least one namespace and two elements or attributes with one; distinct: by type and document",
            assumptions: TRUST,
            parts: vec![part("styles", 40_000, styles), part("any", 20_000, styles_any), part("deep", 12_000, super::deep::namespaces)],
            known: vec![("K1", escaped_uri)],
        },
        Check {
            id: "C06",
            level: "exploration",
            rule: "the name, namespace or prefix of a random element or attribute of a valid document is changed; nontrivial: every such document; distinct: by type and document",
            assumptions: TRUST,
            parts: vec![part("rename", 50_000, rename), part("undeclared", 25_000, undeclared)],
            known: vec![],
        },
        Check {
            id: "C07",
            level: "exploration",
            rule: "the tree of a random value gets unknown elements and attributes and is rendered with comments, CDATA, references, whitespace and other quoting; nontrivial: the document differs from the plain one; distinct: by type and document",
            assumptions: TRUST,
            parts: vec![part("noise", 50_000, noise), part("deep", 8_000, super::deep::noise)],
            known: vec![("K8", declaration_space)],
        },
        Check {
            id: "C08",
            level: "exploration",
            rule: "children of elements of named structs are permuted keeping the order within each field; nontrivial: the order changed; distinct: by type and document",
            assumptions: TRUST,
            parts: vec![part("permute", 50_000, permute), part("long", 40, super::long::order)],
            known: vec![],
        },
        Check {
            id: "C09",
            level: "exploration",
            rule: "one element, attribute or text of a valid document is removed, emptied or repeated; nontrivial: every such document; distinct: by type and document",
            assumptions: TRUST,
            parts: vec![part("remove", 40_000, remove), part("repeat", 40_000, repeat), part("marks", 12_000, marks), part("singles", 20_000, singles), part("long", 40, super::long::repeated)],
            known: vec![("K9", tuple_repeat)],
        },
        Check {
            id: "C16",
            level: "exploration",
            rule: "texts of scalar enums and names of forward enum payloads are replaced by names of other variants, near misses and random ones; nontrivial: every such document; distinct: by type and document",
            assumptions: TRUST,
            parts: vec![part("scalar", 40_000, enum_text), part("forward", 30_000, enum_name)],
            known: vec![],
        },
    ]
}

fn note(o: &mut Obs, ty: &Ty_<'_>, doc: &str) {
    o.key(&[&ty.name(), doc]);
    o.sample(|| format!("{}: {doc}", ty.name()));
    o.tag(&format!("theme {}", ty.f.theme));
}

fn any(_: &Family, _: usize, _: &support::Entry) -> bool {
    true
}

const NS: Style = Style { ns: true, refs: false, comments: false, space: false, markup: false, prolog: false };

fn styles(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    if s.chance(1, 3) {
        add_foreign(&ty, &mut el, s, 1);
    }
    let want = ty.expect(&el);
    let mut docs = Vec::new();
    for _ in 0..3 {
        let doc = ty.render(&el, s, NS);
        o.runs += 1;
        note(o, &ty, &doc);
        o.nontrivial |= doc.matches("xmlns").count() >= 2;
        ty.read_as(&doc, &want, true)?;
        docs.push(doc);
    }
    // the same for the type that takes every element
    same_any(&docs)
}

fn same_any(docs: &[String]) -> Result<(), String> {
    let read = |d: &String| instant_xml::from_str::<AnyElement<'_>>(d).map(|a| a.into_owned());
    let first = read(&docs[0]);
    for d in &docs[1..] {
        let got = read(d);
        if got != first {
            return Err(format!("AnyElement of\n{}\nis {first:?}, of\n{d}\nit is {got:?}", docs[0]));
        }
    }
    Ok(())
}

/// Trees no type describes
fn styles_any(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let el = foreign_tree(s, 3, &["urn:a".to_owned(), "urn:b".to_owned(), "urn:c".to_owned()]);
    let docs: Vec<String> = (0..3).map(|_| xmodel::render::render(None, &el, s, NS)).collect();
    o.runs += 2;
    o.key(&[&docs[0], &docs[1], &docs[2]]);
    o.nontrivial = docs.iter().all(|d| d.contains("xmlns")) && docs[0] != docs[1];
    o.sample(|| format!("{} = {}", docs[0], docs[1]));
    if let Err(e) = instant_xml::from_str::<AnyElement<'_>>(&docs[0]) {
        return Err(format!("reading failed: {e:?}\ndocument: {}", docs[0]));
    }
    same_any(&docs)
}

// ---- C06

pub fn near(s: &mut Src, name: &str) -> String {
    let cs: Vec<char> = name.chars().collect();
    let i = s.idx(cs.len().max(1));
    let mut out: String = match s.below(7) {
        0 => cs.iter().map(|c| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap() }).collect(),
        1 => cs.iter().enumerate().map(|(j, c)| if i == j { flip(*c) } else { *c }).collect(),
        2 => cs.iter().enumerate().filter(|(j, _)| i != *j).map(|(_, c)| *c).collect(),
        3 => format!("{name}x"),
        4 => format!("{name}-"),
        5 => format!("x{name}"),
        _ => name.to_lowercase(),
    };
    if !xmodel::names::is_ncname(&out) {
        out = format!("x{name}");
    }
    out
}

fn flip(c: char) -> char {
    match c {
        'a' => 'b',
        '-' => '_',
        '_' => '-',
        c if c.is_uppercase() => c.to_lowercase().next().unwrap(),
        c if c.is_lowercase() => c.to_uppercase().next().unwrap(),
        _ => 'z',
    }
}

fn near_ns(s: &mut Src, f: &Family, ns: &str) -> String {
    match s.below(6) {
        0 => String::new(),
        1 => format!("{ns}/"),
        2 => ns.to_uppercase(),
        3 if ns.len() > 1 && ns.is_char_boundary(ns.len() - 1) => ns[..ns.len() - 1].to_owned(),
        4 => "urn:zz".to_owned(),
        _ => s.pick(&f.uris).clone(),
    }
}

fn rename(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    let paths = el.paths();
    let n = 1 + s.idx(2);
    for _ in 0..n {
        let path = s.pick(&paths).clone();
        let e = el.at_mut(&path);
        if !e.attrs.is_empty() && s.chance(1, 2) {
            let i = s.idx(e.attrs.len());
            let (name, ns) = match s.below(2) {
                0 => (near(s, &e.attrs[i].name), e.attrs[i].ns.clone()),
                _ => (e.attrs[i].name.clone(), near_ns(s, ty.f, &e.attrs[i].ns)),
            };
            if !e.attrs.iter().any(|a| a.name == name && a.ns == ns) {
                e.attrs[i].name = name;
                e.attrs[i].ns = ns;
            }
        } else {
            match s.below(2) {
                0 => e.name = near(s, &e.name.clone()),
                _ => e.ns = near_ns(s, ty.f, &e.ns.clone()),
            }
        }
    }
    let want = ty.expect(&el);
    let st = if s.chance(1, 3) { NS } else { Style::PLAIN };
    let doc = ty.render(&el, s, st);
    note(o, &ty, &doc);
    o.nontrivial = true;
    o.tag(match &want {
        Ok(w) if *w == v => "same value",
        Ok(_) => "other value",
        Err(DErr::Missing(_)) => "missing",
        Err(DErr::Root) => "root",
        Err(_) => "other error",
    });
    ty.read_as(&doc, &want, n == 1)
}

/// A name with a prefix nobody declared
pub(super) fn undeclared(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    // elements read by a named struct, and the elements in them
    let mut places: Vec<(Vec<usize>, Option<usize>)> = vec![(vec![], None)];
    for p in typed_paths(ty.f, &el, |d| d.kind == Kind::Named) {
        let e = el.at(&p);
        for i in 0..e.attrs.len() {
            places.push((p.clone(), Some(i)));
        }
        for (i, k) in e.kids.iter().enumerate() {
            if matches!(k, Nd::E(_)) {
                let mut q = p.clone();
                q.push(i);
                places.push((q, None));
            }
        }
    }
    let (path, attr) = places[s.idx(places.len())].clone();
    let p = *s.pick(&["undecl", "P0", "xmlns1", "XML"]);
    {
        let e = el.at_mut(&path);
        match attr {
            Some(i) => {
                e.attrs[i].ns = String::new();
                e.attrs[i].name = format!("{p}:{}", e.attrs[i].name);
            }
            None => {
                e.ns = String::new();
                e.name = format!("{p}:{}", e.name);
            }
        }
    }
    // an unknown one next to the known ones
    if attr.is_none() && !path.is_empty() && s.chance(1, 3) {
        let e = el.at_mut(&path);
        e.name = format!("{p}:zz");
    }
    let doc = ty.render(&el, s, Style::PLAIN);
    note(o, &ty, &doc);
    o.nontrivial = true;
    if path.is_empty() && attr.is_none() {
        // the root's name is needed by whoever reads it
        o.tag("root");
        match instant_xml::Deserializer::new(&doc).map(drop) {
            Err(Error::UnknownPrefix(q)) if q == p => {}
            r => return Err(format!("Deserializer::new: expected UnknownPrefix({p:?}), got {r:?}\ndocument: {doc}")),
        }
        match instant_xml::from_str::<AnyElement<'_>>(&doc) {
            Err(Error::UnknownPrefix(q)) if q == p => {}
            r => return Err(format!("AnyElement: expected UnknownPrefix({p:?}), got {r:?}\ndocument: {doc}")),
        }
    }
    match (ty.e.read)(&doc) {
        Err(Error::UnknownPrefix(q)) if q == p => Ok(()),
        r => Err(format!("expected UnknownPrefix({p:?}), got {r:?}\ndocument: {doc}\n{}", ty.decls())),
    }
}

// ---- C07

/// The names of all elements and attributes of the family
fn known_names(f: &Family) -> Vec<(&str, &str)> {
    let mut out = Vec::new();
    for (t, d) in f.types.iter().enumerate() {
        out.push(f.type_id(t));
        if !matches!(d.kind, Kind::Named | Kind::Transparent) {
            continue;
        }
        out.extend(d.fields.iter().filter(|fd| fd.role != Role::Direct).map(|fd| f.field_id(d, fd)));
    }
    out
}

/// Gives unknown elements names of known ones, of those around them in particular
fn disguise(c: &mut El, el: &El, path: &[usize], names: &[(&str, &str)], s: &mut Src) {
    if s.chance(2, 3) {
        let (ns, name) = match s.below(3) {
            0 => {
                let e = el.at(&path[..s.idx(path.len() + 1)]);
                (e.ns.as_str(), e.name.as_str())
            }
            1 => {
                let e = el.at(path);
                (e.ns.as_str(), e.name.as_str())
            }
            _ if names.is_empty() => ("", "zz"),
            _ => *s.pick(names),
        };
        (c.ns, c.name) = (ns.to_owned(), name.to_owned());
    }
    for k in &mut c.kids {
        if let Nd::E(k) = k {
            disguise(k, el, path, names, s);
        }
    }
}

/// Adds unknown elements and attributes where they cannot be taken for known ones
pub fn add_foreign(ty: &Ty_<'_>, el: &mut El, s: &mut Src, n: usize) {
    let f = ty.f;
    let paths = typed_paths(f, el, |d| matches!(d.kind, Kind::Named | Kind::Tuple | Kind::Unit));
    for _ in 0..n {
        // inner elements first would move the paths of later ones: take one path per round
        let path = s.pick(&paths).clone();
        let Cls::Type(t) = el.at(&path).cls else { continue };
        let d = &f.types[t];
        if s.chance(1, 3) {
            let names = known_names(f);
            let (ns, name) = match s.below(5) {
                0 => ("", "zz"),
                1 => ("urn:zz", "id"),
                2 => (xmodel::xmlref::XML_NS, "lang"),
                // known elsewhere
                _ if names.is_empty() => ("", "id"),
                n => match s.pick(&names) {
                    (ns, name) if n == 3 => (*ns, *name),
                    (_, name) => ("", *name),
                },
            };
            let e = el.at_mut(&path);
            if s.chance(1, 16) && e.attrs.len() < 40 {
                // many, within the limit
                let n = s.range(1, 48 - e.attrs.len());
                for i in 0..n {
                    if e.attrs.iter().any(|a| a.ns.is_empty() && a.name == format!("unknown{i}")) {
                        continue;
                    }
                    let at = s.idx(e.attrs.len() + 1);
                    e.attrs.insert(at, At { ns: String::new(), name: format!("unknown{i}"), val: i.to_string() });
                }
                continue;
            }
            let known = d.fields.iter().any(|fd| fd.role == Role::Attribute && f.field_id(d, fd) == (ns, name));
            if !known && !e.attrs.iter().any(|a| a.ns == ns && a.name == name) {
                let at = s.idx(e.attrs.len() + 1);
                e.attrs.insert(at, At { ns: ns.into(), name: name.into(), val: xmodel::gen::text(s) });
            }
            continue;
        }
        // unknown content may be as deep as the limit allows
        let depth = match s.chance(1, 24) {
            true => s.range(3, 29usize.saturating_sub(path.len()).max(3)),
            false => 3,
        };
        let mut c = foreign_tree(s, depth, &f.uris);
        match s.below(4) {
            // names that are known elsewhere
            0 => disguise(&mut c, el, &path, &known_names(f), s),
            // an element that belongs elsewhere
            1 => {
                let all = el.paths();
                let other = el.at(s.pick(&all));
                if other.depth() + path.len() < 30 && other.count() < 60 {
                    c = other.clone();
                }
            }
            _ => {}
        }
        c.cls = Cls::Foreign;
        c.group = usize::MAX - 1 - s.idx(1 << 20);
        let e = el.at_mut(&path);
        let known = d.fields.iter().any(|fd| {
            let id = match d.kind {
                Kind::Tuple => None,
                _ => Some(f.field_id(d, fd)),
            };
            fd.role == Role::Element && f.element_matches(&fd.ty, id, &c.ns, &c.name)
        });
        let scalar_tuple = d.kind == Kind::Tuple && !f.space_ok(t);
        if known || scalar_tuple {
            continue;
        }
        let at = s.idx(e.kids.len() + 1);
        e.kids.insert(at, Nd::E(c));
        if let Some(k) = paths.iter().position(|p| *p == path) {
            // a path through the changed element may have moved: only its own path stays valid
            let _ = k;
            break;
        }
    }
}

fn noise(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    let plain = ty.render(&el, &mut Src::replay(vec![]), Style::PLAIN);
    let n = s.idx(3);
    for _ in 0..n {
        add_foreign(&ty, &mut el, s, 1);
    }
    // the model agrees that nothing changed
    let want = ty.expect(&el);
    if want.as_ref() != Ok(&v) {
        return Err(format!("HARNESS ERROR: the model reads {want:?} instead of {v:?}\n{el:?}\n{}", ty.decls()));
    }
    let st = Style {
        ns: s.chance(1, 4),
        refs: s.chance(1, 2),
        comments: s.chance(1, 2),
        space: s.chance(1, 2),
        markup: s.chance(1, 2),
        prolog: s.chance(1, 4),
    };
    let doc = ty.render(&el, s, st);
    note(o, &ty, &doc);
    o.nontrivial = doc != plain;
    ty.read_as(&doc, &want, true)
}

// ---- C08

fn permute(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    for _ in 0..s.small(3) {
        add_foreign(&ty, &mut el, s, 1);
    }
    let before = el.clone();
    for p in typed_paths(ty.f, &before, |d| d.kind == Kind::Named) {
        // paths stay valid: inner elements are visited through their new position
        let _ = p;
    }
    shuffle(&ty, &mut el, s);
    let doc = ty.render(&el, s, Style::PLAIN);
    note(o, &ty, &doc);
    o.nontrivial = el != before;
    let want = ty.expect(&el);
    if want.as_ref() != Ok(&v) {
        return Err(format!("HARNESS ERROR: the model reads {want:?} instead of {v:?}\n{el:?}\n{}", ty.decls()));
    }
    ty.read_as(&doc, &want, true)
}

fn shuffle(ty: &Ty_<'_>, e: &mut El, s: &mut Src) {
    let named = matches!(e.cls, Cls::Type(t) if ty.f.types[t].kind == Kind::Named);
    if named {
        s.shuffle(&mut e.attrs);
        // split into groups in order, then merge at random
        let mut groups: Vec<(usize, Vec<Nd>)> = Vec::new();
        for k in std::mem::take(&mut e.kids) {
            let g = match &k {
                Nd::E(c) => c.group,
                Nd::T(_) => usize::MAX,
            };
            match groups.iter_mut().find(|(h, _)| *h == g) {
                Some((_, v)) => v.push(k),
                None => groups.push((g, vec![k])),
            }
        }
        for (_, v) in &mut groups {
            v.reverse();
        }
        while !groups.is_empty() {
            let i = s.idx(groups.len());
            e.kids.push(groups[i].1.pop().unwrap());
            if groups[i].1.is_empty() {
                groups.remove(i);
            }
        }
    }
    for k in &mut e.kids {
        if let Nd::E(c) = k {
            shuffle(ty, c, s);
        }
    }
}

// ---- C09

pub(super) fn remove(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    let paths = el.paths();
    let path = s.pick(&paths).clone();
    match s.below(3) {
        0 if !el.at(&path).attrs.is_empty() => {
            let e = el.at_mut(&path);
            let i = s.idx(e.attrs.len());
            if s.chance(1, 4) {
                e.attrs[i].val.clear();
                o.tag("attribute emptied");
            } else {
                e.attrs.remove(i);
                o.tag("attribute removed");
            }
        }
        1 if !path.is_empty() => {
            let (last, up) = path.split_last().unwrap();
            el.at_mut(up).kids.remove(*last);
            o.tag("element removed");
        }
        _ => {
            el.at_mut(&path).kids.clear();
            o.tag("element emptied");
        }
    }
    finish(&ty, el, s, o, true)
}

pub(super) fn repeat(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    let mut paths = el.paths();
    paths.retain(|p| !p.is_empty());
    if paths.is_empty() {
        return Ok(());
    }
    let path = s.pick(&paths).clone();
    let (last, up) = path.split_last().unwrap();
    // with the same or with another value
    let mut copy = el.at(&path).clone();
    if s.chance(1, 2) {
        let other = ty.el(&ty.val(s));
        let found = other.paths().into_iter().find(|p| {
            let c = other.at(p);
            !p.is_empty() && c.ns == copy.ns && c.name == copy.name && c.cls == copy.cls
        });
        if let Some(p) = found {
            copy = other.at(&p).clone();
        }
    }
    if s.chance(1, 6) {
        copy.kids.clear();
    }
    let e = el.at_mut(up);
    let at = match s.below(3) {
        0 => last + 1,
        1 => e.kids.len(),
        _ => s.idx(e.kids.len() + 1),
    };
    // never into the middle of text
    e.kids.insert(at, Nd::E(copy));
    // a recursive type in itself: deeper than the limit
    if el.depth() > 30 {
        return Ok(());
    }
    finish(&ty, el, s, o, true)
}

fn finish(ty: &Ty_<'_>, el: El, s: &mut Src, o: &mut Obs, kinds: bool) -> Result<(), String> {
    let want = ty.expect(&el);
    o.tag(match &want {
        Ok(_) => "accepted",
        Err(DErr::Missing(_)) => "missing",
        Err(DErr::Dup(_)) => "duplicate",
        Err(_) => "other error",
    });
    let st = if s.chance(1, 4) { Style { markup: true, ..Style::PLAIN } } else { Style::PLAIN };
    let doc = ty.render(&el, s, st);
    note(o, ty, &doc);
    o.nontrivial = true;
    ty.read_as(&doc, &want, kinds)
}

/// Fields that only say whether an element is there
const URN_B: &str = "urn:b";

#[derive(Debug, PartialEq, FromXml)]
#[xml(ns("urn:a", b = "urn:b"), rename = "r")]
struct Marks {
    on: (),
    #[xml(ns("urn:b"))]
    off: Option<()>,
    all: Vec<()>,
    n: Option<u8>,
    #[xml(attribute)]
    seen: Option<()>,
    #[xml(attribute, ns(URN_B))]
    more: Option<()>,
    #[xml(attribute)]
    number: Option<u8>,
    cell: Vec<Cell>,
    last: Option<Last>,
}

/// Has a text or none, between any elements
#[derive(Debug, PartialEq, FromXml)]
#[xml(ns("urn:a"), rename = "cell")]
struct Cell {
    #[xml(attribute)]
    id: Option<u8>,
    n: Option<u8>,
    #[xml(direct)]
    any: (),
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(ns("urn:a"), rename = "last")]
struct Last {
    cell: Option<Cell>,
    #[xml(direct)]
    text: String,
}

/// A cell, its value and whether it has more than one text
fn cell(s: &mut Src) -> (El, Cell, bool) {
    let mut k = El::new("urn:a", "cell", Cls::Foreign);
    let mut v = Cell { id: None, n: None, any: () };
    if s.chance(1, 2) {
        let id = s.below(256) as u8;
        k.attrs.push(At { ns: String::new(), name: "id".into(), val: id.to_string() });
        v.id = Some(id);
    }
    for i in 0..s.small(4) {
        match s.below(3) {
            0 => k.kids.push(Nd::E(foreign_tree(s, i + 1, &[]))),
            1 if v.n.is_none() => {
                let n = s.below(256) as u8;
                let mut e = El::new("urn:a", "n", Cls::Foreign);
                e.kids.push(Nd::T(n.to_string()));
                k.kids.push(Nd::E(e));
                v.n = Some(n);
            }
            _ if i > 0 && s.chance(2, 3) => k.kids.push(Nd::E(foreign_tree(s, i + 1, &[]))),
            _ => k.kids.push(Nd::T("some text".into())),
        }
    }
    k.normalise();
    let twice = k.kids.iter().filter(|k| matches!(k, Nd::T(_))).count() > 1;
    (k, v, twice)
}

fn marks(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let mut el = El::new("urn:a", "r", Cls::Foreign);
    let (mut on, mut off, mut all, mut n) = (false, false, 0, None);
    let mut twice = false;
    let mut want = Marks { on: (), off: None, all: Vec::new(), n: None, seen: None, more: None, number: None, cell: Vec::new(), last: None };
    for (ns, name) in [("", "seen"), ("urn:b", "more"), ("", "number"), ("", "more")] {
        if s.chance(1, 2) {
            continue;
        }
        let val = match name {
            "number" => "7",
            _ => *s.pick(&["", "1", "a&b<c", "yes"]),
        };
        let at = s.idx(el.attrs.len() + 1);
        el.attrs.insert(at, At { ns: ns.into(), name: name.into(), val: val.into() });
        match (ns, name) {
            ("", "seen") => want.seen = Some(()),
            ("urn:b", _) => want.more = Some(()),
            ("", "number") => want.number = Some(7),
            _ => {}
        }
    }
    for _ in 0..s.small(8) {
        match s.below(8) {
            0 => {
                let (k, v, t) = cell(s);
                twice |= t;
                el.kids.push(Nd::E(k));
                want.cell.push(v);
                continue;
            }
            1 if want.last.is_none() => {
                let mut k = El::new("urn:a", "last", Cls::Foreign);
                let c = s.chance(2, 3).then(|| cell(s));
                let text = *s.pick(&["", "t", " x "]);
                let mut kids: Vec<Nd> = Vec::new();
                let mut v = Last { cell: None, text: text.into() };
                if let Some((e, c, t)) = c {
                    twice |= t;
                    kids.push(Nd::E(e));
                    v.cell = Some(c);
                }
                if !text.is_empty() {
                    let at = s.idx(kids.len() + 1);
                    kids.insert(at, Nd::T(text.into()));
                }
                k.kids = kids;
                el.kids.push(Nd::E(k));
                want.last = Some(v);
                continue;
            }
            _ => {}
        }
        let (ns, name) = *s.pick(&[("urn:a", "on"), ("urn:b", "off"), ("urn:a", "all"), ("urn:a", "n"), ("urn:b", "on"), ("urn:a", "off"), ("", "all")]);
        let mut k = El::new(ns, name, Cls::Foreign);
        match (ns, name) {
            ("urn:a", "n") if n.is_some() => continue,
            ("urn:a", "n") => {
                let v = s.below(256) as u8;
                k.kids.push(Nd::T(v.to_string()));
                n = Some(v);
            }
            _ => {
                // what is in the element does not matter
                k.kids = (0..s.small(3)).map(|i| if s.chance(1, 2) { Nd::E(foreign_tree(s, i + 1, &[])) } else { Nd::T("x".into()) }).collect();
                k.normalise();
                match (ns, name) {
                    ("urn:a", "on") if on && s.chance(2, 3) => continue,
                    ("urn:b", "off") if off && s.chance(2, 3) => continue,
                    ("urn:a", "on") if on => twice = true,
                    ("urn:b", "off") if off => twice = true,
                    ("urn:a", "on") => on = true,
                    ("urn:b", "off") => off = true,
                    ("urn:a", "all") => all += 1,
                    _ => {}
                }
            }
        }
        el.kids.push(Nd::E(k));
    }
    let doc = xmodel::render::render(None, &el, s, Style { ns: true, markup: true, ..Style::PLAIN });
    o.key(&[&doc]);
    o.nontrivial = !el.kids.is_empty();
    o.sample(|| doc.clone());
    want.off = off.then_some(());
    want.all = vec![(); all];
    want.n = n;
    match instant_xml::from_str::<Marks>(&doc) {
        Ok(m) if on && !twice && m == want => Ok(()),
        Err(Error::DuplicateValue(_)) if twice => Ok(()),
        Err(Error::MissingValue(_)) if !on && !twice => Ok(()),
        r => {
            let want = match (twice, on) {
                (true, _) => "DuplicateValue".into(),
                (_, false) => "MissingValue".into(),
                (false, true) => format!("{want:?}"),
            };
            Err(format!("expected {want}, got {r:?}\ndocument: {doc}"))
        }
    }
}

/// Single values with their own way of being read
#[derive(Debug, FromXml)]
#[xml(rename = "s", ns("urn:a"))]
struct Singles<'a> {
    #[xml(borrow)]
    text: Cow<'a, str>,
    #[xml(borrow, deserialize_with = "crate::hand::read_bytes")]
    bytes: crate::hand::Bytes<'a>,
    #[xml(deserialize_with = "instant_xml::from_xml_str")]
    parsed: u8,
    boxed: Box<String>,
    #[xml(ns("urn:b"))]
    addr: Option<std::net::IpAddr>,
    time: Option<chrono::NaiveDate>,
    mark: (),
    pair: Option<Pair>,
    #[xml(borrow)]
    any: Option<AnyElement<'a>>,
}

#[derive(Debug, FromXml)]
#[xml(rename = "p", ns("urn:a"))]
struct Pair(Inner);

#[derive(Debug, FromXml)]
#[xml(ns("urn:a"), rename = "i")]
struct Inner;

/// Every single value at most once, and some of them always
fn singles(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    const FIELDS: [(&str, &str, &str, bool); 9] = [
        ("urn:a", "text", "some", true),
        ("urn:a", "bytes", "xyz", true),
        ("urn:a", "parsed", "7", true),
        ("urn:a", "boxed", "box", true),
        ("urn:b", "addr", "::1", false),
        ("urn:a", "time", "2020-01-02", false),
        ("urn:a", "mark", "", true),
        ("urn:a", "p", "", false),
        ("urn:x", "other", "content", false),
    ];
    let mut el = El::new("urn:a", "s", Cls::Foreign);
    let mut counts = [0; FIELDS.len()];
    // one fault or none
    let fault = s.chance(3, 4).then(|| s.idx(FIELDS.len()));
    for (i, (_, _, _, required)) in FIELDS.iter().enumerate() {
        counts[i] = match (fault == Some(i), required) {
            (false, true) => 1,
            (false, false) => s.idx(2),
            (true, true) => [0, 2, 3][s.idx(3)],
            (true, false) => 2 + s.idx(2),
        };
        for _ in 0..counts[i] {
            let (ns, name, text, _) = FIELDS[i];
            let mut k = El::new(ns, name, Cls::Foreign);
            match name {
                "p" => k.kids.push(Nd::E(El::new("urn:a", "i", Cls::Foreign))),
                // an empty element is a value too
                "text" | "bytes" | "boxed" | "other" if s.chance(1, 4) => {}
                _ => k.kids.push(Nd::T(text.into())),
            }
            k.normalise();
            let at = s.idx(el.kids.len() + 1);
            el.kids.insert(at, Nd::E(k));
        }
    }
    let doc = xmodel::render::render(None, &el, s, Style { ns: true, markup: true, ..Style::PLAIN });
    o.key(&[&doc]);
    o.nontrivial = fault.is_some();
    o.sample(|| doc.clone());
    match (instant_xml::from_str::<Singles<'_>>(&doc), fault) {
        (Err(Error::DuplicateValue(_)), Some(i)) if counts[i] > 1 => Ok(()),
        (Err(Error::MissingValue(_)), Some(i)) if counts[i] == 0 => Ok(()),
        (Ok(v), None) => {
            let got = [1, 1, 1, 1, v.addr.is_some() as usize, v.time.is_some() as usize, 1, v.pair.is_some() as usize, v.any.is_some() as usize];
            match got == counts {
                true => Ok(()),
                false => Err(format!("expected {counts:?}, got {v:?}\ndocument: {doc}")),
            }
        }
        (r, f) => Err(format!("fault {:?}, got {r:?}\ndocument: {doc}", f.map(|i| (FIELDS[i].1, counts[i])))),
    }
}

// ---- C16

fn has_enum(f: &Family, _: usize, _: &support::Entry) -> bool {
    f.types.iter().any(|d| d.kind == Kind::ScalarEnum)
}

fn has_forward(f: &Family, _: usize, _: &support::Entry) -> bool {
    f.types.iter().any(|d| d.kind == Kind::Forward)
}

fn enum_text(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, has_enum);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    let pool: Vec<String> = ty
        .f
        .types
        .iter()
        .filter(|d| d.kind == Kind::ScalarEnum)
        .flat_map(|d| d.variants.iter().flat_map(|v| [v.wire.clone(), xmodel::names::unraw(&v.ident).to_owned(), v.ident.clone()]))
        .collect();
    let mut spots: Vec<(Vec<usize>, Option<usize>)> = Vec::new();
    for p in el.paths() {
        let e = el.at(&p);
        for (i, a) in e.attrs.iter().enumerate() {
            if pool.contains(&a.val) {
                spots.push((p.clone(), Some(i)));
            }
        }
        if let [Nd::T(t)] = &e.kids[..] {
            if pool.contains(t) {
                spots.push((p.clone(), None));
            }
        }
    }
    if spots.is_empty() {
        return Ok(());
    }
    let (path, attr) = spots[s.idx(spots.len())].clone();
    let mut text = s.pick(&pool).clone();
    match s.below(10) {
        0 => text = format!(" {text}"),
        1 => text = format!("{text}\n"),
        2 => text = text.to_uppercase(),
        3 => text = text.to_lowercase(),
        4 => text = format!("{text}x"),
        5 => {
            text.pop();
        }
        6 => text = s.below(6).to_string(),
        7 => text = xmodel::gen::text(s),
        _ => {}
    }
    let e = el.at_mut(&path);
    match attr {
        Some(i) => e.attrs[i].val = text,
        None => e.kids = vec![Nd::T(text)],
    }
    el.normalise();
    let want = ty.expect(&el);
    o.tag(if want.is_ok() { "accepted" } else { "rejected" });
    let st = if s.chance(1, 4) { Style { refs: true, ..Style::PLAIN } } else { Style::PLAIN };
    let doc = ty.render(&el, s, st);
    note(o, &ty, &doc);
    o.nontrivial = true;
    ty.read_as(&doc, &want, false)
}

fn enum_name(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, has_forward);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    // names of all types of the family
    let ids: Vec<(String, String)> = (0..ty.f.types.len()).map(|t| ty.f.type_id(t)).map(|(a, b)| (a.to_owned(), b.to_owned())).collect();
    let paths: Vec<Vec<usize>> = typed_paths(ty.f, &el, |_| true);
    let path = s.pick(&paths).clone();
    let (ns, name) = s.pick(&ids).clone();
    let e = el.at_mut(&path);
    match s.below(4) {
        0 => e.ns = ns,
        1 => e.name = name,
        2 => {
            // a whole element of another type of the same value
            let all: Vec<El> = paths.iter().map(|p| ty.el(&v).at(p).clone()).collect();
            let other = s.pick(&all).clone();
            if other.depth() < 6 {
                *el.at_mut(&path) = other;
            }
        }
        _ => {
            e.ns = ns;
            e.name = name;
        }
    }
    let want = ty.expect(&el);
    o.tag(if want.is_ok() { "accepted" } else { "rejected" });
    let doc = ty.render(&el, s, Style::PLAIN);
    note(o, &ty, &doc);
    o.nontrivial = true;
    ty.read_as(&doc, &want, false)
}

/// K1: the value of a namespace declaration is compared without replacing references
fn escaped_uri() -> bool {
    !matches!(instant_xml::from_str::<super::write::Query>(r#"<Query xmlns="urn:x?a=1&amp;b=2" />"#), Ok(super::write::Query))
}

/// K8: an XML declaration that starts with another white space than a space is rejected
/// A tuple struct takes the first element for a field and the first text
fn tuple_repeat() -> bool {
    instant_xml::from_str::<Pair>("<p xmlns=\"urn:a\"><i/><i/></p>").is_ok() && instant_xml::from_str::<crate::hand::Tu<u8>>("<r>1<x/>2</r>").is_ok()
}

fn declaration_space() -> bool {
    instant_xml::from_str::<crate::hand::Unit>("<?xml\nversion='1.0'?><r/>").is_err()
}
