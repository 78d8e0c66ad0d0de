//! C13 limits, C14 AnyElement, C20 the pull API.
use std::borrow::Cow;

use instant_xml::de::{Limits, Node};
use instant_xml::{from_str, AnyElement, Deserializer, Error, FromXml};
use support::AnyV;
use xmodel::model::{self, At, Cls, El, Nd};
use xmodel::render::{render, Style};
use xmodel::schema::*;
use xmodel::src::Src;
use xmodel::xmlref::{self, PEl, PNode, XML_NS};
use xmodel::gen;

use crate::engine::{part, Check, Cx, Obs};
use crate::hand::{Nothing, Unit};
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C13",
            level: "exploration",
            rule: "documents whose attributes, prefix declarations and depth are around the limits in force; nontrivial: some count is at a limit or one above; distinct: by limits and document",
            assumptions: &["counts are taken from the generated shape"],
            parts: vec![part("default", 6_000, limit_default), part("set", 40_000, limit_set), part("typed", 20_000, limit_typed), part("long", 40, super::long::limits)],
            known: vec![],
        },
        Check {
            id: "C14",
            level: "exploration",
            rule: "random trees in random renderings are captured as root, field and list item; nontrivial: at least three elements or attributes; distinct: by document",
            assumptions: &["the independent parser in harness/xmodel/src/xmlref.rs"],
            parts: vec![
                part("root", 60_000, any_root),
                part("field", 40_000, any_field),
                part("prefix", 30_000, any_prefix),
                part("empty", 20_000, any_empty),
                part("edge", 400, any_edge),
                part("long", 40, super::long::any),
            ],
            known: vec![],
        },
        Check {
            id: "C20",
            level: "exploration",
            rule: "random trees in random renderings are consumed by random sequences of pull operations and compared with the infoset step by step; nontrivial: at least three elements and five operations; distinct: by document and operations",
            assumptions: &["the independent parser in harness/xmodel/src/xmlref.rs"],
            parts: vec![part("drive", 80_000, pull_drive), part("deep", 2_000, pull_deep), part("manual", 20_000, pull_manual), part("unread", 12_000, pull_unread), part("long", 40, super::long::pull)],
            known: vec![],
        },
    ]
}

// ---- random trees

const NSS: [&str; 6] = ["", "urn:a", "urn:b", "urn:c/é", "http://x.example/#y", "urn:a/"];
const NAMES: [&str; 10] = ["a", "b", "item", "Foo", "é", "x-1", "_", "a.b", "日本", "a-name-of-more-than-thirty-two-characters.and_some_more"];
const ANAMES: [&str; 10] = ["a", "id", "b", "é", "x-", "a.b", "_", "xmlnsa", "Id", "日"];

struct Shape {
    depth: usize,
    nodes: usize,
}

fn a_name(s: &mut Src) -> String {
    let mut name = (*s.pick(&NAMES)).to_owned();
    if s.chance(1, 12) {
        for _ in 0..s.range(1, 12) {
            name.push_str(s.pick(&["a", "x-1", ".b", "é", "Foo", "some_words", "日", "0"]));
        }
    }
    name
}

fn tree(s: &mut Src, sh: &mut Shape) -> El {
    sh.nodes = sh.nodes.saturating_sub(1);
    let mut e = El::new(s.pick(&NSS), &a_name(s), Cls::Foreign);
    for _ in 0..s.small(6) {
        let ns = match s.below(3) {
            0 => *s.pick(&NSS),
            1 if s.chance(1, 6) => XML_NS,
            _ => "",
        };
        let name = *s.pick(&ANAMES);
        if !e.attrs.iter().any(|a| a.name == name && a.ns == ns) {
            e.attrs.push(model::At { ns: ns.into(), name: name.into(), val: gen::text(s) });
        }
    }
    if sh.depth > 0 {
        sh.depth -= 1;
        for _ in 0..s.small(7) {
            match s.below(5) {
                0 | 1 => e.kids.push(Nd::T(gen::text(s))),
                _ if sh.nodes > 0 => e.kids.push(Nd::E(tree(s, sh))),
                _ => {}
            }
        }
        sh.depth += 1;
    }
    e.normalise();
    e
}

pub fn any_tree(s: &mut Src) -> El {
    let depth = if s.chance(1, 10) { 20 } else { 5 };
    let mut e = tree(s, &mut Shape { depth, nodes: 40 });
    match s.below(24) {
        // a chain of ancestors
        22 => {
            let deep = e.depth();
            for _ in 0..s.idx(26usize.saturating_sub(deep).max(1)) {
                let mut up = tree(s, &mut Shape { depth: 0, nodes: 0 });
                if s.chance(1, 2) {
                    up.ns = e.ns.clone();
                }
                up.kids.push(Nd::E(e));
                e = up;
            }
        }
        // many siblings or attributes
        23 => {
            for i in 0..s.range(1, 120) {
                let mut c = El::new(&e.ns, s.pick(&NAMES), Cls::Foreign);
                c.kids.push(Nd::T(i.to_string()));
                e.kids.push(Nd::E(c));
            }
            for i in 0..s.range(1, 40) {
                e.attrs.push(model::At { ns: String::new(), name: format!("n{i}"), val: i.to_string() });
            }
        }
        _ => {}
    }
    e
}

fn size(e: &El) -> usize {
    1 + e.attrs.len() + e.elems().map(size).sum::<usize>()
}

// ---- C14

/// An empty text and no text are the same tree
fn normal(mut a: AnyV) -> AnyV {
    a.children = a.children.into_iter().map(normal).collect();
    a.text = a.text.filter(|t| !t.is_empty());
    a
}

fn any_diff(want: &AnyV, got: &AnyV, path: &str) -> Option<String> {
    let here = format!("{path}/{}", want.name);
    if (&want.ns, &want.name) != (&got.ns, &got.name) {
        return Some(format!("{here}: expected {{{}}}{}, captured {{{}}}{}", want.ns, want.name, got.ns, got.name));
    }
    if want.attrs != got.attrs {
        return Some(format!("{here}: expected attributes {:?}, captured {:?}", want.attrs, got.attrs));
    }
    if want.text != got.text {
        return Some(format!("{here}: expected text {:?}, captured {:?}", want.text, got.text));
    }
    if want.children.len() != got.children.len() {
        return Some(format!("{here}: expected {} children, captured {}", want.children.len(), got.children.len()));
    }
    want.children.iter().zip(&got.children).find_map(|(a, b)| any_diff(a, b, &here))
}

fn owned(a: &AnyElement<'_>) -> Option<String> {
    fn all_owned(a: &AnyElement<'_>) -> bool {
        let o = |c: &Cow<'_, str>| matches!(c, Cow::Owned(_));
        o(&a.ns)
            && o(&a.name)
            && a.attributes.iter().all(|a| o(&a.ns) && o(&a.name) && o(&a.value))
            && a.text.iter().all(o)
            && a.children.iter().all(all_owned)
    }
    let c: AnyElement<'static> = a.clone().into_owned();
    if c != *a || support::any(&c) != support::any(a) {
        return Some(format!("into_owned changed the value: {a:?} became {c:?}"));
    }
    match all_owned(&c) {
        true => None,
        false => Some("into_owned left borrowed strings".into()),
    }
}

fn capture(doc: &str, want: &AnyV) -> Result<(), String> {
    let got = from_str::<AnyElement<'_>>(doc).map_err(|e| format!("not captured: {e:?}\ndocument: {doc}"))?;
    if let Some(d) = any_diff(&normal(want.clone()), &normal(support::any(&got)), "") {
        return Err(format!("{d}\ndocument: {doc}"));
    }
    match owned(&got) {
        Some(m) => Err(format!("{m}\ndocument: {doc}")),
        None => Ok(()),
    }
}

fn any_root(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let e = any_tree(s);
    let doc = render(None, &e, s, Style::FULL);
    o.key(&[&doc]);
    o.sample(|| doc.clone());
    o.nontrivial = size(&e) >= 3;
    let p = xmlref::parse(&doc).map_err(|m| format!("HARNESS ERROR: {m}: {doc}"))?;
    if p.to_el() != e {
        return Err(format!("HARNESS ERROR: rendering changed the tree: {doc}"));
    }
    o.runs += 1;
    capture(&doc, &model::any(&e))
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "r", ns("urn:r", p = "urn:rp"))]
struct AnyField<'a> {
    #[xml(attribute)]
    id: Option<String>,
    head: Option<String>,
    #[xml(borrow)]
    any: AnyElement<'a>,
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "r", ns("urn:r"))]
struct AnyOpt<'a> {
    head: Option<String>,
    #[xml(borrow)]
    any: Option<AnyElement<'a>>,
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "r", ns("urn:r"))]
struct AnyList<'a> {
    #[xml(attribute)]
    id: Option<String>,
    head: Vec<String>,
    #[xml(borrow)]
    any: Vec<AnyElement<'a>>,
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "o", ns("urn:r"))]
struct AnyDeep<'a> {
    before: Option<String>,
    #[xml(borrow)]
    list: Vec<AnyList<'a>>,
    after: Option<String>,
}

/// An element of urn:r with `heads` elements between the captured ones
fn holder(s: &mut Src, name: &str, anys: &[El], heads: usize) -> (El, Option<String>, Vec<String>) {
    let mut e = El::new("urn:r", name, Cls::Foreign);
    let id = s.chance(1, 2).then(|| gen::text(s));
    if let Some(id) = &id {
        e.attrs.push(model::At { ns: String::new(), name: "id".into(), val: id.clone() });
    }
    let mut kids: Vec<Nd> = anys.iter().cloned().map(Nd::E).collect();
    let mut texts = Vec::new();
    for i in 0..heads {
        let at = s.idx(kids.len() + 1);
        let t = format!("h{i}{}", gen::text(s));
        let mut h = El::new("urn:r", "head", Cls::Foreign);
        h.kids.push(Nd::T(t));
        kids.insert(at, Nd::E(h));
    }
    for k in &kids {
        if let Nd::E(e) = k {
            if (e.ns.as_str(), e.name.as_str()) == ("urn:r", "head") {
                if let Some(Nd::T(t)) = e.kids.first() {
                    texts.push(t.clone());
                }
            }
        }
    }
    e.kids = kids;
    // text around the elements belongs to nobody
    if s.chance(1, 3) {
        let at = s.idx(e.kids.len() + 1);
        e.kids.insert(at, Nd::T(gen::text(s)));
    }
    e.normalise();
    (e, id, texts)
}

fn any_field(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let kind = s.below(5);
    let n = match kind {
        0 => 1,
        1 => s.idx(2),
        _ => s.small(5),
    };
    let mut anys: Vec<El> = (0..n).map(|_| any_tree(s)).collect();
    if kind == 3 {
        // a namespace of the holder's own
        for e in &mut anys {
            e.ns = "urn:r".into();
        }
    }
    let want: Vec<AnyV> = anys.iter().map(model::any).collect();
    let heads = match kind {
        0 | 1 => s.idx(2),
        _ => s.small(3),
    };
    let check = |got: Vec<AnyV>, doc: &str| -> Result<(), String> {
        if got.len() != want.len() {
            return Err(format!("expected {} captured elements, got {}\ndocument: {doc}", want.len(), got.len()));
        }
        match want.iter().zip(&got).find_map(|(w, g)| any_diff(w, g, "")) {
            Some(d) => Err(format!("{d}\ndocument: {doc}")),
            None => Ok(()),
        }
    };
    let same = |what: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug, doc: &str| match format!("{got:?}") == format!("{want:?}") {
        true => Ok(()),
        false => Err(format!("{what}: expected {want:?}, read {got:?}\ndocument: {doc}")),
    };
    let (el, id, texts) = holder(s, "r", &anys, heads);
    o.nontrivial = n > 0;
    if kind == 4 {
        let mut outer = El::new("urn:r", "o", Cls::Foreign);
        let (second, _, _) = holder(s, "r", &anys, 0);
        for (name, pre) in [("before", true), ("after", false)] {
            let mut e = El::new("urn:r", name, Cls::Foreign);
            e.kids.push(Nd::T(name.into()));
            if !pre {
                outer.kids.push(Nd::E(el.clone()));
                if s.chance(1, 2) {
                    outer.kids.push(Nd::E(second.clone()));
                }
            }
            outer.kids.push(Nd::E(e));
        }
        let doc = render(None, &outer, s, Style::FULL);
        o.key(&["deep", &doc]);
        o.sample(|| doc.clone());
        let v = from_str::<AnyDeep<'_>>(&doc).map_err(|e| format!("{e:?}\ndocument: {doc}"))?;
        same("before", &v.before, &Some("before"), &doc)?;
        same("after", &v.after, &Some("after"), &doc)?;
        same("items", &v.list.len(), &(outer.kids.len() - 2), &doc)?;
        same("heads", &v.list[0].head, &texts, &doc)?;
        for l in v.list {
            check(l.any.iter().map(support::any).collect(), &doc)?;
        }
        return Ok(());
    }
    let doc = render(None, &el, s, Style::FULL);
    o.key(&[&kind.to_string(), &doc]);
    o.sample(|| doc.clone());
    let err = |e: Error| format!("{e:?}\ndocument: {doc}");
    match kind {
        0 => {
            let v = from_str::<AnyField<'_>>(&doc).map_err(err)?;
            same("id", &v.id, &id, &doc)?;
            same("head", &v.head, &texts.first(), &doc)?;
            check(vec![support::any(&v.any)], &doc)
        }
        1 => {
            let v = from_str::<AnyOpt<'_>>(&doc).map_err(err)?;
            same("head", &v.head, &texts.first(), &doc)?;
            check(v.any.iter().map(support::any).collect(), &doc)
        }
        _ => {
            let v = from_str::<AnyList<'_>>(&doc).map_err(err)?;
            same("id", &v.id, &id, &doc)?;
            same("head", &v.head, &texts, &doc)?;
            if let Some(m) = v.any.iter().find_map(owned) {
                return Err(format!("{m}\ndocument: {doc}"));
            }
            check(v.any.iter().map(support::any).collect(), &doc)
        }
    }
}

/// A prefix that is not declared where it is used
fn any_prefix(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let mut e = any_tree(s);
    // names cannot contain a colon otherwise
    let paths = e.paths();
    let path = s.pick(&paths).clone();
    let attr = s.chance(1, 2);
    let prefix = *s.pick(&["nope", "p0", "xm", "XML", "é0"]);
    // a document in which another element declares it
    let declared: Option<Vec<usize>> = s.chance(1, 2).then(|| s.pick(&paths).clone()).filter(|d| !path.starts_with(d));
    {
        let t = e.at_mut(&path);
        match attr {
            true => t.attrs.push(model::At { ns: String::new(), name: format!("{prefix}:q"), val: "v".into() }),
            false => {
                t.ns = String::new();
                t.name = format!("{prefix}:q");
            }
        }
    }
    if let Some(d) = &declared {
        e.at_mut(d).attrs.push(model::At { ns: String::new(), name: format!("xmlns:{prefix}"), val: "urn:p".into() });
    }
    let doc = render(None, &e, s, Style::FULL);
    o.key(&[&doc]);
    o.sample(|| doc.clone());
    o.nontrivial = true;
    if xmlref::parse(&doc).is_ok() {
        return Err(format!("HARNESS ERROR: should not resolve: {doc}"));
    }
    if let Ok(v) = from_str::<AnyElement<'_>>(&doc) {
        return Err(format!("the undeclared prefix {prefix} was accepted: {v:?}\ndocument: {doc}"));
    }
    // as a list item
    let el = doc.find('<').is_some() && !doc.contains("<?xml");
    if el {
        let doc = format!("<r xmlns=\"urn:r\"><head/>{doc}</r>");
        if let Ok(v) = from_str::<AnyList<'_>>(&doc) {
            return Err(format!("the undeclared prefix {prefix} was accepted: {v:?}\ndocument: {doc}"));
        }
    }
    Ok(())
}

/// As large as the limits permit
const MARK: char = '\u{E5E5}';

/// Markers become texts with nothing in them
fn mark(e: &mut El, s: &mut Src) {
    for at in (0..=e.kids.len()).rev() {
        if s.chance(1, 3) {
            e.kids.insert(at, Nd::T(MARK.to_string()));
        }
    }
    for k in &mut e.kids {
        if let Nd::E(c) = k {
            mark(c, s);
        }
    }
}

fn any_empty(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let e = any_tree(s);
    if render(None, &e, &mut Src::replay(vec![]), Style::PLAIN).contains(MARK) {
        return Ok(());
    }
    let mut m = e.clone();
    mark(&mut m, s);
    m.normalise();
    let marked = render(None, &m, s, Style { refs: false, ..Style::FULL });
    let mut doc = String::new();
    for c in marked.chars() {
        match c {
            MARK => doc.push_str(*s.pick(&["<![CDATA[]]>", "<![CDATA[]]><![CDATA[]]>", "<![CDATA[]]><!----><![CDATA[]]>", "<!----><![CDATA[]]>"])),
            c => doc.push(c),
        }
    }
    o.key(&[&doc]);
    o.sample(|| doc.clone());
    o.nontrivial = doc.contains("CDATA");
    let p = xmlref::parse(&doc).map_err(|m| format!("HARNESS ERROR: {m}: {doc}"))?;
    if p.to_el() != e {
        return Err(format!("HARNESS ERROR: empty texts changed the tree: {doc}"));
    }
    capture(&doc, &model::any(&e))
}

fn any_edge(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let depth = 28 + s.idx(5);
    let mut e = tree(s, &mut Shape { depth: 0, nodes: 1 });
    for _ in 1..depth {
        let mut p = tree(s, &mut Shape { depth: 0, nodes: 1 });
        p.kids.clear();
        if s.chance(1, 3) {
            p.kids.push(Nd::T(gen::text(s)));
        }
        p.kids.push(Nd::E(e));
        if s.chance(1, 3) {
            p.kids.push(Nd::E(tree(s, &mut Shape { depth: 0, nodes: 1 })));
        }
        if s.chance(1, 3) {
            p.kids.push(Nd::T(gen::text(s)));
        }
        p.normalise();
        e = p;
    }
    let path = vec![];
    let at = e.at_mut(&path);
    at.attrs.clear();
    for i in 0..60 + s.idx(5) {
        at.attrs.push(model::At { ns: String::new(), name: format!("a{i}"), val: i.to_string() });
    }
    let wide = s.idx(400);
    for i in 0..wide {
        let mut c = El::new("", "w", Cls::Foreign);
        c.kids.push(Nd::T(i.to_string()));
        at.kids.push(Nd::E(c));
    }
    let doc = render(None, &e, s, Style { ns: false, ..Style::FULL });
    o.key(&[&doc]);
    o.sample(|| doc.chars().take(300).collect());
    o.nontrivial = true;
    capture(&doc, &model::any(&e))
}

// ---- C20

struct Env {
    scope: Vec<(String, String)>,
}

impl Env {
    fn get(&self, p: &str) -> Option<&str> {
        match p {
            "xml" => Some(XML_NS),
            p => self.scope.iter().rev().find(|(q, _)| q == p).map(|(_, u)| u.as_str()),
        }
    }
}

const LOOKUPS: [&str; 10] = ["p", "q", "ns1", "a.b", "P", "é", "xs", "xml", "nope", "g0"];

enum Item<'a> {
    A(usize),
    T(&'a str),
    E(&'a PEl),
}

struct Driver<'a, 's> {
    s: &'s mut Src,
    env: Env,
    doc: &'a str,
    ops: String,
    count: usize,
    elems: usize,
    /// the rest of the document cannot be consumed any more
    stop: bool,
}

impl<'a> Driver<'a, '_> {
    fn fail<T>(&self, m: String) -> Result<T, String> {
        Err(format!("{m}\noperations: {}\ndocument: {}", self.ops, self.doc))
    }

    fn rest(&self, d: &Deserializer<'_, 'a>, e: &PEl) -> Result<(), String> {
        let id = d.parent();
        if (id.ns, id.name) != (e.ns.as_str(), e.local.as_str()) {
            return self.fail(format!("parent() is {{{}}}{}, expected {{{}}}{}", id.ns, id.name, e.ns, e.local));
        }
        Ok(())
    }

    fn scope(&mut self, d: &Deserializer<'_, 'a>) -> Result<(), String> {
        for _ in 0..2 {
            let p = *self.s.pick(&LOOKUPS);
            if d.namespace(p) != self.env.get(p) {
                return self.fail(format!("namespace({p:?}) is {:?}, expected {:?}", d.namespace(p), self.env.get(p)));
            }
        }
        Ok(())
    }

    fn ended(&mut self, d: &mut Deserializer<'_, 'a>, e: &PEl) -> Result<(), String> {
        for _ in 0..3 {
            if let Some(x) = d.next() {
                return self.fail(format!("after the end of <{}>: {x:?}", e.local));
            }
        }
        match d.take_str() {
            Ok(None) => {}
            r => return self.fail(format!("take_str() after the end of <{}>: {r:?}", e.local)),
        }
        if let Err(x) = d.ignore() {
            return self.fail(format!("ignore() after the end of <{}>: {x:?}", e.local));
        }
        self.rest(d, e)
    }

    /// `d` is at the first node of `e`
    fn drive(&mut self, d: &mut Deserializer<'_, 'a>, e: &PEl) -> Result<(), String> {
        self.elems += 1;
        let mark = self.env.scope.len();
        self.env.scope.extend(e.decls.iter().filter(|(p, _)| !p.is_empty()).cloned());
        self.rest(d, e)?;
        if self.s.chance(1, 2) {
            self.scope(d)?;
        }
        if self.elems > 1 && self.s.chance(1, 12) {
            // everything at once
            self.count += 1;
            self.ops.push_str(" deserialize");
            let got = match d.deserialize::<AnyElement<'a>>() {
                Ok(v) => v,
                Err(x) => return self.fail(format!("deserialize at <{}>: {x:?}", e.local)),
            };
            if let Some(m) = any_diff(&model::any(&e.to_el()), &support::any(&got), "") {
                return self.fail(m);
            }
            self.env.scope.truncate(mark);
            return self.ended(d, e);
        }
        let mut items: Vec<Item<'_>> = (0..e.attrs.len()).map(Item::A).collect();
        items.extend(e.kids.iter().map(|k| match k {
            PNode::T(t) => Item::T(t),
            PNode::E(e) => Item::E(e),
        }));
        let r = self.items(d, e, &items, 0);
        self.env.scope.truncate(mark);
        r
    }

    fn items(&mut self, d: &mut Deserializer<'_, 'a>, e: &PEl, items: &[Item<'_>], mut i: usize) -> Result<(), String> {
        loop {
            self.rest(d, e)?;
            if self.s.chance(1, 3) {
                self.scope(d)?;
            }
            self.count += 1;
            let early = matches!(items.get(i), Some(Item::E(_))) && !self.s.chance(1, 10);
            match self.s.below(24) {
                22 if i > 2 || self.s.chance(1, 6) => {
                    self.ops.push_str(" ignore");
                    if let Err(x) = d.ignore() {
                        return self.fail(format!("ignore() in <{}>: {x:?}", e.local));
                    }
                    return self.ended(d, e);
                }
                20 | 21 | 23 if !early => {
                    self.ops.push_str(" take_str");
                    while matches!(items.get(i), Some(Item::A(_))) {
                        i += 1;
                    }
                    let got = d.take_str();
                    match (items.get(i), got) {
                        (None, Ok(None)) => return self.ended(d, e),
                        (Some(Item::T(t)), Ok(Some(g))) if g == *t => i += 1,
                        (Some(Item::E(_)), Err(Error::ExpectedScalar(_))) => {
                            // the element is open now and nobody can close it
                            self.stop = true;
                            return Ok(());
                        }
                        (_, got) => return self.fail(format!("take_str() in <{}> at item {i}: {got:?}", e.local)),
                    }
                }
                _ => {
                    self.ops.push_str(" next");
                    let got = d.next();
                    let Some(item) = items.get(i) else {
                        if let Some(x) = got {
                            return self.fail(format!("next() at the end of <{}>: {x:?}", e.local));
                        }
                        return self.ended(d, e);
                    };
                    i += 1;
                    match (item, got) {
                        (Item::A(n), Some(Ok(Node::Attribute(a)))) => {
                            let w = &e.attrs[*n];
                            let id = match d.attribute_id(&a) {
                                Ok(id) => id,
                                Err(x) => return self.fail(format!("attribute_id in <{}>: {x:?}", e.local)),
                            };
                            if (a.prefix.unwrap_or(""), a.local, &*a.value) != (w.prefix.as_str(), w.local.as_str(), w.value.as_str())
                                || (id.ns, id.name) != (w.ns.as_str(), w.local.as_str())
                            {
                                return self.fail(format!("attribute {n} of <{}>: {a:?} in {:?}, expected {w:?}", e.local, id.ns));
                            }
                            if self.s.chance(1, 4) {
                                // read the value like a field
                                self.ops.push_str(" for_node(value)");
                                let mut one = d.for_node(Node::AttributeValue(a.value.clone()));
                                self.rest(&one, e)?;
                                match one.take_str() {
                                    Ok(Some(v)) if v == w.value => {}
                                    r => return self.fail(format!("for_node(attribute value) gave {r:?}, expected {:?}", w.value)),
                                }
                            }
                        }
                        (Item::T(t), Some(Ok(Node::Text(g)))) if g == *t => match self.s.below(5) {
                            0 => {
                                self.ops.push_str(" for_node(text)");
                                let mut one = d.for_node(Node::Text(g.clone()));
                                match one.take_str() {
                                    Ok(Some(v)) if v == *t => {}
                                    r => return self.fail(format!("for_node(text) gave {r:?}, expected {t:?}")),
                                }
                            }
                            1 => {
                                // the rest of the element from the new deserializer
                                self.ops.push_str(" for_node(text..)");
                                let mut all = d.for_node(Node::Text(g.clone()));
                                return self.items(&mut all, e, items, i - 1);
                            }
                            _ => {}
                        },
                        (Item::E(c), Some(Ok(Node::Open(el)))) => {
                            let id = match d.element_id(&el) {
                                Ok(id) => id,
                                Err(x) => return self.fail(format!("element_id of <{}>: {x:?}", c.local)),
                            };
                            if (id.ns, id.name) != (c.ns.as_str(), c.local.as_str()) {
                                return self.fail(format!("child {{{}}}{}, expected {{{}}}{}", id.ns, id.name, c.ns, c.local));
                            }
                            match self.s.below(8) {
                                0 => {
                                    self.ops.push_str(" nested.ignore");
                                    let mut n = d.nested(el);
                                    self.rest(&n, c)?;
                                    if let Err(x) = n.ignore() {
                                        return self.fail(format!("ignoring <{}>: {x:?}", c.local));
                                    }
                                    self.ended(&mut n, c)?;
                                }
                                1 => {
                                    self.ops.push_str(" for_node(open..)");
                                    let node = Node::Open(el);
                                    let mut all = d.for_node(node);
                                    match all.next() {
                                        Some(Ok(Node::Open(el))) => {
                                            self.ops.push_str(" nested{");
                                            let mut n = all.nested(el);
                                            self.drive(&mut n, c)?;
                                            self.ops.push_str(" }");
                                        }
                                        x => return self.fail(format!("for_node(open) gave {x:?}")),
                                    }
                                    if self.stop {
                                        return Ok(());
                                    }
                                    return self.items(&mut all, e, items, i);
                                }
                                _ => {
                                    self.ops.push_str(" nested{");
                                    let mut n = d.nested(el);
                                    self.drive(&mut n, c)?;
                                    self.ops.push_str(" }");
                                }
                            }
                            if self.stop {
                                return Ok(());
                            }
                        }
                        (w, got) => {
                            let w = match w {
                                Item::A(n) => format!("attribute {:?}", e.attrs[*n].local),
                                Item::T(t) => format!("text {t:?}"),
                                Item::E(c) => format!("element {:?}", c.local),
                            };
                            return self.fail(format!("next() in <{}>: {got:?}, expected {w}", e.local));
                        }
                    }
                }
            }
        }
    }
}

fn pull(doc: &str, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let p = xmlref::parse(doc).map_err(|m| format!("HARNESS ERROR: {m}: {doc}"))?;
    let mut d = Deserializer::new(doc).map_err(|e| format!("new: {e:?}\ndocument: {doc}"))?;
    if s.chance(1, 4) {
        let l = support::limits(100, 100, 100);
        d = d.with_limits(l);
    }
    let mut dr = Driver { s, env: Env { scope: Vec::new() }, doc, ops: String::new(), count: 0, elems: 0, stop: false };
    dr.drive(&mut d, &p)?;
    let (ops, count, elems) = (dr.ops, dr.count, dr.elems);
    o.nontrivial = elems >= 3 && count >= 5;
    o.runs += count as u64;
    o.key(&[doc, &ops]);
    o.sample(|| format!("{doc} consumed by{ops}"));
    Ok(())
}

fn pull_drive(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let mut e = any_tree(s);
    for _ in 0..s.idx(3) {
        let at = s.idx(e.kids.len() + 1);
        let c = any_tree(s);
        e.kids.insert(at, Nd::E(c));
    }
    let doc = render(None, &e, s, Style::FULL);
    pull(&doc, s, o)
}

/// Long chains and wide elements
fn pull_deep(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let mut e = tree(s, &mut Shape { depth: 1, nodes: 10 });
    for _ in 0..s.range(5, 28) {
        let mut p = tree(s, &mut Shape { depth: 1, nodes: 3 });
        let at = s.idx(p.kids.len() + 1);
        p.kids.insert(at, Nd::E(e));
        e = p;
    }
    let doc = render(None, &e, s, Style::FULL);
    pull(&doc, s, o)
}

/// A root type with a handwritten implementation that may leave a part of its element unread
struct Manual;

thread_local! {
    static PLAN: std::cell::RefCell<Vec<u8>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn follow(d: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    loop {
        let Some(op) = PLAN.with(|p| p.borrow_mut().pop()) else { return Ok(()) };
        if op == 0 {
            return Ok(());
        }
        match d.next() {
            None => return Ok(()),
            Some(Err(e)) => return Err(e),
            Some(Ok(Node::Open(el))) => {
                let mut nested = d.nested(el);
                match op {
                    1 | 2 => nested.ignore()?,
                    3 => drop(nested.deserialize::<AnyElement<'_>>()?),
                    _ => {
                        follow(&mut nested)?;
                        nested.ignore()?;
                    }
                }
            }
            Some(Ok(_)) => {}
        }
    }
}

impl<'xml> instant_xml::FromXml<'xml> for Manual {
    fn matches(_: instant_xml::Id<'_>, _: Option<instant_xml::Id<'_>>) -> bool {
        true
    }
    fn deserialize<'cx>(into: &mut Option<Self>, _: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        follow(d)?;
        *into = Some(Manual);
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: instant_xml::Kind = instant_xml::Kind::Element;
}

/// Whatever an implementation leaves unread, the rest of the document is still checked, and nothing else
fn pull_manual(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let e = any_tree(s);
    let mut doc = render(None, &e, s, Style::FULL);
    let kind = s.below(4);
    let valid = match kind {
        0 => {
            // cut before the end of the root element
            let end = doc.trim_end().len();
            let end = doc[..end].rfind('<').unwrap_or(0);
            let ends: Vec<usize> = (1..=end).filter(|i| doc.is_char_boundary(*i)).collect();
            if ends.is_empty() || !doc[end..].starts_with("</") {
                return Ok(());
            }
            doc.truncate(ends[s.idx(ends.len())]);
            // the last tag may have been one in a comment after the root
            xmlref::parse(&doc).is_ok()
        }
        1 => {
            doc.push_str(*s.pick(&["<x/>", "text", "</a>", "<a>", "<![CDATA[]]>", "&amp;"]));
            false
        }
        _ => true,
    };
    let plan: Vec<u8> = (0..s.small(12)).map(|_| s.below(6) as u8).collect();
    PLAN.with(|p| *p.borrow_mut() = plan.clone());
    let got = instant_xml::from_str::<Manual>(&doc);
    o.key(&[&doc, &format!("{plan:?}")]);
    o.nontrivial = doc.len() > 20;
    o.tag(["cut", "more after the root", "valid", "valid"][kind as usize]);
    o.sample(|| format!("plan {plan:?}: {doc}"));
    match (got, valid) {
        (Ok(_), true) | (Err(_), false) => Ok(()),
        (Ok(_), false) => Err(format!("a document that is not well-formed was accepted\nplan (from the end): {plan:?}\ndocument: {doc}")),
        (Err(e), true) => Err(format!("got {e:?}\nplan (from the end): {plan:?}\ndocument: {doc}")),
    }
}

/// A value with a handwritten implementation that does or does not take its text
#[derive(Debug, PartialEq)]
struct Lazy(Option<Option<String>>);

impl<'xml> instant_xml::FromXml<'xml> for Lazy {
    fn matches(id: instant_xml::Id<'_>, field: Option<instant_xml::Id<'_>>) -> bool {
        field.is_some_and(|f| f == id)
    }
    fn deserialize<'cx>(into: &mut Option<Self>, field: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        if into.is_some() {
            return Err(Error::DuplicateValue(field));
        }
        let take = PLAN.with(|p| p.borrow_mut().pop()).unwrap_or(0);
        *into = Some(Lazy(match take {
            0 => None,
            _ => Some(d.take_str()?.map(|t| t.into_owned())),
        }));
        Ok(())
    }
    type Accumulator = Option<Self>;
    const KIND: instant_xml::Kind = instant_xml::Kind::Scalar;
}

#[derive(Debug, PartialEq, FromXml)]
#[xml(rename = "u")]
struct Unread {
    #[xml(attribute)]
    a: Option<Lazy>,
    #[xml(attribute)]
    b: Option<Lazy>,
    #[xml(attribute)]
    n: Option<u8>,
    x: Option<Lazy>,
    y: Vec<Lazy>,
    z: Option<u8>,
    next: Option<Box<Unread>>,
    #[xml(direct)]
    d: Lazy,
}

/// An element for `Unread`, and what is read from it: `plan` in the order in which it is asked for
fn unread(s: &mut Src, depth: usize, plan: &mut Vec<u8>) -> (El, Unread) {
    let mut el = El::new("", "u", Cls::Foreign);
    let mut v = Unread { a: None, b: None, n: None, x: None, y: Vec::new(), z: None, next: None, d: Lazy(None) };
    let lazy = |s: &mut Src, t: &str, plan: &mut Vec<u8>| {
        let take = s.below(2) as u8;
        plan.push(take);
        Lazy((take == 1).then(|| Some(t.to_owned()).filter(|t| !t.is_empty())))
    };
    let texts = ["t", "a & b", "<", "x y", "1"];
    let mut names = vec!["a", "b", "n", "other"];
    while !names.is_empty() {
        let name = names.remove(s.idx(names.len()));
        if s.chance(1, 2) {
            continue;
        }
        let mut val = *s.pick(&texts);
        match name {
            "a" => v.a = Some(lazy(s, val, plan)),
            "b" => v.b = Some(lazy(s, val, plan)),
            "n" => {
                val = "17";
                v.n = Some(17);
            }
            _ => {}
        }
        el.attrs.push(At { ns: String::new(), name: name.into(), val: val.into() });
    }
    let mut text = false;
    for _ in 0..s.small(7) {
        let name = *s.pick(&["x", "y", "z", "u", "none", "#"]);
        match name {
            "#" if !text => {
                let t = *s.pick(&texts);
                v.d = lazy(s, t, plan);
                el.kids.push(Nd::T(t.into()));
                text = true;
            }
            "x" | "y" => {
                if name == "x" && v.x.is_some() {
                    continue;
                }
                let t = if s.chance(1, 4) { "" } else { *s.pick(&texts) };
                let mut e = El::new("", name, Cls::Foreign);
                if !t.is_empty() {
                    e.kids.push(Nd::T(t.into()));
                }
                let l = lazy(s, t, plan);
                // after the text, or without it, anything
                if s.chance(1, 3) && (l.0.is_none() || !t.is_empty()) {
                    e.kids.push(Nd::E(El::new("", "z", Cls::Foreign)));
                    e.kids.push(Nd::T("more".into()));
                }
                match name {
                    "x" => v.x = Some(l),
                    _ => v.y.push(l),
                }
                el.kids.push(Nd::E(e));
            }
            "z" if v.z.is_none() => {
                let mut e = El::new("", "z", Cls::Foreign);
                e.kids.push(Nd::T("9".into()));
                el.kids.push(Nd::E(e));
                v.z = Some(9);
            }
            "u" if depth < 3 && v.next.is_none() => {
                let (e, n) = unread(s, depth + 1, plan);
                el.kids.push(Nd::E(e));
                v.next = Some(Box::new(n));
            }
            "none" => el.kids.push(Nd::E(any_tree(s))),
            _ => {}
        }
    }
    if !text {
        // an element without text has an empty one
        let take = s.below(2) as u8;
        plan.push(take);
        v.d = Lazy((take == 1).then(|| Some(String::new())));
    }
    (el, v)
}

/// A value that leaves its text or attribute unread has no effect on what follows
fn pull_unread(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let mut plan = Vec::new();
    let (el, want) = unread(s, 0, &mut plan);
    let doc = render(None, &el, s, Style::FULL);
    PLAN.with(|p| *p.borrow_mut() = plan.iter().rev().copied().collect());
    o.key(&[&doc, &format!("{plan:?}")]);
    o.nontrivial = plan.len() > 2 && plan.contains(&0);
    o.sample(|| format!("plan {plan:?}: {doc}"));
    match instant_xml::from_str::<Unread>(&doc) {
        Ok(got) if got == want => Ok(()),
        got => Err(format!("expected {want:?}\ngot {got:?}\nplan: {plan:?}\ndocument: {doc}")),
    }
}

// ---- C13

struct Lim {
    attrs: usize,
    levels: usize,
    decls: usize,
}

struct Counted {
    doc: String,
    /// some element exceeds a limit
    over: bool,
    /// some count is at a limit or just above it
    close: bool,
    depth: usize,
}

struct Shaper<'s> {
    s: &'s mut Src,
    lim: Lim,
    root: Lim,
    out: Counted,
    budget: usize,
    /// name of elements the type knows
    known: Option<&'static str>,
    /// whether there may be too many attributes, declarations
    exceed: [bool; 2],
}

impl Shaper<'_> {
    fn around(&mut self, limit: usize, exceed: bool) -> usize {
        match self.s.below(if exceed { 12 } else { 11 }) {
            0..=5 => self.s.small(2).min(limit),
            6 | 7 => limit.saturating_sub(1),
            8..=10 => limit,
            _ => limit + 1,
        }
    }

    fn el(&mut self, depth: usize, to: usize) {
        self.budget = self.budget.saturating_sub(1);
        let root = depth == 1;
        let (la, ld) = if root { (self.root.attrs, self.root.decls) } else { (self.lim.attrs, self.lim.decls) };
        let ll = if root { self.root.levels } else { self.lim.levels };
        let (na, nd) = (self.around(la, self.exceed[0]), self.around(ld, self.exceed[1]));
        let dflt = self.s.chance(1, 4) && !root && self.known.is_none();
        for (n, l) in [(na, la), (nd, ld), (depth, ll)] {
            self.out.over |= n > l;
            self.out.close |= n == l || n == l + 1;
        }
        self.out.depth = self.out.depth.max(depth);
        let name = match (root, self.known) {
            (true, _) => "r",
            (_, Some(k)) if self.s.chance(2, 3) => k,
            _ => *self.s.pick(&["x", "y"]),
        };
        let mut items: Vec<String> = (0..na).map(|i| format!(" a{i}=\"\"")).collect();
        for i in 0..nd {
            let at = self.s.idx(items.len() + 1);
            items.insert(at, format!(" xmlns:n{i}='u{i}'"));
        }
        if dflt {
            items.push(" xmlns=\"urn:d\"".into());
        }
        self.out.doc.push('<');
        self.out.doc.push_str(name);
        self.out.doc.push_str(&items.concat());
        let deeper = depth < to;
        let kids = match (deeper, self.budget) {
            (_, 0) => deeper as usize,
            (true, _) => 1 + self.s.small(6),
            (false, _) => 0,
        };
        if kids == 0 && self.s.chance(2, 3) {
            self.out.doc.push_str(self.s.pick(&["/>", " />"]));
            return;
        }
        self.out.doc.push('>');
        let main = self.s.idx(kids.max(1));
        for k in 0..kids {
            if self.s.chance(1, 6) {
                self.out.doc.push_str(self.s.pick(&["t", "<!--c-->", "&amp;"]));
            }
            // one child goes on to the depth wanted, the others end early
            let to = if k == main { to } else { depth + 1 };
            self.el(depth + 1, to);
        }
        self.out.doc.push_str(&format!("</{name}>"));
    }
}

fn shape(s: &mut Src, lim: Lim, known: Option<&'static str>) -> Counted {
    let root = Lim { attrs: 64, levels: 32, decls: 32 };
    // deep documents would hardly ever exceed the number of levels alone
    let (exceed, deep) = *s.pick(&[([true, true], false), ([false, false], true), ([true, false], false), ([false, true], false)]);
    let to = match s.below(if deep { 12 } else { 8 }) {
        0..=3 => 1 + s.small(4),
        4 => lim.levels.max(1) - usize::from(lim.levels > 1),
        5 | 6 => lim.levels.max(1),
        _ => lim.levels + 1,
    };
    let to = match s.below(5) {
        0 => to,
        _ if deep => to,
        _ => to.min(lim.levels.max(1)),
    };
    let mut sh = Shaper { s, lim, root, out: Counted { doc: String::new(), over: false, close: false, depth: 0 }, budget: 25, known, exceed };
    sh.el(1, to);
    sh.out
}

#[derive(Debug, FromXml, PartialEq)]
#[xml(rename = "r")]
struct Anys<'a> {
    #[xml(borrow)]
    any: Vec<AnyElement<'a>>,
}

#[derive(Debug, FromXml, PartialEq)]
#[xml(rename = "x")]
struct LvIn {
    x: Vec<LvIn>,
}

#[derive(Debug, FromXml, PartialEq)]
#[xml(rename = "r")]
struct Lx {
    x: Vec<LvIn>,
}

#[derive(Debug, FromXml, PartialEq)]
#[xml(rename = "r")]
struct Tup(Option<LvIn>);

fn walk(d: &mut Deserializer<'_, '_>) -> Result<(), Error> {
    loop {
        match d.next() {
            None => return Ok(()),
            Some(Err(e)) => return Err(e),
            Some(Ok(Node::Open(el))) => walk(&mut d.nested(el))?,
            Some(Ok(_)) => {}
        }
    }
}

fn within<'a>(how: u64, doc: &'a str, l: Option<Limits>) -> Result<(), Error> {
    let mut d = Deserializer::new(doc)?;
    if let Some(l) = l {
        d = d.with_limits(l);
    }
    match how {
        0 => d.deserialize::<Nothing>().map(drop),
        1 => d.deserialize::<Unit>().map(drop),
        2 => d.deserialize::<AnyElement<'a>>().map(drop),
        3 => d.ignore(),
        4 => walk(&mut d),
        5 => d.deserialize::<Lx>().map(drop),
        6 => d.deserialize::<Anys<'a>>().map(drop),
        _ => d.deserialize::<Tup>().map(drop),
    }
}
const HOWS: [&str; 8] =
    ["struct that knows none of it", "unit struct", "AnyElement", "ignore()", "next() and nested()", "recursive struct", "list of AnyElement", "tuple struct"];

fn limit_case(s: &mut Src, o: &mut Obs, set: Option<(usize, usize, usize)>) -> Result<(), String> {
    let (a, l, n) = set.unwrap_or((64, 32, 32));
    let how = s.below(8);
    let known = (how == 5 || how == 7).then_some("x");
    let c = shape(s, Lim { attrs: a, levels: l, decls: n }, known);
    o.key(&[&format!("{set:?} {how}"), &c.doc]);
    o.sample(|| format!("{set:?}: {}", c.doc.chars().take(400).collect::<String>()));
    o.nontrivial = c.close;
    o.tag(if c.over { "over a limit" } else { "within the limits" });
    let got = within(how, &c.doc, set.map(|_| support::limits(a, l, n)));
    match (got, c.over) {
        (Ok(()), false) | (Err(_), true) => Ok(()),
        (Ok(()), true) => Err(format!("accepted by {} although a limit of {:?} is exceeded\ndocument: {}", HOWS[how as usize], (a, l, n), c.doc)),
        (Err(e), false) => Err(format!("rejected by {} within the limits {:?}: {e:?}\ndocument: {}", HOWS[how as usize], (a, l, n), c.doc)),
    }
}

fn limit_default(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    limit_case(s, o, None)
}

fn limit_set(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let one = |s: &mut Src, d: usize| match s.below(6) {
        0 => d,
        1 => d + 1 + s.idx(20),
        _ => s.idx(6),
    };
    let l = (one(s, 64), one(s, 32), one(s, 32));
    limit_case(s, o, Some(l))
}

fn plain(_: &Family, _: usize, _: &support::Entry) -> bool {
    true
}

/// Generated types, limits taken from the document itself
fn limit_typed(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, plain);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    super::read::add_foreign(&ty, &mut el, s, 2);
    let want = ty.expect(&el);
    let doc = ty.render(&el, s, Style { ns: true, ..Style::PLAIN });
    let p = xmlref::parse(&doc).map_err(|m| format!("HARNESS ERROR: {m}: {doc}"))?;
    fn max(e: &PEl, depth: usize, root: bool, out: &mut (usize, usize, usize)) {
        if !root {
            out.0 = out.0.max(e.attrs.len());
            out.2 = out.2.max(e.decls.iter().filter(|(p, _)| !p.is_empty()).count());
        }
        out.1 = out.1.max(depth);
        for c in e.elems() {
            max(c, depth + 1, false, out);
        }
    }
    let mut m = (0, 0, 0);
    max(&p, 1, true, &mut m);
    let exact = (ty.e.read_limits)(&doc, support::limits(m.0, m.1, m.2));
    o.key(&[&ty.name(), &doc]);
    o.sample(|| format!("{}: {m:?}: {doc}", ty.name()));
    o.nontrivial = m.1 > 1;
    if let Some(m2) = compare(&exact, &want, true) {
        return Err(format!("with exactly the limits needed ({m:?}): {m2}\ndocument: {doc}\n{}", ty.decls()));
    }
    for (i, l) in [(m.0.wrapping_sub(1), m.1, m.2), (m.0, m.1.wrapping_sub(1), m.2), (m.0, m.1, m.2.wrapping_sub(1))].into_iter().enumerate() {
        let which = [m.0, m.1, m.2][i];
        if which == 0 || (i == 1 && m.1 == 1) {
            continue;
        }
        o.runs += 1;
        if let Ok(v) = (ty.e.read_limits)(&doc, support::limits(l.0, l.1, l.2)) {
            return Err(format!("accepted with the limits {l:?} although {m:?} are needed: {v:?}\ndocument: {doc}\n{}", ty.decls()));
        }
    }
    Ok(())
}
