//! C19 Serializer call sequences, C21 namespace declarations in the output.
use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

use instant_xml::ser::{Context, Element, Prefix};
use instant_xml::{Error, Id, Serializer, ToXml};
use xmodel::model::{At, Cls, El, Nd};
use xmodel::render::Style;
use xmodel::schema::*;
use xmodel::src::Src;
use xmodel::xmlref::{self, PEl};

use crate::engine::{part, Check, Cx, Obs};
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C19",
            level: "exploration",
            rule: "random sequences of Serializer calls, valid and invalid ones, against a model that predicts the bytes of every call and the namespaces in scope; nontrivial: at least two elements and five calls; distinct: by calls",
            assumptions: &["the context given with a start names the namespace of the element, elements are closed innermost first"],
            parts: vec![part("calls", 120_000, calls), part("long", 4_000, calls_long)],
            known: vec![("K11", no_context)],
        },
        Check {
            id: "C21",
            level: "exploration",
            rule: "random values of generated types are written; declarations and prefixes of every element are compared with the annotations and the declarations of the ancestors; nontrivial: some prefix is declared or some element has its own xmlns; distinct: by type and document",
            assumptions: &["the independent parser in harness/xmodel/src/xmlref.rs"],
            parts: vec![part("write", 120_000, declarations), part("force", 40_000, force_read)],
            known: vec![],
        },
    ]
}

// ---- the scoping rules

/// (prefix, uri)
type Map = Vec<(String, String)>;

fn prefix_of<'m>(m: &'m Map, uri: &str) -> Option<&'m str> {
    m.iter().find(|(_, u)| u == uri).map(|(p, _)| p.as_str())
}

/// The declarations an element listing these prefixes makes, and the mappings usable for its own
/// name: a prefix is declared unless its namespace has one already, and an outer mapping is lost
/// when its prefix gets another meaning.
fn declare(outer: &Map, listed: &[(String, String)]) -> (Map, Map) {
    let mut visible = outer.clone();
    loop {
        let mut decls: Map = Vec::new();
        for (p, u) in listed {
            if p.is_empty() || prefix_of(&visible, u).is_some() || prefix_of(&decls, u).is_some() {
                continue;
            }
            decls.push((p.clone(), u.clone()));
        }
        let before = visible.len();
        visible.retain(|(p, _)| !decls.iter().any(|(q, _)| p == q));
        if visible.len() == before {
            return (decls, visible);
        }
    }
}

// ---- C19

#[derive(Clone, Default)]
struct Out(Rc<RefCell<String>>);

impl fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.borrow_mut().push_str(s);
        Ok(())
    }
}

enum Tok {
    N0(Element<'static, 0>),
    N1(Element<'static, 1>),
    N2(Element<'static, 2>),
    N3(Element<'static, 3>),
}

#[derive(Clone)]
struct Open {
    qname: String,
    /// the context around it
    default: &'static str,
    map: Map,
    /// an element in a foreign namespace started without a context has no element content
    leaf: bool,
    tree: El,
}

const URIS: [&str; 5] = ["", "urn:a", "urn:b", "urn:c", "urn:a"];
const PFX: [&str; 4] = ["p", "q", "r", "p"];
/// A declaration written without a context is not reported
fn no_context() -> bool {
    let mut out = String::new();
    let mut s = Serializer::new(&mut out);
    let started = s.write_start("a", "urn:a", None::<Context<0>>).is_ok();
    let reported = s.default_ns() == "urn:a";
    started && !reported && out == "<a xmlns=\"urn:a\""
}

const NAMES: [&str; 6] = ["a", "item", "x-1", "é", "b.c", "_"];
const TEXTS: [&str; 7] = ["", "t", " ", "é日", "a b", "0", "]"];

/// How strings are written
fn escaped(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;").replace('\r', "&#13;")
}

/// How text is written in attribute values
fn in_attr(s: &str) -> String {
    s.replace('\t', "&#9;").replace('\n', "&#10;").replace('\r', "&#13;")
}

/// A value that does things while it is being written as an attribute
struct Probe<'p> {
    out: Out,
    ops: &'p [u8],
    /// what went wrong
    wrong: RefCell<Option<String>>,
    text: RefCell<String>,
}

impl ToXml for Probe<'_> {
    fn serialize<W: fmt::Write + ?Sized>(&self, field: Option<Id<'_>>, s: &mut Serializer<'_, W>) -> Result<(), Error> {
        let fail = |m: String| *self.wrong.borrow_mut() = Some(m);
        if field.is_some() {
            fail(format!("the value of an attribute is written with the field {field:?}"));
        }
        for op in self.ops {
            let before = self.out.0.borrow().len();
            let (name, r) = match op {
                0 => ("write_start", s.write_start("x", "", None::<Context<0>>).map(drop)),
                1 => ("write_start(cx)", s.write_start("x", "urn:q", Some(context::<2>("urn:q", &[("zz".into(), "urn:zz")], false))).map(drop)),
                2 => ("write_attr", s.write_attr("x", "", "v")),
                3 => ("end_start", s.end_start()),
                4 => ("end_empty", s.end_empty()),
                5 => ("write_close", s.write_close(dummy())),
                6 => {
                    if let Err(e) = s.write_str("v1\n\r\t\n") {
                        fail(format!("write_str in an attribute value: {e:?}"));
                    }
                    self.text.borrow_mut().push_str("v1&#10;&#13;&#9;&#10;");
                    continue;
                }
                _ => {
                    if let Err(e) = "w<".serialize(None, s) {
                        fail(format!("a string in an attribute value: {e:?}"));
                    }
                    self.text.borrow_mut().push_str("w&lt;");
                    continue;
                }
            };
            match r {
                Err(Error::UnexpectedState(_)) => {}
                r => fail(format!("{name} in an attribute value: {r:?}")),
            }
            if self.out.0.borrow().len() != before {
                fail(format!("{name} in an attribute value wrote {:?}", &self.out.0.borrow()[before..]));
            }
        }
        Ok(())
    }
}

fn dummy() -> Element<'static, 1> {
    let mut x = String::new();
    let mut s = Serializer::new(&mut x);
    s.write_start("dummy", "urn:d", Some(context::<1>("urn:d", &[("d".into(), "urn:dd")], false))).unwrap()
}

fn intern(p: &str) -> &'static str {
    PFX.iter().chain(&URIS).chain(&["zz", "d"]).find(|x| **x == p).copied().unwrap_or("")
}

fn context<const N: usize>(ns: &'static str, listed: &[(String, &'static str)], force: bool) -> Context<N> {
    let mut cx = Context::<N>::default();
    cx.default_ns = ns;
    // the default is not to force prefixes
    if force {
        cx.force_prefix = true;
    }
    for (i, (p, u)) in listed.iter().enumerate() {
        cx.prefixes[i] = Prefix { prefix: intern(p), ns: u };
    }
    cx
}

struct Run<'s, 'x> {
    s: &'s mut Src,
    out: Out,
    ser: Serializer<'x, Out>,
    stack: Vec<(Open, Tok)>,
    /// in a start tag
    tag: bool,
    default: &'static str,
    map: Map,
    /// namespace that attributes of the open tag may have without a prefix
    attr_ns: &'static str,
    /// names of the attributes of the open tag
    used: Vec<String>,
    top: El,
    log: Vec<String>,
    elems: usize,
    /// the leaf was started without a context, so the context around it is reported
    want: String,
}

impl Run<'_, '_> {
    fn fail<T>(&self, m: String) -> Result<T, String> {
        Err(format!("{m}\ncalls: {}\noutput: {}", self.log.join("; "), self.out.0.borrow()))
    }

    fn tree(&mut self) -> &mut El {
        match self.stack.last_mut() {
            Some((o, _)) => &mut o.tree,
            None => &mut self.top,
        }
    }

    /// The call must write exactly this
    fn wrote(&mut self, what: &str) -> Result<(), String> {
        self.want.push_str(what);
        if *self.out.0.borrow() != self.want {
            let w = self.want.clone();
            return self.fail(format!("expected the output {w}"));
        }
        self.scope()
    }

    fn valid(&mut self, r: Result<(), Error>, what: &str) -> Result<(), String> {
        match r {
            Ok(()) => self.wrote(what),
            Err(e) => self.fail(format!("a valid call failed: {e:?}")),
        }
    }

    fn invalid(&mut self, r: Result<(), Error>) -> Result<(), String> {
        match r {
            Err(Error::UnexpectedState(_)) => self.wrote(""),
            r => self.fail(format!("an invalid call returned {r:?}")),
        }
    }

    fn scope(&mut self) -> Result<(), String> {
        let leaf = self.stack.last().is_some_and(|(o, _)| o.leaf);
        if !leaf && self.ser.default_ns() != self.default {
            return self.fail(format!("default_ns() is {:?}, expected {:?}", self.ser.default_ns(), self.default));
        }
        for u in ["urn:a", "urn:b", "urn:c", "urn:none"] {
            if self.ser.prefix(u) != prefix_of(&self.map, u) {
                return self.fail(format!("prefix({u:?}) is {:?}, expected {:?}", self.ser.prefix(u), prefix_of(&self.map, u)));
            }
        }
        Ok(())
    }

    fn start(&mut self) -> Result<(), String> {
        let name = *self.s.pick(&NAMES);
        let ns = *self.s.pick(&URIS);
        let n = self.s.below(5) as usize;
        let force = n < 4 && self.s.chance(1, 3);
        let mut listed: Vec<(String, &'static str)> = Vec::new();
        if n < 4 {
            for _ in 0..n {
                let p = (*self.s.pick(&PFX)).to_owned();
                let u = *self.s.pick(&["urn:a", "urn:b", "urn:c"]);
                if self.s.chance(1, 8) {
                    listed.push((String::new(), ""));
                } else if !listed.iter().any(|(q, _)| *q == p) {
                    listed.push((p, u));
                }
            }
        }
        let cx = n < 4;
        self.log.push(format!("write_start({name}, {ns:?}, {})", if cx { format!("{listed:?} force={force}") } else { "None".into() }));
        let dflt = ns; // the context is that of the element
        let bad = self.tag;
        let r = match n {
            0 => self.ser.write_start(name, ns, Some(context::<0>(dflt, &[], force))).map(Tok::N0),
            1 => self.ser.write_start(name, ns, Some(context::<1>(dflt, &listed, force))).map(Tok::N1),
            2 => self.ser.write_start(name, ns, Some(context::<2>(dflt, &listed, force))).map(Tok::N2),
            3 => self.ser.write_start(name, ns, Some(context::<3>(dflt, &listed, force))).map(Tok::N3),
            _ => self.ser.write_start(name, ns, None::<Context<0>>).map(Tok::N0),
        };
        let tok = match (r, bad) {
            (r, true) => return self.invalid(r.map(drop)),
            (Ok(t), false) => t,
            (Err(e), false) => return self.fail(format!("a valid call failed: {e:?}")),
        };
        self.elems += 1;
        let lst: Vec<(String, String)> = listed.iter().map(|(p, u)| (p.clone(), u.to_string())).collect();
        let (decls, visible) = declare(&self.map, &lst);
        let prefix = prefix_of(&visible, ns).map(str::to_owned);
        let mut text = String::new();
        let mut qname = name.to_owned();
        let mut open = Open { qname: String::new(), default: self.default, map: self.map.clone(), leaf: false, tree: El::new(ns, name, Cls::Foreign) };
        let same = ns == self.default;
        match (same, prefix, force) {
            (false, Some(p), _) | (true, Some(p), true) => {
                qname = format!("{p}:{name}");
                text.push_str(&format!("<{qname}"));
                if !force && cx {
                    text.push_str(&format!(" xmlns=\"{ns}\""));
                    self.default = ns;
                }
            }
            (true, None, _) => text.push_str(&format!("<{name}")),
            (true, Some(_), false) => {
                text.push_str(&format!("<{name}"));
                if cx {
                    text.push_str(&format!(" xmlns=\"{ns}\""));
                }
            }
            (false, None, _) => {
                text.push_str(&format!("<{name} xmlns=\"{ns}\""));
                match cx {
                    true => self.default = ns,
                    false => open.leaf = true,
                }
            }
        }
        for (p, u) in &decls {
            text.push_str(&format!(" xmlns:{p}=\"{u}\""));
        }
        self.attr_ns = if cx { ns } else { self.default };
        self.map = visible;
        self.map.extend(decls);
        open.qname = qname;
        self.stack.push((open, tok));
        self.used.clear();
        self.tag = true;
        self.wrote(&text)
    }

    fn attr(&mut self) -> Result<(), String> {
        let ns = *self.s.pick(&["", "", "urn:a", "urn:b", "urn:c"]);
        let name = format!("{}{}", self.s.pick(&NAMES), self.used.len());
        let val = *self.s.pick(&["", "v", "a<b>&\"'", "é", "]]>", "x\ty\n", "\r\n<", "\u{85}\u{2028} "]);
        let probe = self.s.chance(1, 5);
        let ops: Vec<u8> = if probe { (0..self.s.small(6)).map(|_| self.s.below(8) as u8).collect() } else { vec![] };
        self.log.push(format!("write_attr({name}, {ns:?}, {val:?}{})", if probe { format!(" probe {ops:?}") } else { String::new() }));
        let prefix = prefix_of(&self.map, ns).map(str::to_owned).filter(|_| !ns.is_empty());
        let bad = !self.tag || (!ns.is_empty() && prefix.is_none() && ns != self.attr_ns);
        let (r, text) = match probe {
            false => (
                self.ser.write_attr(&name, ns, val),
                in_attr(&escaped(val)),
            ),
            true => {
                let p = Probe { out: self.out.clone(), ops: &ops, wrong: RefCell::new(None), text: RefCell::new(String::new()) };
                let r = self.ser.write_attr(&name, ns, &p);
                if let Some(m) = p.wrong.borrow().as_ref() {
                    return self.fail(m.clone());
                }
                let text = p.text.borrow().clone();
                (r, text)
            }
        };
        if bad {
            return self.invalid(r);
        }
        let q = match &prefix {
            Some(p) => format!("{p}:{name}"),
            None => name.clone(),
        };
        let ns = if prefix.is_some() { ns } else { "" };
        let value = xmlref::unescape(&text).map_err(|m| format!("HARNESS ERROR: {m}"))?;
        self.used.push(name.clone());
        self.tree().attrs.push(At { ns: ns.into(), name, val: value });
        self.valid(r, &format!(" {q}=\"{text}\""))
    }

    fn step(&mut self) -> Result<(), String> {
        let leaf = self.stack.last().is_some_and(|(o, _)| o.leaf);
        let weights: [u64; 7] = match (self.tag, leaf, self.stack.len()) {
            // start attr str end_start end_empty close text
            (true, ..) => [1, 8, 1, 8, 3, 1, 0],
            (false, true, _) => [0, 1, 5, 1, 1, 6, 2],
            (false, _, 0) => [8, 1, 1, 1, 1, 0, 1],
            (false, _, n) if n > 8 => [2, 1, 4, 1, 1, 8, 2],
            _ => [8, 1, 3, 1, 1, 6, 2],
        };
        match self.s.weighted(&weights) {
            0 => self.start(),
            1 => self.attr(),
            2 => {
                let t = *self.s.pick(&TEXTS);
                self.log.push(format!("write_str({t:?})"));
                let n = t.len();
                let r = match self.s.below(3) {
                    0 => self.ser.write_str(&n),
                    1 => self.ser.write_str(&format_args!("{t}{t}")),
                    _ => self.ser.write_str(t),
                };
                if self.tag {
                    return self.invalid(r);
                }
                // the choice that was made is in the output
                let new = self.out.0.borrow()[self.want.len()..].to_owned();
                if new != n.to_string() && new != format!("{t}{t}") && new != t {
                    return self.fail(format!("write_str({t:?}) wrote {new:?}"));
                }
                self.tree().kids.push(Nd::T(new.clone()));
                self.valid(r, &new)
            }
            6 => {
                let t = *self.s.pick(&["a<b", "&", "\"'>", "x\ty\n", "\r\n<\r"]);
                self.log.push(format!("{t:?}.serialize(None)"));
                let r = t.serialize(None, &mut self.ser);
                if self.tag {
                    return self.invalid(r);
                }
                self.tree().kids.push(Nd::T(t.into()));
                self.valid(r, &escaped(t))
            }
            3 => {
                self.log.push("end_start".into());
                let r = self.ser.end_start();
                if !self.tag {
                    return self.invalid(r);
                }
                self.tag = false;
                self.valid(r, ">")
            }
            4 => {
                self.log.push("end_empty".into());
                let r = self.ser.end_empty();
                if !self.tag {
                    return self.invalid(r);
                }
                self.tag = false;
                let (o, _) = self.stack.pop().unwrap();
                self.restore(o);
                self.valid(r, " />")
            }
            _ => {
                self.log.push("write_close".into());
                if self.tag {
                    let r = self.ser.write_close(dummy());
                    return self.invalid(r);
                }
                self.close()
            }
        }
    }

    fn restore(&mut self, o: Open) {
        self.default = o.default;
        self.map = o.map;
        self.tree().kids.push(Nd::E(o.tree));
    }

    fn close(&mut self) -> Result<(), String> {
        let (o, tok) = self.stack.pop().unwrap();
        let r = match tok {
            Tok::N0(t) => self.ser.write_close(t),
            Tok::N1(t) => self.ser.write_close(t),
            Tok::N2(t) => self.ser.write_close(t),
            Tok::N3(t) => self.ser.write_close(t),
        };
        let q = o.qname.clone();
        self.restore(o);
        self.valid(r, &format!("</{q}>"))
    }
}

fn run(s: &mut Src, o: &mut Obs, n: usize) -> Result<(), String> {
    let out = Out::default();
    let mut w = out.clone();
    let mut r = Run {
        s,
        out: out.clone(),
        ser: Serializer::new(&mut w),
        stack: Vec::new(),
        tag: false,
        default: "",
        map: Vec::new(),
        attr_ns: "",
        used: Vec::new(),
        top: El::new("", "top", Cls::Foreign),
        log: Vec::new(),
        elems: 0,
        want: String::new(),
    };
    for _ in 0..n {
        r.step()?;
    }
    // finish everything
    if r.tag {
        r.log.push("end_start".into());
        let e = r.ser.end_start();
        r.tag = false;
        r.valid(e, ">")?;
    }
    while !r.stack.is_empty() {
        r.log.push("write_close".into());
        r.close()?;
    }
    o.key(&[&r.log.join(";")]);
    o.sample(|| r.log.join("; "));
    o.nontrivial = r.elems >= 2 && n >= 5;
    o.runs += r.log.len() as u64;
    if r.ser.default_ns() != "" {
        return r.fail("default_ns() is not empty at the end".into());
    }
    // an independent view of the whole
    r.top.normalise();
    let doc = format!("<top>{}</top>", out.0.borrow());
    match xmlref::parse_output(&doc) {
        Err(m) => r.fail(format!("the output is not well-formed: {m}")),
        Ok(p) => match xmlref::diff(&r.top, &p.to_el(), "") {
            Some(d) => r.fail(d),
            None => Ok(()),
        },
    }
}

fn calls(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = 4 + s.idx(26);
    run(s, o, n)
}

fn calls_long(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = 50 + s.idx(300);
    run(s, o, n)
}

// ---- C21

struct Walk<'a> {
    f: &'a Family,
    prefixed: bool,
    own: bool,
    /// Whether force_prefix applies to an element of the default namespace, and to others
    forced: (bool, bool),
}

impl Walk<'_> {
    fn walk(&mut self, e: &PEl, m: &El, outer: &Map, outer_default: &str) -> Result<(), String> {
        let here = |t: &str| format!("<{}>: {t}", if e.prefix.is_empty() { e.local.clone() } else { format!("{}:{}", e.prefix, e.local) });
        let decls: Map = e.decls.iter().filter(|(p, _)| !p.is_empty()).cloned().collect();
        let own = e.decls.iter().find(|(p, _)| p.is_empty()).map(|(_, u)| u.as_str());
        let (mut listed, force): (Vec<(String, String)>, bool) = match m.cls {
            Cls::Type(t) => {
                let d = &self.f.types[t];
                (d.prefixes.iter().map(|(p, u)| (p.clone(), self.f.uris[*u].clone())).collect(), d.force_prefix)
            }
            _ => (vec![], false),
        };
        // of several prefixes listed for one namespace any will do
        listed.sort_by_key(|l| !decls.contains(l));
        let (mut want, visible) = declare(outer, &listed);
        let mut got = decls.clone();
        want.sort();
        got.sort();
        if want != got {
            return Err(here(&format!("expected the prefix declarations {want:?}, found {got:?}; in scope {outer:?}")));
        }
        self.prefixed |= !got.is_empty();
        self.own |= own.is_some();
        let bound = prefix_of(&visible, &m.ns);
        let is_type = matches!(m.cls, Cls::Type(_));
        match (bound, m.ns == outer_default) {
            (Some(p), same) if force => {
                self.forced.0 |= same;
                self.forced.1 |= !same;
                if e.prefix != p {
                    return Err(here(&format!("force_prefix, and {p} is declared for {:?}", m.ns)));
                }
            }
            (Some(p), false) => {
                if e.prefix != p {
                    return Err(here(&format!("{p} is declared for {:?} but not used", m.ns)));
                }
                if own.is_some() && !is_type {
                    return Err(here("a field with a declared prefix has its own xmlns"));
                }
            }
            (Some(_), true) => {}
            (None, true) => {
                if !e.prefix.is_empty() || own.is_some() {
                    return Err(here("the default namespace is right already, but the element has a prefix or an xmlns"));
                }
            }
            (None, false) => {
                if !e.prefix.is_empty() || own != Some(m.ns.as_str()) {
                    return Err(here(&format!("expected its own xmlns={:?}", m.ns)));
                }
            }
        }
        let mut map = visible;
        map.extend(decls);
        let default = own.unwrap_or(outer_default);
        for (c, mc) in e.elems().zip(m.elems()) {
            self.walk(c, mc, &map, default)?;
        }
        Ok(())
    }
}

fn declarations(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, writable);
    let v = ty.val(s);
    let el = ty.el(&v);
    let doc = ty.write(&v).map_err(|e| format!("writing failed: {e:?}\nvalue: {v:?}\n{}", ty.decls()))?;
    o.key(&[&ty.name(), &doc]);
    o.sample(|| format!("{}: {doc}", ty.name()));
    o.tag(&format!("theme {}", ty.f.theme));
    let p = xmlref::parse_output(&doc).map_err(|m| format!("not well-formed: {m}\ndocument: {doc}\n{}", ty.decls()))?;
    // the tree itself is the business of C02
    if p.to_el() != el && xmlref::diff(&el, &p.to_el(), "").is_some() {
        return Err(format!("not the tree of the value\ndocument: {doc}\n{}", ty.decls()));
    }
    let mut w = Walk { f: ty.f, prefixed: false, own: false, forced: (false, false) };
    w.walk(&p, &el, &Vec::new(), "").map_err(|m| format!("{m}\ndocument: {doc}\n{}", ty.decls()))?;
    o.nontrivial = w.prefixed || w.own;
    if w.forced.0 {
        o.tag("force_prefix, default namespace");
    }
    if w.forced.1 {
        o.tag("force_prefix, another namespace");
    }
    Ok(())
}

fn forced(f: &Family, t: usize, _: &support::Entry) -> bool {
    f.types[t].force_prefix
}

/// The option has no effect on reading
fn force_read(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    if !cx.entries.iter().any(|e| forced(&cx.fams[e.fam], e.ty, e)) {
        return Ok(());
    }
    let ty = pick(cx, s, forced);
    let v = ty.val(s);
    let el = ty.el(&v);
    let want = ty.expect(&el);
    let doc = ty.render(&el, s, Style { ns: true, ..Style::PLAIN });
    o.key(&[&ty.name(), &doc]);
    o.nontrivial = doc.contains("xmlns");
    ty.read_as(&doc, &want, true)
}
