//! C22 serialize_with, deserialize_with, display_to_xml, from_xml_str.
use std::cell::RefCell;
use std::fmt;
use std::str::FromStr;

use instant_xml::de::Node;
use instant_xml::ser::Context;
use instant_xml::{display_to_xml, from_str, to_string, Deserializer, Error, FromXml, Id, OptionAccumulator, Serializer, ToXml};
use xmodel::gen;
use xmodel::model::{At, Cls, El, Nd};
use xmodel::render::{render, Style};
use xmodel::schema::*;
use xmodel::src::Src;
use xmodel::xmlref;

use crate::engine::{part, Check, Cx, Obs};
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C22",
        level: "exploration",
        rule: "generated types with conversion hooks are written, read and read with parts removed or repeated; handwritten types with hooks that log what they see and follow a random plan (read all, some or nothing, keep, fail) are compared with a model; nontrivial: a hook is called; distinct: by type, plan and document",
        assumptions: &["the reference model in harness/xmodel", "deserialize_with gets the accumulator of the type of the field"],
        parts: vec![
            part("round trip", 15_000, round_trip),
            part("tree", 15_000, tree),
            part("remove", 15_000, remove),
            part("repeat", 15_000, repeat),
            part("conversions", 30_000, conversions),
            part("plan read", 60_000, plan_read),
            part("plan write", 60_000, plan_write),
        ],
        known: vec![("K10", attribute_hook)],
    }]
}

#[derive(ToXml)]
#[xml(rename = "r")]
struct AttrHook {
    #[xml(attribute, serialize_with = "starred")]
    v: u8,
}

fn starred<W: fmt::Write + ?Sized>(v: &u8, serializer: &mut Serializer<'_, W>) -> Result<(), Error> {
    serializer.write_str(&format_args!("*{v}"))
}

/// serialize_with on an attribute is not called
fn attribute_hook() -> bool {
    let r = to_string(&AttrHook { v: 1 });
    // the function is used
    let _ = starred::<String>;
    !matches!(r.as_deref(), Ok("<r v=\"*1\" />"))
}

fn hooked(o: &mut Obs, cx: &Cx, f: fn(&Cx, &mut Src, &mut Obs) -> Result<(), String>, s: &mut Src) -> Result<(), String> {
    f(cx, s, o)
}

fn round_trip(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    hooked(o, cx, super::write::round_trip, s)
}
fn tree(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    hooked(o, cx, super::write::tree, s)
}
fn remove(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    hooked(o, cx, super::read::remove, s)
}
fn repeat(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    hooked(o, cx, super::read::repeat, s)
}

// ---- plans

#[derive(Clone, Debug, PartialEq)]
enum Plan {
    /// take the text
    Take,
    /// read everything there is
    Drain,
    /// read this many nodes
    Part(usize),
    /// take the text, leave no value
    Unset,
    /// the implementation of the type
    Own,
    Fail(usize, Error),
}

#[derive(Clone, Debug, PartialEq)]
enum Out {
    Nothing,
    Text(String),
    Shown(String),
    Own,
    Tree(String, Option<String>, bool),
    Fail(Error),
    LateFail(Error),
}

#[derive(Default)]
struct State {
    plans: Vec<Plan>,
    outs: Vec<Out>,
    log: Vec<(&'static str, String)>,
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State::default());
}

fn reset(plans: Vec<Plan>, outs: Vec<Out>) {
    STATE.with(|s| *s.borrow_mut() = State { plans, outs, log: Vec::new() });
}

fn log(hook: &'static str, what: String) {
    STATE.with(|s| s.borrow_mut().log.push((hook, what)));
}

fn logged() -> Vec<(&'static str, String)> {
    STATE.with(|s| s.borrow().log.clone())
}

fn next_plan() -> Plan {
    STATE.with(|s| {
        let s = s.borrow();
        s.plans[s.log.len() % s.plans.len()].clone()
    })
}

fn next_out() -> Out {
    STATE.with(|s| {
        let s = s.borrow();
        s.outs[s.log.len() % s.outs.len()].clone()
    })
}

// ---- what a hook sees, canonically

fn esc(t: &str) -> String {
    format!("{t:?}")
}

/// One node, elements with all they contain
fn see<'xml>(d: &mut Deserializer<'_, 'xml>) -> Result<Option<String>, Error> {
    Ok(Some(match d.next() {
        None => return Ok(None),
        Some(Err(e)) => return Err(e),
        Some(Ok(Node::Attribute(a))) => {
            let id = d.attribute_id(&a)?;
            format!("@{{{}}}{}={}", id.ns, id.name, esc(&a.value))
        }
        Some(Ok(Node::AttributeValue(v))) => esc(&v),
        Some(Ok(Node::Text(t))) => esc(&t),
        Some(Ok(Node::Close { .. })) => "close".into(),
        Some(Ok(Node::Open(e))) => {
            let id = d.element_id(&e)?;
            let mut n = d.nested(e);
            let mut out = format!("<{{{}}}{}", id.ns, id.name);
            while let Some(t) = see(&mut n)? {
                out.push(' ');
                out.push_str(&t);
            }
            out.push('>');
            out
        }
    }))
}

fn seen(e: &El) -> Vec<String> {
    let mut out: Vec<String> = e.attrs.iter().map(|a| format!("@{{{}}}{}={}", a.ns, a.name, esc(&a.val))).collect();
    for k in &e.kids {
        out.push(match k {
            Nd::T(t) => esc(t),
            Nd::E(c) => {
                let mut t = format!("<{{{}}}{}", c.ns, c.name);
                for p in seen(c) {
                    t.push(' ');
                    t.push_str(&p);
                }
                t.push('>');
                t
            }
        });
    }
    out
}

/// Follows the plan. Ok(None): leave the accumulator alone
fn act(hook: &'static str, had: bool, d: &mut Deserializer<'_, '_>) -> Result<Option<String>, Error> {
    let plan = next_plan();
    // the entry is made first: a failing read still counts as a call
    log(hook, format!("{had}"));
    let take = |d: &mut Deserializer<'_, '_>| -> Result<String, Error> { Ok(d.take_str()?.map(|c| c.into_owned()).unwrap_or_default()) };
    let some = |d: &mut Deserializer<'_, '_>, n: usize| -> Result<String, Error> {
        let mut parts = Vec::new();
        while parts.len() < n {
            match see(d)? {
                Some(p) => parts.push(p),
                None => break,
            }
        }
        Ok(parts.join(" "))
    };
    match plan {
        Plan::Take | Plan::Own => Ok(Some(take(d)?)),
        Plan::Drain => Ok(Some(some(d, usize::MAX)?)),
        Plan::Part(n) => Ok(Some(some(d, n)?)),
        Plan::Unset => {
            take(d)?;
            Ok(None)
        }
        Plan::Fail(n, e) => {
            some(d, n)?;
            Err(e)
        }
    }
}

/// The same in the model. Err(None): some error
fn expect(plan: &Plan, content: &[String], texts: &[Option<String>]) -> Result<Option<String>, Option<Error>> {
    // what take_str makes of the content: the first text, skipping attributes
    let take = || match texts.iter().find(|t| !matches!(t, Some(t) if t == ATTR)) {
        None => Ok(String::new()),
        Some(Some(t)) => Ok(t.clone()),
        Some(None) => Err(None),
    };
    match plan {
        Plan::Take | Plan::Own => take().map(Some),
        Plan::Drain => Ok(Some(content.join(" "))),
        Plan::Part(n) => Ok(Some(content[..content.len().min(*n)].join(" "))),
        Plan::Unset => take().map(|_| None),
        Plan::Fail(_, e) => Err(Some(e.clone())),
    }
}

/// Marks an attribute in the list of texts
const ATTR: &str = "\u{0}";

fn texts(e: &El) -> Vec<Option<String>> {
    let mut out: Vec<Option<String>> = e.attrs.iter().map(|_| Some(ATTR.to_owned())).collect();
    out.extend(e.kids.iter().map(|k| match k {
        Nd::T(t) => Some(t.clone()),
        Nd::E(_) => None,
    }));
    out
}

macro_rules! read_hook {
    ($($name:ident $acc:ty => $into:ident, $had:expr, $v:ident, $set:expr;)*) => {$(
        fn $name($into: &mut $acc, _: &'static str, d: &mut Deserializer<'_, '_>) -> Result<(), Error> {
            let had = $had;
            if let Some($v) = act(stringify!($name), had, d)? {
                $set;
            }
            Ok(())
        }
    )*};
}
read_hook! {
    ra Option<String> => into, into.is_some(), v, *into = Some(v);
    rc Option<String> => into, into.is_some(), v, *into = Some(v);
    rd Vec<String> => into, !into.is_empty(), v, into.push(v);
    re OptionAccumulator<String, Option<String>> => into, into.get_mut().is_some(), v, *into.get_mut() = Some(v);
    ri Option<String> => into, into.is_some(), v, *into = Some(v);
    rb Option<Box<String>> => into, into.is_some(), v, *into = Some(Box::new(v));
    rn Option<u32> => into, into.is_some(), v, *into = Some(v.chars().count() as u32);
    rq Option<Q> => into, into.is_some(), v, *into = Some(Q { t: v });
}

fn put<W: fmt::Write + ?Sized>(hook: &'static str, v: &str, own: Id<'_>, s: &mut Serializer<'_, W>) -> Result<(), Error> {
    let out = next_out();
    log(hook, v.to_owned());
    match out {
        Out::Nothing => Ok(()),
        Out::Text(t) => s.write_str(&t),
        Out::Shown(t) => display_to_xml(&t, Some(own), s),
        Out::Own => v.serialize(Some(own), s),
        Out::Tree(name, attr, text) => {
            let ns = s.default_ns();
            let e = s.write_start(&name, ns, None::<Context<0>>)?;
            if let Some(a) = &attr {
                s.write_attr("k", "", a)?;
            }
            if !text {
                return s.end_empty();
            }
            s.end_start()?;
            v.serialize(None, s)?;
            display_to_xml(&7, Some(Id { ns, name: "in" }), s)?;
            s.write_close(e)
        }
        Out::Fail(e) => Err(e),
        Out::LateFail(e) => {
            s.write_str("x")?;
            Err(e)
        }
    }
}

/// The same in the model: the nodes it adds
fn placed(out: &Out, v: &str, own: (&str, &str), ns: &str) -> Result<Vec<Nd>, Error> {
    let scalar = |t: &str| {
        let mut e = El::new(own.0, own.1, Cls::Foreign);
        e.kids.push(Nd::T(t.to_owned()));
        e.normalise();
        vec![Nd::E(e)]
    };
    Ok(match out {
        Out::Nothing => vec![],
        Out::Text(t) => vec![Nd::T(t.clone())],
        Out::Shown(t) => scalar(t),
        Out::Own => scalar(v),
        Out::Tree(name, attr, text) => {
            let mut e = El::new(ns, name, Cls::Foreign);
            if let Some(a) = attr {
                e.attrs.push(At { ns: String::new(), name: "k".into(), val: a.clone() });
            }
            if *text {
                let mut seven = El::new(ns, "in", Cls::Foreign);
                seven.kids.push(Nd::T("7".into()));
                e.kids = vec![Nd::T(v.to_owned()), Nd::E(seven)];
            }
            e.normalise();
            vec![Nd::E(e)]
        }
        Out::Fail(e) | Out::LateFail(e) => return Err(e.clone()),
    })
}

const H: &str = "urn:h";
const D: &str = "urn:d";
const P: &str = "urn:p";

macro_rules! write_hook {
    ($($name:ident $t:ty, $id:expr, $v:ident => $s:expr;)*) => {$(
        fn $name<W: fmt::Write + ?Sized>($v: &$t, s: &mut Serializer<'_, W>) -> Result<(), Error> {
            let text: String = $s;
            let (ns, name) = $id;
            put(stringify!($name), &text, Id { ns, name }, s)
        }
    )*};
}
write_hook! {
    wc String, (H, "c"), v => v.clone();
    wd Vec<String>, (D, "dd"), v => v.concat();
    we Option<String>, (H, "e"), v => v.clone().unwrap_or_default();
    wi String, (P, "i"), v => v.clone();
    wb Box<String>, (H, "b"), v => (**v).clone();
    wn u32, (H, "n"), v => v.to_string();
    wq Q, (H, "q"), v => v.t.clone();
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(ns(H, p = P), rename = "outer")]
struct Outer {
    #[xml(attribute, deserialize_with = "ra")]
    a: String,
    #[xml(attribute)]
    z: Option<String>,
    x: Vec<String>,
    #[xml(deserialize_with = "rc", serialize_with = "wc")]
    c: String,
    #[xml(rename = "dd", ns(D), deserialize_with = "rd", serialize_with = "wd")]
    d: Vec<String>,
    y: Option<Inner>,
    #[xml(deserialize_with = "re", serialize_with = "we")]
    e: Option<String>,
    #[xml(deserialize_with = "rb", serialize_with = "wb")]
    b: Box<String>,
    inl: Inl,
    #[xml(deserialize_with = "rn", serialize_with = "wn")]
    n: u32,
    w: Vec<Wide>,
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(ns(P), rename = "inner")]
struct Inner {
    #[xml(deserialize_with = "ri", serialize_with = "wi")]
    i: String,
    j: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(transparent)]
struct Inl {
    o: Option<O>,
    #[xml(deserialize_with = "rq", serialize_with = "wq")]
    q: Q,
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(ns(H), rename = "o")]
struct O {
    #[xml(direct)]
    t: String,
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(ns(H), rename = "q")]
struct Q {
    #[xml(direct)]
    t: String,
}

/// A hook in a list item next to direct text
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(ns(H), rename = "wide")]
struct Wide {
    #[xml(deserialize_with = "ri", serialize_with = "wv")]
    i: String,
    #[xml(direct)]
    t: String,
}

write_hook! {
    wv String, (H, "i"), v => v.clone();
}

// ---- reading

fn planned_error(s: &mut Src) -> Error {
    match s.below(9) {
        0 | 1 => Error::Other(format!("planned {}", s.below(100))),
        2 => Error::UnexpectedValue("planned".into()),
        3 => Error::MissingValue("planned"),
        4 => Error::DuplicateValue("planned"),
        5 => Error::UnexpectedState("planned"),
        6 => Error::UnknownPrefix("planned".into()),
        7 => Error::ExpectedScalar("planned".into()),
        _ => Error::MissingTag,
    }
}

fn plan(s: &mut Src) -> Plan {
    match s.below(12) {
        0..=2 => Plan::Take,
        3..=5 => Plan::Drain,
        6 | 7 => Plan::Part(s.idx(4)),
        8 => Plan::Unset,
        9 | 10 => Plan::Own,
        _ => Plan::Fail(s.idx(3), planned_error(s)),
    }
}

fn leaf(s: &mut Src, ns: &str, name: &str, free: bool) -> El {
    let mut e = El::new(ns, name, Cls::Scalar);
    if s.chance(1, 4) {
        for i in 0..s.small(2) {
            e.attrs.push(At { ns: (*s.pick(&["", "", H, "urn:zz"])).into(), name: format!("t{i}"), val: gen::text(s) });
        }
    }
    match s.below(if free { 5 } else { 3 }) {
        0 | 1 => e.kids.push(Nd::T(gen::text(s))),
        2 => {}
        _ => {
            for _ in 0..s.small(4) {
                match s.below(2) {
                    0 => e.kids.push(Nd::T(gen::text(s))),
                    // with the names of siblings in it, too
                    _ => {
                        let (ns, name) = *s.pick(&[(H, "c"), (D, "dd"), (H, "x"), (H, "e"), ("", "c"), (H, "n")]);
                        let mut k = leaf(s, ns, name, false);
                        if s.chance(1, 3) {
                            k.kids.push(Nd::E(leaf(s, H, "c", false)));
                        }
                        e.kids.push(Nd::E(k));
                    }
                }
            }
        }
    }
    e.normalise();
    e
}

/// A document for Outer: the calls of hooks and the value that follow from it
fn outer_doc(s: &mut Src) -> El {
    let mut root = El::new(H, "outer", Cls::Foreign);
    if !s.chance(1, 15) {
        root.attrs.push(At { ns: String::new(), name: "a".into(), val: gen::text(s) });
    }
    if s.chance(1, 2) {
        let at = s.idx(root.attrs.len() + 1);
        root.attrs.insert(at, At { ns: String::new(), name: "z".into(), val: gen::text(s) });
    }
    if s.chance(1, 4) {
        let at = s.idx(root.attrs.len() + 1);
        let (ns, name) = *s.pick(&[(H, "a"), ("", "c"), (D, "a"), ("", "q")]);
        root.attrs.insert(at, At { ns: ns.into(), name: name.into(), val: gen::text(s) });
    }
    let mut kids = Vec::new();
    let n = |s: &mut Src, one: bool| match one {
        true if s.chance(1, 15) => s.idx(3),
        true => 1,
        false => s.small(4),
    };
    for (ns, name, one, hook) in [
        (H, "x", false, false),
        (H, "c", true, true),
        (D, "dd", false, true),
        (H, "e", false, true),
        (H, "b", true, true),
        (H, "n", true, true),
        (H, "q", true, true),
    ] {
        for _ in 0..n(s, one) {
            kids.push(leaf(s, ns, name, hook));
        }
    }
    if s.chance(1, 2) {
        kids.push(leaf(s, H, "o", false));
    }
    if s.chance(1, 3) {
        let (ns, name) = *s.pick(&[("", "c"), (P, "c"), (H, "dd"), (D, "d"), (D, "c"), (H, "zz"), ("", "q")]);
        kids.push(leaf(s, ns, name, true));
    }
    if s.chance(1, 2) {
        let mut e = El::new(P, "inner", Cls::Foreign);
        for _ in 0..n(s, true) {
            e.kids.push(Nd::E(leaf(s, P, "i", true)));
        }
        for _ in 0..s.small(3) {
            e.kids.push(Nd::E(leaf(s, P, "j", false)));
        }
        s.shuffle(&mut e.kids);
        kids.push(e);
    }
    for _ in 0..s.small(2) {
        let mut e = El::new(H, "wide", Cls::Foreign);
        for _ in 0..n(s, true) {
            e.kids.push(Nd::E(leaf(s, H, "i", true)));
        }
        let at = s.idx(e.kids.len() + 1);
        if s.chance(2, 3) {
            e.kids.insert(at, Nd::T(gen::text(s)));
        }
        e.normalise();
        kids.push(e);
    }
    s.shuffle(&mut kids);
    root.kids = kids.into_iter().map(Nd::E).collect();
    if s.chance(1, 4) {
        let at = s.idx(root.kids.len() + 1);
        root.kids.insert(at, Nd::T(gen::text(s)));
    }
    root.normalise();
    root
}

/// Runs the model: calls in order, then the value or the error
struct Model<'p> {
    plans: &'p [Plan],
    log: Vec<(&'static str, String)>,
}

enum Stop {
    Exactly(Error),
    Missing,
    Some,
}

impl Model<'_> {
    fn call(&mut self, hook: &'static str, had: bool, content: &[String], texts: &[Option<String>]) -> Result<Option<String>, Stop> {
        let p = &self.plans[self.log.len() % self.plans.len()];
        self.log.push((hook, format!("{had}")));
        expect(p, content, texts).map_err(|e| match e {
            Some(e) => Stop::Exactly(e),
            None => Stop::Some,
        })
    }
    fn el(&mut self, hook: &'static str, had: bool, e: &El) -> Result<Option<String>, Stop> {
        self.call(hook, had, &seen(e), &texts(e))
    }
    fn one(&mut self, hook: &'static str, slot: &mut Option<String>, e: &El) -> Result<(), Stop> {
        if let Some(v) = self.el(hook, slot.is_some(), e)? {
            *slot = Some(v);
        }
        Ok(())
    }

    fn outer(&mut self, root: &El) -> Result<Outer, Stop> {
        let (mut a, mut z) = (None, None);
        for at in &root.attrs {
            match (&*at.ns, &*at.name) {
                ("", "a") => {
                    let had = a.is_some();
                    if let Some(v) = self.call("ra", had, &[esc(&at.val)], &[Some(at.val.clone())])? {
                        a = Some(v);
                    }
                }
                ("", "z") => z = Some(at.val.clone()),
                _ => {}
            }
        }
        let (mut x, mut c, mut d, mut e, mut b, mut n) = (Vec::new(), None, Vec::new(), None, None, None);
        let (mut y, mut o, mut q, mut w) = (None, None, None, Vec::new());
        for k in root.elems() {
            match (&*k.ns, &*k.name) {
                (H, "x") => x.push(text_of(k)),
                (H, "c") => self.one("rc", &mut c, k)?,
                (D, "dd") => {
                    if let Some(v) = self.el("rd", !d.is_empty(), k)? {
                        d.push(v);
                    }
                }
                (H, "e") => self.one("re", &mut e, k)?,
                (H, "b") => self.one("rb", &mut b, k)?,
                (H, "n") => self.one("rn", &mut n, k)?,
                (H, "q") => self.one("rq", &mut q, k)?,
                (H, "o") => o = Some(O { t: text_of(k) }),
                (P, "inner") => {
                    let (mut i, mut j) = (None, Vec::new());
                    for k in k.elems() {
                        match (&*k.ns, &*k.name) {
                            (P, "i") => self.one("ri", &mut i, k)?,
                            (P, "j") => j.push(text_of(k)),
                            _ => {}
                        }
                    }
                    y = Some(Inner { i: i.ok_or(Stop::Missing)?, j });
                }
                (H, "wide") => {
                    let (mut i, mut t) = (None, None);
                    for k in &k.kids {
                        match k {
                            Nd::T(s) => {
                                if t.replace(s.clone()).is_some() {
                                    return Err(Stop::Some);
                                }
                            }
                            Nd::E(k) if (&*k.ns, &*k.name) == (H, "i") => self.one("ri", &mut i, k)?,
                            Nd::E(_) => {}
                        }
                    }
                    w.push(Wide { i: i.ok_or(Stop::Missing)?, t: t.unwrap_or_default() });
                }
                _ => {}
            }
        }
        Ok(Outer {
            a: a.ok_or(Stop::Missing)?,
            z,
            x,
            c: c.ok_or(Stop::Missing)?,
            d,
            y,
            e,
            b: Box::new(b.ok_or(Stop::Missing)?),
            inl: Inl { o, q: Q { t: q.ok_or(Stop::Missing)? } },
            n: n.ok_or(Stop::Missing)?.chars().count() as u32,
            w,
        })
    }
}

fn text_of(e: &El) -> String {
    match e.kids.first() {
        Some(Nd::T(t)) => t.clone(),
        _ => String::new(),
    }
}

fn plan_read(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let el = outer_doc(s);
    let plans: Vec<Plan> = (0..1 + s.idx(4)).map(|_| plan(s)).collect();
    let st = Style {
        ns: s.chance(1, 3),
        refs: s.chance(1, 4),
        comments: s.chance(1, 4),
        space: false,
        markup: s.chance(1, 4),
        prolog: false,
    };
    let doc = render(None, &el, s, st);
    let mut m = Model { plans: &plans, log: Vec::new() };
    let want = m.outer(&el);
    reset(plans.clone(), vec![]);
    let got = from_str::<Outer>(&doc);
    let calls = logged();
    o.key(&[&doc, &format!("{plans:?}")]);
    o.nontrivial = !m.log.is_empty();
    o.sample(|| format!("{plans:?} {doc}"));
    let bad = |t: String| Err(format!("{t}\nplans: {plans:?}\nexpected calls {:?}\ncalls          {calls:?}\ndocument: {doc}", m.log));
    o.tag(match &want {
        Ok(_) => "read: value",
        Err(Stop::Exactly(_)) => "read: planned error",
        Err(Stop::Missing) => "read: missing",
        Err(Stop::Some) => "read: other error",
    });
    match (want, got) {
        (Ok(w), Ok(g)) if w == g => {}
        (Ok(w), Ok(g)) => return bad(format!("wrong value\nexpected {w:?}\nread     {g:?}")),
        (Ok(w), Err(e)) => return bad(format!("expected {w:?}, got the error {e:?}")),
        (Err(Stop::Exactly(e)), Err(g)) if e == g => {}
        (Err(Stop::Exactly(e)), g) => return bad(format!("the hook failed with {e:?}, the result is {g:?}")),
        (Err(Stop::Missing), Err(Error::MissingValue(_))) => {}
        (Err(Stop::Missing), g) => return bad(format!("expected a missing value, got {g:?}")),
        (Err(Stop::Some), Err(_)) => {}
        (Err(Stop::Some), Ok(g)) => return bad(format!("expected an error, read {g:?}")),
    }
    // an error in a wide element can come from text in front of a hook
    if m.log != calls {
        return bad("the hooks were called differently".into());
    }
    Ok(())
}

// ---- writing

fn out(s: &mut Src) -> Out {
    match s.below(14) {
        0 => Out::Nothing,
        1 | 2 => Out::Text((*s.pick(&["plain", "foo: 1", "é", " ", "a b"])).into()),
        3..=5 => Out::Shown(gen::text(s)),
        6 | 7 => Out::Own,
        8..=11 => Out::Tree(
            (*s.pick(&["t", "c", "é", "x"])).into(),
            s.chance(1, 2).then(|| gen::text(s)),
            s.chance(2, 3),
        ),
        12 => Out::Fail(write_error(s)),
        _ => Out::LateFail(write_error(s)),
    }
}

fn write_error(s: &mut Src) -> Error {
    match s.below(4) {
        0 => Error::Format(fmt::Error),
        _ => planned_error(s),
    }
}

fn plan_write(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let strs = |s: &mut Src, n: usize| (0..s.small(n)).map(|_| gen::text(s)).collect::<Vec<_>>();
    let v = Outer {
        a: gen::text(s),
        z: s.chance(1, 2).then(|| gen::text(s)),
        x: strs(s, 3),
        c: gen::text(s),
        d: strs(s, 3),
        y: s.chance(1, 2).then(|| Inner { i: gen::text(s), j: strs(s, 2) }),
        e: s.chance(1, 2).then(|| gen::text(s)),
        b: Box::new(gen::text(s)),
        inl: Inl { o: s.chance(1, 2).then(|| O { t: gen::text(s) }), q: Q { t: gen::text(s) } },
        n: s.below(1000) as u32,
        w: (0..s.small(2)).map(|_| Wide { i: gen::text(s), t: gen::text(s) }).collect(),
    };
    let outs: Vec<Out> = (0..1 + s.idx(4)).map(|_| out(s)).collect();
    // the model
    let mut calls: Vec<(&'static str, String)> = Vec::new();
    let mut fail = None;
    let mut hook = |name: &'static str, v: String, own: (&str, &str), ns: &str, kids: &mut Vec<Nd>| {
        if fail.is_some() {
            return;
        }
        let o = &outs[calls.len() % outs.len()];
        calls.push((name, v.clone()));
        match placed(o, &v, own, ns) {
            Ok(n) => kids.extend(n),
            Err(e) => fail = Some(e),
        }
    };
    let scalar = |ns: &str, name: &str, t: &str| {
        let mut e = El::new(ns, name, Cls::Foreign);
        e.kids.push(Nd::T(t.to_owned()));
        e.normalise();
        Nd::E(e)
    };
    let mut root = El::new(H, "outer", Cls::Foreign);
    root.attrs.push(At { ns: String::new(), name: "a".into(), val: v.a.clone() });
    if let Some(z) = &v.z {
        root.attrs.push(At { ns: String::new(), name: "z".into(), val: z.clone() });
    }
    let k = &mut root.kids;
    k.extend(v.x.iter().map(|t| scalar(H, "x", t)));
    hook("wc", v.c.clone(), (H, "c"), H, k);
    hook("wd", v.d.concat(), (D, "dd"), H, k);
    if let Some(y) = &v.y {
        let mut e = El::new(P, "inner", Cls::Foreign);
        hook("wi", y.i.clone(), (P, "i"), P, &mut e.kids);
        e.kids.extend(y.j.iter().map(|t| scalar(P, "j", t)));
        k.push(Nd::E(e));
    }
    hook("we", v.e.clone().unwrap_or_default(), (H, "e"), H, k);
    hook("wb", (*v.b).clone(), (H, "b"), H, k);
    if let Some(o) = &v.inl.o {
        k.push(scalar(H, "o", &o.t));
    }
    hook("wq", v.inl.q.t.clone(), (H, "q"), H, k);
    hook("wn", v.n.to_string(), (H, "n"), H, k);
    for w in &v.w {
        let mut e = El::new(H, "wide", Cls::Foreign);
        hook("wv", w.i.clone(), (H, "i"), H, &mut e.kids);
        e.kids.push(Nd::T(w.t.clone()));
        k.push(Nd::E(e));
    }
    root.normalise();
    reset(vec![], outs.clone());
    let got = to_string(&v);
    let made = logged();
    o.key(&[&format!("{v:?}"), &format!("{outs:?}")]);
    o.nontrivial = true;
    o.sample(|| format!("{outs:?} {got:?}"));
    let bad = |t: String| Err(format!("{t}\nplans: {outs:?}\nvalue: {v:?}\nexpected calls {calls:?}\ncalls          {made:?}\noutput: {got:?}"));
    if made != calls {
        return bad("the hooks were called differently".into());
    }
    match (&fail, &got) {
        (Some(e), Err(g)) if e == g => {
            o.tag("write: planned error");
            Ok(())
        }
        (Some(e), _) => bad(format!("the hook failed with {e:?}")),
        (None, Err(e)) => bad(format!("unexpected error {e:?}")),
        (None, Ok(doc)) => {
            o.tag("write: document");
            match xmlref::parse_output(doc) {
                Err(e) => bad(format!("not well-formed: {e}")),
                Ok(p) => match xmlref::diff(&root, &p.to_el(), "") {
                    Some(d) => bad(d),
                    None => Ok(()),
                },
            }
        }
    }
}

// ---- Display and FromStr

/// Displayed in many small pieces
#[derive(Clone, Debug, PartialEq)]
struct Bits(String);

impl fmt::Display for Bits {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for c in self.0.chars() {
            match f.alternate() {
                true => write!(f, "#{c}")?,
                false => write!(f, "{c}")?,
            }
        }
        Ok(())
    }
}

impl FromStr for Bits {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        SEEN.with(|v| v.borrow_mut().push(s.to_owned()));
        match s.contains("bad") {
            true => Err("bad".into()),
            false => Ok(Bits(s.to_owned())),
        }
    }
}

thread_local! {
    static SEEN: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

impl ToXml for Bits {
    fn serialize<W: fmt::Write + ?Sized>(&self, field: Option<Id<'_>>, s: &mut Serializer<'_, W>) -> Result<(), Error> {
        display_to_xml(self, field, s)
    }
}

impl<'xml> FromXml<'xml> for Bits {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field == Some(id)
    }
    fn deserialize<'cx>(into: &mut Option<Self>, field: &'static str, d: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        instant_xml::from_xml_str(into, field, d)
    }
    type Accumulator = Option<Self>;
    const KIND: instant_xml::Kind = instant_xml::Kind::Scalar;
}

impl support::Conv for Bits {
    fn to_val(&self) -> support::Val {
        support::Val::Sc(support::Sc::Str(self.0.clone()))
    }
    fn from_val(v: &support::Val) -> Self {
        match v {
            support::Val::Sc(support::Sc::Str(s)) => Bits(s.clone()),
            v => unreachable!("{v:?}"),
        }
    }
}

/// from_xml_str and display_to_xml as the implementation of a type, in every position
fn conversions(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    use crate::hand::{Pos, POS};
    use support::{Sc, Val};
    let p = *s.pick(&POS);
    let n = match p {
        Pos::Ls => 1 + s.idx(3),
        _ => 1,
    };
    let mut ts: Vec<String> = (0..n).map(|_| gen::text(s)).collect();
    if s.chance(1, 8) {
        let i = s.idx(n);
        let k = ts[i].char_indices().map(|(i, _)| i).nth(s.idx(3)).unwrap_or(0);
        ts[i].insert_str(k, "bad");
    }
    let v = p.val(ts.iter().map(|t| Val::Sc(Sc::Str(t.clone()))).collect());
    let doc = crate::hand::write::<Bits>(p, &v).map_err(|e| format!("writing failed: {e:?}\nvalue: {v:?}"))?;
    let got_tree = xmlref::parse_output(&doc).map_err(|e| format!("not well-formed: {e}\nvalue: {v:?}\ndocument: {doc}"))?.to_el();
    let raw: Vec<String> = ts.iter().map(|t| super::text::escape(t)).collect();
    let want_tree = xmlref::parse(&p.doc(&raw.iter().map(|s| &**s).collect::<Vec<_>>())).expect("own document").to_el();
    if let Some(d) = xmlref::diff(&want_tree, &got_tree, "") {
        return Err(format!("{d}\nvalue: {v:?}\ndocument: {doc}"));
    }
    SEEN.with(|v| v.borrow_mut().clear());
    let got = crate::hand::read::<Bits>(p, &doc);
    let seen = SEEN.with(|v| v.borrow().clone());
    o.key(&[&format!("{p:?}"), &doc]);
    o.nontrivial = true;
    o.sample(|| format!("{p:?}: {doc}"));
    let bad = |t: String| Err(format!("{t}\nposition {p:?}\nvalue: {v:?}\ntexts given to from_str: {seen:?}\ndocument: {doc}"));
    let first_bad = ts.iter().position(|t| t.contains("bad"));
    match (&got, first_bad) {
        (Ok(_), Some(_)) => return bad("expected an error".into()),
        (Err(Error::UnexpectedValue(_)), Some(_)) => {}
        (Err(e), Some(_)) => return bad(format!("unexpected kind of error {e:?}")),
        (Ok(g), None) if *g == v => {}
        (Ok(Val::Opt(None)), None) if p == Pos::OpDi && ts[0].is_empty() => {}
        (g, None) => return bad(format!("read {g:?}")),
    }
    let told = &ts[..first_bad.map_or(ts.len(), |i| i + 1).min(ts.len())];
    if seen != told && p != Pos::OpDi {
        return bad(format!("from_str should get {told:?}"));
    }
    Ok(())
}
