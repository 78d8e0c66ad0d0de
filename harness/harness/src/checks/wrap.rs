//! C23 wrappers.
use std::borrow::Cow;
use std::fmt;

use instant_xml::{from_str, to_string, Error, FromXml, FromXmlOwned, ToXml};
use support::{Conv, Sc, Val};
use xmodel::gen;
use xmodel::lexical;
use xmodel::schema::*;
use xmodel::src::Src;

use super::text::escape;
use crate::engine::{part, Check, Cx, Obs};
use crate::hand::{self, At, BoEl, Di, El, Pos, Tu};
use crate::scalar_type;
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C23",
        level: "exploration",
        rule: "random values are written plain and in wrappers, and random valid and invalid documents are read as plain and as wrapped types; nontrivial: every such case; distinct: by types, position and document",
        assumptions: &["Option and Vec inside Box are covered when writing only, apart from the known finding"],
        parts: vec![
            part("write scalar", 40_000, write_scalar),
            part("write struct", 30_000, write_struct),
            part("write text", 20_000, write_text),
            part("read scalar", 60_000, read_scalar),
            part("read struct", 60_000, read_struct),
            part("generic", 40_000, generic),
        ],
        known: vec![("K4", boxed_option)],
    }]
}

// ---- inner types

const PNS: &str = "urn:p";

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(ns("urn:s", p = "urn:p"))]
struct S1 {
    #[xml(attribute)]
    a: Option<u8>,
    #[xml(attribute, ns(PNS), rename = "pa")]
    b: String,
    #[xml(ns("urn:p"))]
    c: i16,
    d: Vec<String>,
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(scalar)]
enum Sce {
    One,
    #[xml(rename = "2")]
    Two,
    Three = 7,
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
struct S4(String);

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(ns("urn:s"))]
struct S5;

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(forward)]
enum Fw {
    A(S1),
    B(S4),
    C(Box<S5>),
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(rename = "dd")]
struct S6 {
    #[xml(attribute)]
    k: Sce,
    #[xml(direct)]
    t: Option<u8>,
}

/// One field without an element of its own
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(transparent)]
struct S7 {
    x: S4,
}

/// Several fields without an element of their own
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(transparent)]
struct S8 {
    a: u8,
    b: Option<Sce>,
    c: S1,
    d: Vec<i8>,
}

/// Nothing of it is required
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(transparent)]
struct S9 {
    a: Option<u8>,
    d: Vec<i8>,
}

fn s(v: &str) -> Val {
    Val::Sc(Sc::Str(v.into()))
}

macro_rules! dbg_conv {
    ($($t:ty)*) => {$(
        impl Conv for $t {
            // only compared
            fn to_val(&self) -> Val {
                s(&format!("{self:?}"))
            }
            fn from_val(_: &Val) -> Self {
                unreachable!()
            }
        }
    )*};
}
dbg_conv!(S1 Sce S4 S5 Fw S6 S7 S8 S9);

trait Make: Sized {
    fn make(s: &mut Src) -> Self;
}

impl Make for S1 {
    fn make(s: &mut Src) -> Self {
        S1 {
            a: s.chance(1, 2).then(|| s.below(256) as u8),
            b: gen::text(s),
            c: s.below(100) as i16 - 50,
            d: (0..s.small(3)).map(|_| gen::text(s)).collect(),
        }
    }
}
impl Make for Sce {
    fn make(s: &mut Src) -> Self {
        s.pick(&[Sce::One, Sce::Two, Sce::Three]).clone()
    }
}
impl Make for S4 {
    fn make(s: &mut Src) -> Self {
        S4(gen::text(s))
    }
}
impl Make for S5 {
    fn make(_: &mut Src) -> Self {
        S5
    }
}
impl Make for Fw {
    fn make(s: &mut Src) -> Self {
        match s.below(3) {
            0 => Fw::A(Make::make(s)),
            1 => Fw::B(Make::make(s)),
            _ => Fw::C(Box::new(S5)),
        }
    }
}
impl Make for S6 {
    fn make(s: &mut Src) -> Self {
        S6 { k: Make::make(s), t: s.chance(1, 2).then(|| s.below(256) as u8) }
    }
}

impl Make for S7 {
    fn make(s: &mut Src) -> Self {
        S7 { x: Make::make(s) }
    }
}
impl Make for S8 {
    fn make(s: &mut Src) -> Self {
        S8 { a: s.below(256) as u8, b: s.chance(1, 2).then(|| Make::make(s)), c: Make::make(s), d: (0..s.small(3)).map(|_| s.below(100) as i8).collect() }
    }
}
impl Make for S9 {
    fn make(s: &mut Src) -> Self {
        S9 { a: s.chance(1, 2).then(|| s.below(256) as u8), d: (0..s.small(3)).map(|_| s.below(100) as i8).collect() }
    }
}

macro_rules! struct_type {
    ($i:expr, $t:ident => $e:expr) => {
        match $i {
            0 => {
                type $t = S1;
                $e
            }
            1 => {
                type $t = Sce;
                $e
            }
            2 => {
                type $t = S4;
                $e
            }
            3 => {
                type $t = S5;
                $e
            }
            4 => {
                type $t = Fw;
                $e
            }
            5 => {
                type $t = S6;
                $e
            }
            _ => {
                type $t = S7;
                $e
            }
        }
    };
}

// ---- writing

#[derive(Clone, Copy, Debug, PartialEq)]
enum Place {
    Root,
    El,
    At,
    Di,
    Tu,
}

fn wr<T: ToXml>(p: Place, v: T) -> Result<String, Error> {
    match p {
        Place::Root => to_string(&v),
        Place::El => to_string(&El { v }),
        Place::At => to_string(&At { v }),
        Place::Di => to_string(&Di { v }),
        Place::Tu => to_string(&Tu(v)),
    }
}

struct Cmp<'o> {
    p: Place,
    base: Result<String, Error>,
    o: &'o mut Obs,
}

impl Cmp<'_> {
    fn same<T: ToXml>(&mut self, what: &str, v: T) -> Result<(), String> {
        self.o.runs += 1;
        let got = wr(self.p, v);
        match got == self.base {
            true => Ok(()),
            false => Err(format!("{what} at {:?} is written {got:?}\nthe plain value {:?}", self.p, self.base)),
        }
    }
}

fn present(what: &str, v: &impl ToXml, want: bool) -> Result<(), String> {
    match v.present() == want {
        true => Ok(()),
        false => Err(format!("present() of {what} is {}", !want)),
    }
}

fn write_one<T: ToXml + Clone + fmt::Debug>(p: Place, x: &T, o: &mut Obs) -> Result<(), String> {
    let base = wr(p, x.clone());
    note(o, &format!("{p:?} {}", std::any::type_name::<T>()), base.as_deref().unwrap_or("error"));
    let mut c = Cmp { p, base, o };
    let x = x.clone();
    c.same("&T", &x)?;
    c.same("&&T", &&x)?;
    c.same("Box<T>", Box::new(x.clone()))?;
    c.same("Box<Box<T>>", Box::new(Box::new(x.clone())))?;
    c.same("&Box<T>", &Box::new(x.clone()))?;
    c.same("Box<&T>", Box::new(&x))?;
    c.same("Some(T)", Some(x.clone()))?;
    c.same("Some(&T)", Some(&x))?;
    c.same("&Some(T)", &Some(x.clone()))?;
    c.same("Some(Box<T>)", Some(Box::new(x.clone())))?;
    c.same("Box<Some(T)>", Box::new(Some(x.clone())))?;
    if p != Place::At {
        c.same("vec![T]", vec![x.clone()])?;
        c.same("&[T]", &[x.clone()][..])?;
    }
    present("T", &x, true)?;
    present("&T", &&x, true)?;
    present("Box<T>", &Box::new(x.clone()), true)?;
    present("Some(T)", &Some(x.clone()), true)?;
    present("&Some(T)", &&Some(x.clone()), true)?;
    present("Box<Some(T)>", &Box::new(Some(x.clone())), true)?;
    present("Some(Box<T>)", &Some(Box::new(x.clone())), true)?;
    // absence
    let mut n = Cmp { p, base: wr(p, None::<T>), o: c.o };
    n.same("None of &T", None::<&T>)?;
    n.same("None of Box<T>", None::<Box<T>>)?;
    n.same("&None", &None::<T>)?;
    n.same("&&None", &&None::<T>)?;
    n.same("Box<None>", Box::new(None::<T>))?;
    n.same("Box<Box<None>>", Box::new(Box::new(None::<T>)))?;
    n.same("&Box<None>", &Box::new(None::<T>))?;
    let nothing = match p {
        Place::Root => "",
        _ => "<r></r>",
    };
    let empty = n.base.clone().map(|d| d.replace("<r />", "<r></r>").replace("<r/>", "<r></r>"));
    if empty.as_deref() != Ok(nothing) {
        return Err(format!("None at {p:?} is written {:?}", n.base));
    }
    present("None", &None::<T>, false)?;
    present("None of Box<T>", &None::<Box<T>>, false)?;
    present("&None", &&None::<T>, false)?;
    present("&&None", &&&None::<T>, false)?;
    present("Box<None>", &Box::new(None::<T>), false)?;
    present("Box<Box<None>>", &Box::new(Box::new(None::<T>)), false)?;
    present("&Box<None>", &&Box::new(None::<T>), false)
}

fn write_list<T: ToXml + Clone + fmt::Debug>(p: Place, xs: Vec<T>, o: &mut Obs) -> Result<(), String> {
    let base = wr(p, xs.clone());
    note(o, &format!("{p:?} list of {}", std::any::type_name::<T>()), base.as_deref().unwrap_or("error"));
    let mut c = Cmp { p, base, o };
    c.same("&[T]", &xs[..])?;
    c.same("&Vec<T>", &xs)?;
    c.same("Box<[T]>", xs.clone().into_boxed_slice())?;
    c.same("Box<Vec<T>>", Box::new(xs.clone()))?;
    c.same("borrowed Cow<[T]>", Cow::Borrowed(&xs[..]))?;
    c.same("owned Cow<[T]>", Cow::<[T]>::Owned(xs.clone()))?;
    c.same("&Cow<[T]>", &Cow::Borrowed(&xs[..]))?;
    c.same("Vec<Box<T>>", xs.iter().cloned().map(Box::new).collect::<Vec<_>>())?;
    c.same("Vec<&T>", xs.iter().collect::<Vec<_>>())?;
    c.same("&[Some(T)]", &xs.iter().map(Some).collect::<Vec<_>>()[..])?;
    // absent items are not written
    let mut holes: Vec<Option<T>> = vec![None];
    for x in &xs {
        holes.push(Some(x.clone()));
        holes.push(None);
    }
    c.same("Vec<Option<T>>", holes)?;
    c.same("Some(Vec<T>)", Some(xs.clone()))?;
    // a list is its items one after the other
    if p == Place::Root {
        let mut all = String::new();
        for x in &xs {
            all += &to_string(x).map_err(|e| format!("an item fails: {e:?}"))?;
        }
        if c.base.as_ref() != Ok(&all) {
            return Err(format!("the list is written {:?}, its items {all:?}", c.base));
        }
    }
    Ok(())
}

fn note(o: &mut Obs, what: &str, doc: &str) {
    o.key(&[what, doc]);
    o.nontrivial = true;
    o.sample(|| format!("{what}: {doc}"));
}

fn write_scalar(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let k = *s.pick(&SCALARS);
    let p = *s.pick(&[Place::El, Place::At, Place::Di, Place::Tu, Place::Root]);
    let n = s.small(4);
    let vs: Vec<Val> = (0..n + 1).map(|_| Val::Sc(gen::scalar(s, k))).collect();
    scalar_type!(k, T => {
        let xs: Vec<T> = vs.iter().map(Conv::from_val).collect();
        write_one(p, &xs[0], o)?;
        if matches!(p, Place::El | Place::Root) {
            write_list(p, xs[1..].to_vec(), o)?;
        }
        Ok(())
    })
}

fn write_struct(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let i = s.below(9);
    // an enum of texts can be anywhere
    let p = match i {
        1 => *s.pick(&[Place::El, Place::At, Place::Di, Place::Tu, Place::Root]),
        _ => *s.pick(&[Place::El, Place::Tu, Place::Root]),
    };
    // (as in the struct types below, but these cannot be read into a Box or a list)
    match i {
        7 => return write_one(p, &S8::make(s), o),
        8 => return write_one(p, &S9::make(s), o),
        _ => {}
    }
    struct_type!(i, T => {
        let n = s.small(4);
        let xs: Vec<T> = (0..n + 1).map(|_| T::make(s)).collect();
        write_one(p, &xs[0], o)?;
        if matches!(p, Place::El | Place::Root) {
            write_list(p, xs[1..].to_vec(), o)?;
        }
        Ok(())
    })
}

fn write_text(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let p = *s.pick(&[Place::El, Place::At, Place::Di, Place::Tu, Place::Root]);
    let t = gen::text(s);
    let base = wr(p, t.clone());
    note(o, &format!("{p:?}"), base.as_deref().unwrap_or("error"));
    let mut c = Cmp { p, base, o };
    c.same("&str", t.as_str())?;
    c.same("Box<str>", t.clone().into_boxed_str())?;
    c.same("borrowed Cow<str>", Cow::Borrowed(t.as_str()))?;
    c.same("owned Cow<str>", Cow::<str>::Owned(t.clone()))?;
    c.same("Box<Cow<str>>", Box::new(Cow::Borrowed(t.as_str())))?;
    c.same("&Cow<str>", &Cow::Borrowed(t.as_str()))?;
    c.same("Some(&str)", Some(t.as_str()))?;
    c.same("&Box<str>", &t.clone().into_boxed_str())?;
    c.same("&&str", &t.as_str())?;
    let mut cs = t.chars();
    if let (Some(ch), None) = (cs.next(), cs.next()) {
        c.same("char", ch)?;
    }
    present("str", &t.as_str(), true)?;
    present("Box<str>", &t.clone().into_boxed_str(), true)?;
    if matches!(p, Place::El | Place::Root) {
        let ts: Vec<String> = (0..s.small(4)).map(|_| gen::text(s)).collect();
        let mut c = Cmp { p, base: wr(p, ts.clone()), o };
        let refs: Vec<&str> = ts.iter().map(|t| t.as_str()).collect();
        c.same("&[&str]", &refs[..])?;
        c.same("Vec<&str>", refs.clone())?;
        c.same("Cow<[&str]>", Cow::Borrowed(&refs[..]))?;
        c.same("Vec<Cow<str>>", refs.iter().map(|t| Cow::Borrowed(*t)).collect::<Vec<_>>())?;
        c.same("Box<[Box<str>]>", ts.iter().map(|t| t.clone().into_boxed_str()).collect::<Vec<_>>().into_boxed_slice())?;
    }
    Ok(())
}

// ---- reading

type Got = Result<Val, Error>;

/// Equal, or errors of the same kind
fn agree(what: &str, plain: &Got, wrapped: &Got, doc: &str) -> Result<(), String> {
    let ok = match (plain, wrapped) {
        (Ok(a), Ok(b)) => a == b,
        (Err(a), Err(b)) => err_name(a) == err_name(b),
        _ => false,
    };
    match ok {
        true => Ok(()),
        false => Err(format!("{what} is read differently\nplain:   {plain:?}\nwrapped: {wrapped:?}\ndocument: {doc}")),
    }
}

/// A value that may be absent: `items` elements or attributes of the field are in the document
fn agree_opt(what: &str, plain: &Got, opt: &Got, items: usize, doc: &str) -> Result<(), String> {
    let ok = match (plain, opt) {
        (Ok(a), Ok(Val::Opt(Some(b)))) => *a == **b,
        (Err(Error::MissingValue(_)), Ok(Val::Opt(None))) => true,
        // something after the field may fail as well
        (Err(Error::MissingValue(_)), Err(b)) if items > 0 || !matches!(b, Error::MissingValue(_)) => true,
        (Err(a), Err(b)) => err_name(a) == err_name(b) && !matches!(a, Error::MissingValue(_)),
        _ => false,
    };
    match ok {
        true => Ok(()),
        false => Err(format!("{what} is read differently\nplain:    {plain:?}\noptional: {opt:?}\ndocument: {doc}")),
    }
}

fn read_all<T: Conv + Clone + FromXmlOwned + 'static>(p: Pos, doc: &str, items: usize, o: &mut Obs) -> Result<(), String> {
    let plain: Got = hand::read::<T>(p, doc);
    o.tag(match &plain {
        Ok(_) => "accepted",
        Err(e) => err_name(e),
    });
    o.runs += 6;
    agree("Box<T>", &plain, &hand::read::<Box<T>>(p, doc), doc)?;
    agree("Box<Box<T>>", &plain, &hand::read::<Box<Box<T>>>(p, doc), doc)?;
    if p == Pos::El {
        agree("Box<T> instead of T", &plain, &hand::read::<T>(Pos::Bx, doc), doc)?;
        agree_opt("Option<T>", &plain, &hand::read::<T>(Pos::OpEl, doc), items, doc)?;
        agree_opt("Option<Box<T>>", &plain, &hand::read::<Box<T>>(Pos::OpEl, doc), items, doc)?;
        // lists
        let list: Got = hand::read::<T>(Pos::Ls, doc);
        agree("Vec<Box<T>>", &list, &hand::read::<Box<T>>(Pos::Ls, doc), doc)?;
        agree("Cow<[T]>", &list, &hand::read::<Cow<'static, [T]>>(Pos::El, doc), doc)?;
        agree("Cow<[Box<T>]>", &list, &hand::read::<Cow<'static, [Box<T>]>>(Pos::El, doc), doc)?;
        if matches!(&list, Ok(Val::List(l)) if l.is_empty()) && !matches!(hand::read::<Box<T>>(Pos::OpEl, doc), Ok(Val::Opt(None))) {
            return Err(format!("an absent Option<Box<T>> is not None\ndocument: {doc}"));
        }
        // one item, or none
        let one = match (&list, &plain) {
            (Ok(Val::List(l)), Ok(v)) => l.len() == 1 && l[0] == *v,
            (Ok(Val::List(l)), Err(Error::MissingValue(_))) => l.is_empty(),
            (Ok(Val::List(l)), Err(Error::DuplicateValue(_))) => l.len() > 1,
            // (an item without a value fails a list but not a single field)
            (Err(Error::MissingValue(_)), _) | (Err(_), Err(_)) => true,
            _ => false,
        };
        if !one {
            return Err(format!("the list {list:?} and the single value {plain:?} do not fit\ndocument: {doc}"));
        }
    }
    if p == Pos::At {
        agree_opt("Option<T>", &plain, &hand::read::<T>(Pos::OpAt, doc), items, doc)?;
        agree_opt("Option<Box<T>>", &plain, &hand::read::<Box<T>>(Pos::OpAt, doc), items, doc)?;
    }
    Ok(())
}

/// Something around a text or instead of it
fn shape(s: &mut Src, name: &str, body: &str) -> String {
    match s.below(14) {
        0 => format!("<{name}/>"),
        1 => format!("<{name} zz=\"1\">{body}</{name}>"),
        2 => format!("<{name}><zz/></{name}>"),
        3 => format!("<{name}>{body}<zz>1</zz></{name}>"),
        4 => format!("<{name}><zz>1</zz>{body}</{name}>"),
        5 => format!("<{name} xmlns=\"urn:zz\">{body}</{name}>"),
        6 => format!("<zz>{body}</zz>"),
        7 => format!("<{name}>{body}<!--c--></{name}>"),
        _ => format!("<{name}>{body}</{name}>"),
    }
}

fn damage(s: &mut Src, doc: String) -> String {
    if !s.chance(1, 12) {
        return doc;
    }
    let cuts: Vec<usize> = doc.char_indices().map(|(i, _)| i).collect();
    let i = *s.pick(&cuts);
    match s.below(3) {
        0 => doc[..i].to_owned(),
        1 => format!("{}{}{}", &doc[..i], s.pick(&["<", "&", "</r>", "<v>", "\"", "]]>"]), &doc[i..]),
        _ => format!("{doc}<r/>"),
    }
}

fn some_text(s: &mut Src, k: ScK) -> String {
    let t = lexical::write(k, &gen::scalar(s, k));
    match s.below(10) {
        0 => String::new(),
        1 => format!(" {t}"),
        2 => format!("{t}x"),
        3 => gen::text(s),
        4 => format!("{t}\n"),
        _ => t,
    }
}

fn read_scalar(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let k = *s.pick(&SCALARS);
    let p = *s.pick(&[Pos::El, Pos::El, Pos::At, Pos::Di, Pos::Tu, Pos::OpEl, Pos::OpAt, Pos::OpDi]);
    let mut items = 0;
    let doc = match p {
        Pos::At | Pos::OpAt => {
            let t = escape(&some_text(s, k));
            match s.below(4) {
                0 => "<r></r>".to_owned(),
                1 => format!("<r vv=\"{t}\"></r>"),
                _ => {
                    items = 1;
                    format!("<r v=\"{t}\"></r>")
                }
            }
        }
        Pos::Di | Pos::OpDi | Pos::Tu => {
            let t = escape(&some_text(s, k));
            match s.below(5) {
                0 => "<r/>".to_owned(),
                1 => format!("<r>{t}<zz/></r>"),
                2 => format!("<r><zz/>{t}</r>"),
                _ => format!("<r>{t}</r>"),
            }
        }
        _ => {
            items = *s.pick(&[1, 1, 1, 0, 2, 3]);
            let mut b = String::new();
            for _ in 0..items {
                let t = escape(&some_text(s, k));
                b += &shape(s, "v", &t);
            }
            format!("<r>{b}</r>")
        }
    };
    let doc = damage(s, doc);
    o.key(&[&format!("{k:?} {p:?}"), &doc]);
    o.nontrivial = true;
    o.sample(|| format!("{k:?} {p:?}: {doc}"));
    scalar_type!(k, T => read_all::<T>(p, &doc, items, o))?;
    // owned and borrowed texts
    if matches!(k, ScK::Str | ScK::Cow) {
        agree("Cow<str>", &hand::read::<String>(p, &doc), &hand::read::<Cow<'static, str>>(p, &doc), &doc)?;
        if p == Pos::El {
            let borrowed: Got = from_str::<BoEl<'_>>(&doc).map(|b| self::s(&b.v));
            agree("borrowed Cow<str>", &hand::read::<String>(p, &doc), &borrowed, &doc)?;
            agree("Vec<Cow<str>>", &hand::read::<String>(Pos::Ls, &doc), &hand::read::<Cow<'static, str>>(Pos::Ls, &doc), &doc)?;
        }
    }
    Ok(())
}

/// An element of one of the struct types, or almost
fn item(s: &mut Src, i: u64) -> String {
    let (name, ns) = match i {
        0 => ("S1", " xmlns=\"urn:s\""),
        1 => ("v", ""),
        2 | 6 => ("S4", ""),
        3 => ("S5", " xmlns=\"urn:s\""),
        _ => ("dd", ""),
    };
    let ns = match s.below(12) {
        0 => "",
        1 => " xmlns=\"urn:s\"",
        _ => ns,
    };
    let name = match s.below(20) {
        0 => "v",
        1 => "S4",
        _ => name,
    };
    let text = |s: &mut Src| match s.below(4) {
        0 => escape(&gen::text(s)),
        1 => String::new(),
        _ => (*s.pick(&["One", "2", "7", "Two", "12", "300", " 5 "])).to_owned(),
    };
    let mut attrs = String::new();
    let mut body = String::new();
    match i {
        0 => {
            if s.chance(1, 2) {
                attrs += &format!(" a=\"{}\"", s.pick(&["1", "255", "256", "", "x", " 7"]));
            }
            if !s.chance(1, 10) {
                attrs += &format!(" xmlns:q=\"urn:p\" q:pa=\"{}\"", text(s));
            }
            let n = *s.pick(&[1, 1, 1, 1, 0, 2]);
            for _ in 0..n {
                let c = *s.pick(&["1", "-5", "40000", "", "5"]);
                body += &shape(s, "c", c).replace("<c", "<c xmlns=\"urn:p\"").replace("xmlns=\"urn:p\" xmlns=\"urn:zz\"", "xmlns=\"urn:zz\"");
            }
            for _ in 0..s.small(3) {
                let t = text(s);
                body += &shape(s, "d", &t);
            }
        }
        2 | 1 | 6 => body = text(s),
        3 => {}
        _ => {
            if !s.chance(1, 10) {
                attrs += &format!(" k=\"{}\"", s.pick(&["One", "2", "7", "Three"]));
            }
            body = (*s.pick(&["", "1", "255", "256", "x"])).to_owned();
        }
    }
    if s.chance(1, 8) {
        body += "<zz k=\"1\">t</zz>";
    }
    format!("<{name}{ns}{attrs}>{body}</{name}>")
}

fn read_struct(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let i = s.below(8);
    if i == 7 {
        return read_inline(s, o);
    }
    let p = match i {
        1 => *s.pick(&[Pos::El, Pos::OpEl, Pos::Tu]),
        _ => *s.pick(&[Pos::El, Pos::El, Pos::Tu, Pos::OpEl]),
    };
    let n = *s.pick(&[1, 1, 1, 0, 2, 3]);
    let mut b = String::new();
    for _ in 0..n {
        let j = match i {
            4 => *s.pick(&[0, 2, 3]),
            i => i,
        };
        b += &item(s, j);
    }
    let doc = damage(s, format!("<r>{b}</r>"));
    o.key(&[&format!("{i} {p:?}"), &doc]);
    o.nontrivial = true;
    o.sample(|| format!("{i} {p:?}: {doc}"));
    struct_type!(i, T => {
        read_all::<T>(p, &doc, n, o)?;
        // as the root
        let inner = item(s, if i == 4 { 0 } else { i });
        let inner = damage(s, inner);
        let plain = from_str::<T>(&inner).map(|v| v.to_val());
        let boxed = from_str::<Box<T>>(&inner).map(|v| v.to_val());
        agree("Box<T> as root", &plain, &boxed, &inner)
    })
}

/// An optional transparent struct
fn read_inline(s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let mut parts: Vec<String> = Vec::new();
    let mut items = 0;
    let few = s.chance(1, 3);
    for i in 0..4 {
        let n = if few { *s.pick(&[0, 0, 0, 1]) } else { *s.pick(&[1, 1, 1, 1, 0, 2]) };
        for _ in 0..n {
            items += 1;
            parts.push(match i {
                0 => {
                    let t = *s.pick(&["1", "255", "256", "", "x", "7"]);
                    shape(s, "a", t)
                }
                1 => {
                    let t = *s.pick(&["One", "2", "7", "Two"]);
                    shape(s, "b", t)
                }
                2 => item(s, 0),
                _ => {
                    let t = *s.pick(&["1", "-5", "x", ""]);
                    shape(s, "d", t)
                }
            });
        }
    }
    for i in (1..parts.len()).rev() {
        if s.chance(1, 2) {
            let j = s.idx(i + 1);
            parts.swap(i, j);
        }
    }
    let doc = damage(s, format!("<r>{}</r>", parts.concat()));
    o.key(&["inline", &doc]);
    o.nontrivial = true;
    o.runs += 3;
    o.sample(|| format!("inline: {doc}"));
    agree_opt("Option<S8>", &hand::read::<S8>(Pos::El, &doc), &hand::read::<S8>(Pos::OpEl, &doc), items, &doc)?;
    agree_opt("Option<S9>", &hand::read::<S9>(Pos::El, &doc), &hand::read::<S9>(Pos::OpEl, &doc), items, &doc)?;
    // None exactly if something required is absent
    match (hand::read::<S8>(Pos::El, &doc), hand::read::<S8>(Pos::OpEl, &doc)) {
        (Err(Error::MissingValue(f)), Err(e @ Error::MissingValue(_))) if matches!(f, "S8::a" | "S8::c") => Err(format!("S8 lacks {f} and the optional one fails: {e:?}\ndocument: {doc}")),
        _ => Ok(()),
    }
}

// ---- generic parameters

macro_rules! twins {
    ($($m:ident: $t:ty;)*) => {$(
        mod $m {
            use super::*;
            #[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
            #[xml(rename = "g", ns("urn:g", p = "urn:p"))]
            pub struct Plain {
                #[xml(attribute)]
                pub i: u8,
                #[xml(ns("urn:p"), rename = "v")]
                pub a: $t,
                pub b: Vec<$t>,
            }
        }
    )*};
}
twins! {
    t_u32: u32;
    t_string: String;
    t_sce: Sce;
    t_cow: Cow<'static, str>;
    t_opt: Option<i8>;
    t_s1: S1;
    t_s6: S6;
    t_boxed: Box<S1>;
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(rename = "g", ns("urn:g", p = "urn:p"))]
struct Gen<T> {
    #[xml(attribute)]
    i: u8,
    #[xml(ns("urn:p"), rename = "v")]
    a: T,
    b: Vec<T>,
}

/// Two parameters, bounds and a where clause
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(rename = "g", ns("urn:g", p = "urn:p"))]
struct Gen2<A: fmt::Debug, B>
where
    B: fmt::Debug + Clone,
{
    #[xml(attribute)]
    i: A,
    #[xml(ns("urn:p"), rename = "v")]
    a: B,
    b: Vec<B>,
}

fn generic(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    macro_rules! twin {
        ($m:ident, $t:ty, $make:expr) => {{
            let mut make = $make;
            let (i, a): (u8, $t) = (s.below(256) as u8, make(s));
            let b: Vec<$t> = (0..s.small(3)).map(|_| make(s)).collect();
            let plain = $m::Plain { i, a: a.clone(), b: b.clone() };
            let gen = Gen::<$t> { i, a: a.clone(), b: b.clone() };
            let gen2 = Gen2::<u8, $t> { i, a, b };
            let doc = to_string(&plain);
            let docs = [to_string(&gen), to_string(&gen2), to_string(&&plain), to_string(&Box::new(gen.clone()))];
            if docs.iter().any(|d| *d != doc) {
                return Err(format!("written differently\nplain:   {doc:?}\nwrapped: {docs:?}"));
            }
            let doc = doc.map_err(|e| format!("writing failed: {e:?}"))?;
            note(o, stringify!($m), &doc);
            // read as written, and with something missing, repeated or damaged
            let (c1, c2) = (chop(s, &doc), chop(s, &doc));
            let variants = [doc.clone(), c1, damage(s, c2)];
            for d in variants {
                let w = from_str::<$m::Plain>(&d).map(|v| self::s(&format!("{:?} {:?} {:?}", v.i, v.a, v.b)));
                let g = from_str::<Gen<$t>>(&d).map(|v| self::s(&format!("{:?} {:?} {:?}", v.i, v.a, v.b)));
                let g2 = from_str::<Gen2<u8, $t>>(&d).map(|v| self::s(&format!("{:?} {:?} {:?}", v.i, v.a, v.b)));
                agree("a generic type", &w, &g, &d)?;
                agree("a generic type with bounds", &w, &g2, &d)?;
            }
            Ok(())
        }};
    }
    match s.below(8) {
        0 => twin!(t_u32, u32, |s: &mut Src| s.below(1000) as u32),
        1 => twin!(t_string, String, gen::text),
        2 => twin!(t_sce, Sce, |s: &mut Src| Sce::make(s)),
        3 => twin!(t_cow, Cow<'static, str>, |s: &mut Src| Cow::Owned(gen::text(s))),
        4 => twin!(t_opt, Option<i8>, |s: &mut Src| s.chance(1, 2).then(|| s.below(100) as i8)),
        5 => twin!(t_s1, S1, |s: &mut Src| S1::make(s)),
        6 => twin!(t_s6, S6, |s: &mut Src| S6::make(s)),
        _ => twin!(t_boxed, Box<S1>, |s: &mut Src| Box::new(S1::make(s))),
    }
}

/// Removes or repeats one element of the document, as text
fn chop(s: &mut Src, doc: &str) -> String {
    let Some(first) = doc.find('>') else { return doc.to_owned() };
    let Some(last) = doc.rfind("</") else { return doc.to_owned() };
    if first + 1 >= last {
        return doc.to_owned();
    }
    let inner = &doc[first + 1..last];
    match s.below(3) {
        0 => format!("{}{}{}{}", &doc[..first + 1], inner, inner, &doc[last..]),
        1 => format!("{}{}", &doc[..first + 1], &doc[last..]),
        _ => doc.replacen(" i=\"", " z=\"", 1),
    }
}

/// K4: absence and repetition inside a Box
fn boxed_option() -> bool {
    let absent = hand::read::<Box<Option<u8>>>(Pos::El, "<r></r>").is_err();
    let twice = hand::read::<Box<Vec<u8>>>(Pos::El, "<r><v>1</v><v>2</v></r>").is_err();
    absent || twice
}
