//! Conversions between Rust values and untyped ones, used by the generated families.
use std::borrow::Cow;
use std::fmt;
use std::net::IpAddr;
use std::str::FromStr;

use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
use instant_xml::de::Limits;
use instant_xml::{AnyElement, Deserializer, Error, FromXml, Id, Kind, Serializer, ToXml};
use xmodel::lexical::{norm32, norm64};
pub use xmodel::val::{AnyV, Sc, Val};

/// Where a Cow string of a value that was read lives
#[derive(Clone, Debug)]
pub struct Borrow {
    pub borrowed: bool,
    pub ptr: usize,
    pub len: usize,
}

fn borrow(c: &Cow<'_, str>, out: &mut Vec<Borrow>) {
    out.push(Borrow { borrowed: matches!(c, Cow::Borrowed(_)), ptr: c.as_ptr() as usize, len: c.len() });
}

pub trait Conv: Sized {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
    fn borrows(&self, _: &mut Vec<Borrow>) {}
}

macro_rules! int {
    ($($t:ty)*) => {$(
        impl Conv for $t {
            fn to_val(&self) -> Val {
                Val::Sc(Sc::Int(*self as i128))
            }
            fn from_val(v: &Val) -> Self {
                match v {
                    Val::Sc(Sc::Int(i)) => <$t>::try_from(*i).unwrap(),
                    v => unreachable!("{v:?}"),
                }
            }
        }
    )*};
}
int!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);

macro_rules! conv {
    ($($t:ty, $s:ident => $to:expr, $p:pat => $from:expr;)*) => {$(
        impl Conv for $t {
            fn to_val(&self) -> Val {
                let $s = self;
                Val::Sc($to)
            }
            fn from_val(v: &Val) -> Self {
                match v {
                    Val::Sc($p) => $from,
                    v => unreachable!("{v:?}"),
                }
            }
        }
    )*};
}
conv! {
    bool, s => Sc::Bool(*s), Sc::Bool(b) => *b;
    char, s => Sc::Char(*s), Sc::Char(c) => *c;
    f32, s => Sc::F32(norm32(*s)), Sc::F32(b) => f32::from_bits(*b);
    f64, s => Sc::F64(norm64(*s)), Sc::F64(b) => f64::from_bits(*b);
    String, s => Sc::Str(s.clone()), Sc::Str(s) => s.clone();
    IpAddr, s => Sc::Ip(*s), Sc::Ip(i) => *i;
    DateTime<Utc>, s => Sc::Dt(s.timestamp(), s.timestamp_subsec_nanos()), Sc::Dt(s, n) => DateTime::from_timestamp(*s, *n).unwrap();
    NaiveDateTime, s => Sc::Dt(s.and_utc().timestamp(), s.and_utc().timestamp_subsec_nanos()), Sc::Dt(s, n) => DateTime::from_timestamp(*s, *n).unwrap().naive_utc();
    NaiveDate, s => Sc::Date(s.and_hms_opt(0, 0, 0).unwrap().and_utc().timestamp().div_euclid(86400)), Sc::Date(d) => DateTime::from_timestamp(*d * 86400, 0).unwrap().date_naive();
    Disp, s => Sc::Str(s.0.clone()), Sc::Str(s) => Disp(s.clone());
}

impl Conv for Cow<'_, str> {
    fn to_val(&self) -> Val {
        Val::Sc(Sc::Str(self.to_string()))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Sc(Sc::Str(s)) => Cow::Owned(s.clone()),
            v => unreachable!("{v:?}"),
        }
    }
    fn borrows(&self, out: &mut Vec<Borrow>) {
        borrow(self, out);
    }
}

impl<T: Conv> Conv for Option<T> {
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|v| Box::new(v.to_val())))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Opt(o) => o.as_ref().map(|v| T::from_val(v)),
            v => unreachable!("{v:?}"),
        }
    }
    fn borrows(&self, out: &mut Vec<Borrow>) {
        self.iter().for_each(|v| v.borrows(out));
    }
}

impl<T: Conv> Conv for Vec<T> {
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(|v| v.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::List(l) => l.iter().map(T::from_val).collect(),
            v => unreachable!("{v:?}"),
        }
    }
    fn borrows(&self, out: &mut Vec<Borrow>) {
        self.iter().for_each(|v| v.borrows(out));
    }
}

impl<T: Conv + Clone> Conv for Cow<'_, [T]> {
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(|v| v.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        Cow::Owned(Vec::from_val(v))
    }
}

impl<T: Conv> Conv for Box<T> {
    fn to_val(&self) -> Val {
        (**self).to_val()
    }
    fn from_val(v: &Val) -> Self {
        Box::new(T::from_val(v))
    }
    fn borrows(&self, out: &mut Vec<Borrow>) {
        (**self).borrows(out);
    }
}

pub fn any(e: &AnyElement<'_>) -> AnyV {
    AnyV {
        ns: e.ns.to_string(),
        name: e.name.to_string(),
        attrs: e.attributes.iter().map(|a| (a.ns.to_string(), a.name.to_string(), a.value.to_string())).collect(),
        text: e.text.as_ref().map(|t| t.to_string()),
        children: e.children.iter().map(any).collect(),
    }
}

impl Conv for AnyElement<'_> {
    fn to_val(&self) -> Val {
        Val::Any(Box::new(any(self)))
    }
    fn from_val(_: &Val) -> Self {
        unreachable!("AnyElement is only read")
    }
    /// Order: namespace, name, attributes (namespace, name, value), text, children
    fn borrows(&self, out: &mut Vec<Borrow>) {
        borrow(&self.ns, out);
        borrow(&self.name, out);
        for a in &self.attributes {
            borrow(&a.ns, out);
            borrow(&a.name, out);
            borrow(&a.value, out);
        }
        if let Some(t) = &self.text {
            borrow(t, out);
        }
        self.children.iter().for_each(|c| c.borrows(out));
    }
}

/// Only readable through `from_xml_str`, only writable through `display_to_xml` in element
/// position: using the type's own implementations there is an error.
#[derive(Clone, Debug, PartialEq)]
pub struct Disp(pub String);

impl fmt::Display for Disp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        // in several pieces
        let mid = self.0.char_indices().nth(1).map_or(self.0.len(), |(i, _)| i);
        f.write_str(&self.0[..mid])?;
        f.write_str(&self.0[mid..])
    }
}

impl FromStr for Disp {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        match s.starts_with('!') {
            true => Err(()),
            false => Ok(Disp(s.to_owned())),
        }
    }
}

impl<'xml> FromXml<'xml> for Disp {
    fn matches(id: Id<'_>, field: Option<Id<'_>>) -> bool {
        field == Some(id)
    }
    fn deserialize<'cx>(_: &mut Option<Self>, _: &'static str, _: &mut Deserializer<'cx, 'xml>) -> Result<(), Error> {
        Err(Error::Other("the hook was not called".into()))
    }
    type Accumulator = Option<Self>;
    const KIND: Kind = Kind::Scalar;
}

impl ToXml for Disp {
    fn serialize<W: fmt::Write + ?Sized>(&self, field: Option<Id<'_>>, s: &mut Serializer<'_, W>) -> Result<(), Error> {
        match field {
            Some(_) => Err(Error::Other("the hook was not called".into())),
            None => instant_xml::display_to_xml(self, None, s),
        }
    }
}

pub type Write = fn(&Val, &mut dyn fmt::Write) -> Result<(), Error>;

/// Access to one generated type
pub struct Entry {
    pub fam: usize,
    pub ty: usize,
    pub write: Option<Write>,
    pub read: fn(&str) -> Result<Val, Error>,
    pub read_limits: fn(&str, Limits) -> Result<Val, Error>,
    pub read_borrows: fn(&str) -> Result<(Val, Vec<Borrow>), Error>,
}

pub fn write_val<T: Conv + ToXml>(v: &Val, w: &mut dyn fmt::Write) -> Result<(), Error> {
    instant_xml::to_writer(&T::from_val(v), w)
}

pub fn limits(attrs: usize, levels: usize, ns: usize) -> Limits {
    let mut l = Limits::default();
    l.max_attributes = attrs;
    l.max_levels = levels;
    l.max_ns_declarations = ns;
    l
}
