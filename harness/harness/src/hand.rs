//! Handwritten types: one value in each position a scalar can have.
use std::borrow::Cow;

use instant_xml::{from_str, to_string, Error, FromXml, FromXmlOwned, ToXml};
use support::{Conv, Val};
use xmodel::schema::ScK;

macro_rules! holder {
    ($name:ident, $(#[$m:meta])* $t:ty) => {
        #[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
        #[xml(rename = "r")]
        pub struct $name<T> {
            $(#[$m])*
            pub v: $t,
        }
        impl<T: Conv> $name<T> {
            fn new(v: &Val) -> Self {
                Self { v: Conv::from_val(v) }
            }
        }
    };
}
holder!(El, T);
holder!(At, #[xml(attribute)] T);
holder!(Di, #[xml(direct)] T);
holder!(OpEl, Option<T>);
holder!(OpAt, #[xml(attribute)] Option<T>);
holder!(OpDi, #[xml(direct)] Option<T>);
holder!(Ls, Vec<T>);
holder!(Bx, Box<T>);

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(rename = "r")]
pub struct Tu<T>(pub T);

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(rename = "r")]
pub struct BoEl<'a> {
    #[xml(borrow)]
    pub v: Cow<'a, str>,
}
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(rename = "r")]
pub struct BoAt<'a> {
    #[xml(borrow, attribute)]
    pub v: Cow<'a, str>,
}
/// Bytes read with the public helper for them
#[derive(Clone, Debug, PartialEq)]
pub struct Bytes<'a>(pub Cow<'a, [u8]>);

pub fn read_bytes<'xml>(
    into: &mut Option<Bytes<'xml>>,
    field: &'static str,
    deserializer: &mut instant_xml::Deserializer<'_, 'xml>,
) -> Result<(), Error> {
    let mut v = into.take().map(|b| b.0);
    instant_xml::de::borrow_cow_slice_u8(&mut v, field, deserializer)?;
    *into = v.map(Bytes);
    Ok(())
}

impl<'xml> FromXml<'xml> for Bytes<'xml> {
    fn matches(id: instant_xml::Id<'_>, field: Option<instant_xml::Id<'_>>) -> bool {
        field == Some(id)
    }
    fn deserialize(
        into: &mut Option<Self>,
        field: &'static str,
        deserializer: &mut instant_xml::Deserializer<'_, 'xml>,
    ) -> Result<(), Error> {
        read_bytes(into, field, deserializer)
    }
    type Accumulator = Option<Self>;
    const KIND: instant_xml::Kind = instant_xml::Kind::Scalar;
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "r")]
pub struct BoBytes<'a> {
    #[xml(borrow, deserialize_with = "read_bytes")]
    pub v: Bytes<'a>,
}
#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "r")]
pub struct BoBytesAt<'a> {
    #[xml(borrow, attribute, deserialize_with = "read_bytes")]
    pub v: Bytes<'a>,
}
/// Ignores everything
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(rename = "r")]
pub struct Nothing {}

/// Ignores everything
#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(rename = "r")]
pub struct Unit;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pos {
    El,
    At,
    Di,
    OpEl,
    OpAt,
    OpDi,
    Ls,
    Bx,
    Tu,
}
pub const POS: [Pos; 9] = [Pos::El, Pos::At, Pos::Di, Pos::OpEl, Pos::OpAt, Pos::OpDi, Pos::Ls, Pos::Bx, Pos::Tu];

impl Pos {
    pub fn attr(self) -> bool {
        matches!(self, Pos::At | Pos::OpAt)
    }
    pub fn opt(self) -> bool {
        matches!(self, Pos::OpEl | Pos::OpAt | Pos::OpDi)
    }
    pub fn elem(self) -> bool {
        matches!(self, Pos::El | Pos::OpEl | Pos::Ls | Pos::Bx)
    }
    /// A document with these raw texts in the position
    pub fn doc(self, raw: &[&str]) -> String {
        match self {
            Pos::At | Pos::OpAt => format!("<r v=\"{}\"></r>", raw[0]),
            Pos::Di | Pos::OpDi | Pos::Tu => format!("<r>{}</r>", raw[0]),
            _ => format!("<r>{}</r>", raw.iter().map(|r| format!("<v>{r}</v>")).collect::<String>()),
        }
    }
    /// The value of a document holding these
    pub fn val(self, vs: Vec<Val>) -> Val {
        match self {
            Pos::Ls => Val::List(vs),
            p if p.opt() => Val::Opt(vs.into_iter().next().map(Box::new)),
            _ => vs.into_iter().next().unwrap(),
        }
    }
}

pub fn read<T: Conv + FromXmlOwned>(p: Pos, doc: &str) -> Result<Val, Error> {
    Ok(match p {
        Pos::El => from_str::<El<T>>(doc)?.v.to_val(),
        Pos::At => from_str::<At<T>>(doc)?.v.to_val(),
        Pos::Di => from_str::<Di<T>>(doc)?.v.to_val(),
        Pos::OpEl => from_str::<OpEl<T>>(doc)?.v.to_val(),
        Pos::OpAt => from_str::<OpAt<T>>(doc)?.v.to_val(),
        Pos::OpDi => from_str::<OpDi<T>>(doc)?.v.to_val(),
        Pos::Ls => from_str::<Ls<T>>(doc)?.v.to_val(),
        Pos::Bx => from_str::<Bx<T>>(doc)?.v.to_val(),
        Pos::Tu => from_str::<Tu<T>>(doc)?.0.to_val(),
    })
}

pub fn write<T: Conv + ToXml>(p: Pos, v: &Val) -> Result<String, Error> {
    match p {
        Pos::El => to_string(&El::<T>::new(v)),
        Pos::At => to_string(&At::<T>::new(v)),
        Pos::Di => to_string(&Di::<T>::new(v)),
        Pos::OpEl => to_string(&OpEl::<T>::new(v)),
        Pos::OpAt => to_string(&OpAt::<T>::new(v)),
        Pos::OpDi => to_string(&OpDi::<T>::new(v)),
        Pos::Ls => to_string(&Ls::<T>::new(v)),
        Pos::Bx => to_string(&Bx::<T>::new(v)),
        Pos::Tu => to_string(&Tu::<T>(Conv::from_val(v))),
    }
}

#[macro_export]
macro_rules! scalar_type {
    ($k:expr, $t:ident => $e:expr) => {{
        use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
        use xmodel::schema::ScK;
        match $k {
            ScK::Bool => { type $t = bool; $e }
            ScK::Char => { type $t = char; $e }
            ScK::I8 => { type $t = i8; $e }
            ScK::I16 => { type $t = i16; $e }
            ScK::I32 => { type $t = i32; $e }
            ScK::I64 => { type $t = i64; $e }
            ScK::Isize => { type $t = isize; $e }
            ScK::U8 => { type $t = u8; $e }
            ScK::U16 => { type $t = u16; $e }
            ScK::U32 => { type $t = u32; $e }
            ScK::U64 => { type $t = u64; $e }
            ScK::Usize => { type $t = usize; $e }
            ScK::F32 => { type $t = f32; $e }
            ScK::F64 => { type $t = f64; $e }
            ScK::Str => { type $t = String; $e }
            ScK::Cow => { type $t = std::borrow::Cow<'static, str>; $e }
            ScK::Ip => { type $t = std::net::IpAddr; $e }
            ScK::DtUtc => { type $t = DateTime<Utc>; $e }
            ScK::NDt => { type $t = NaiveDateTime; $e }
            ScK::NDate => { type $t = NaiveDate; $e }
            ScK::Disp => unreachable!(),
        }
    }};
}

pub fn read_scalar(k: ScK, p: Pos, doc: &str) -> Result<Val, Error> {
    scalar_type!(k, T => read::<T>(p, doc))
}

pub fn write_scalar(k: ScK, p: Pos, v: &Val) -> Result<String, Error> {
    scalar_type!(k, T => write::<T>(p, v))
}
