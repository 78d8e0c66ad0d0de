//! Untyped values of generated types.

#[derive(Clone, Debug, PartialEq)]
pub enum Sc {
    Bool(bool),
    Char(char),
    Int(i128),
    /// bit patterns, NaNs normalised
    F32(u32),
    F64(u64),
    Str(String),
    Ip(std::net::IpAddr),
    /// seconds since the epoch, nanoseconds: DateTime<Utc> and NaiveDateTime
    Dt(i64, u32),
    /// days since the epoch
    Date(i64),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Sc(Sc),
    Opt(Option<Box<Val>>),
    List(Vec<Val>),
    /// fields in declaration order (named, tuple, unit and transparent structs)
    Struct(Vec<Val>),
    /// variant index and payload (forward enums)
    Enum(usize, Option<Box<Val>>),
    Any(Box<AnyV>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct AnyV {
    pub ns: String,
    pub name: String,
    pub attrs: Vec<(String, String, String)>,
    pub text: Option<String>,
    pub children: Vec<AnyV>,
}

impl Val {
    pub fn str(s: &str) -> Val {
        Val::Sc(Sc::Str(s.to_owned()))
    }
    /// Number of nodes
    pub fn size(&self) -> usize {
        match self {
            Val::Sc(_) => 1,
            Val::Opt(None) => 1,
            Val::Opt(Some(v)) => 1 + v.size(),
            Val::List(v) | Val::Struct(v) => 1 + v.iter().map(|v| v.size()).sum::<usize>(),
            Val::Enum(_, None) => 1,
            Val::Enum(_, Some(v)) => 1 + v.size(),
            Val::Any(_) => 1,
        }
    }
}
