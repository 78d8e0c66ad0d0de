//! What the annotations prescribe: value -> tree, and tree -> value.
use crate::lexical;
use crate::schema::*;
use crate::val::{AnyV, Sc, Val};

#[derive(Clone, Debug, PartialEq)]
pub struct At {
    pub ns: String,
    pub name: String,
    pub val: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Nd {
    E(El),
    T(String),
}

/// Namespace-resolved element. `cls` and `group` only guide mutation and rendering.
#[derive(Clone, Debug)]
pub struct El {
    pub ns: String,
    pub name: String,
    pub attrs: Vec<At>,
    pub kids: Vec<Nd>,
    pub cls: Cls,
    /// index of the field of the containing element this came from
    pub group: usize,
}

impl PartialEq for El {
    fn eq(&self, o: &El) -> bool {
        self.ns == o.ns && self.name == o.name && self.attrs == o.attrs && self.kids == o.kids
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cls {
    /// text content is a scalar value
    Scalar,
    /// an element of this type
    Type(usize),
    /// not known to the type
    Foreign,
}

impl El {
    pub fn new(ns: &str, name: &str, cls: Cls) -> El {
        El { ns: ns.to_owned(), name: name.to_owned(), attrs: Vec::new(), kids: Vec::new(), cls, group: 0 }
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| if let Nd::E(e) = k { e.count() } else { 0 }).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.kids.iter().map(|k| if let Nd::E(e) = k { e.depth() } else { 0 }).max().unwrap_or(0)
    }
    pub fn elems(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Nd::E(e) => Some(e),
            Nd::T(_) => None,
        })
    }
    /// Path-addressed access: indexes into kids
    pub fn at_mut(&mut self, path: &[usize]) -> &mut El {
        match path.split_first() {
            None => self,
            Some((i, rest)) => match &mut self.kids[*i] {
                Nd::E(e) => e.at_mut(rest),
                Nd::T(_) => panic!("path to text"),
            },
        }
    }
    pub fn at(&self, path: &[usize]) -> &El {
        match path.split_first() {
            None => self,
            Some((i, rest)) => match &self.kids[*i] {
                Nd::E(e) => e.at(rest),
                Nd::T(_) => panic!("path to text"),
            },
        }
    }
    pub fn paths(&self) -> Vec<Vec<usize>> {
        let mut out = Vec::new();
        self.collect_paths(&mut Vec::new(), &mut out);
        out
    }
    fn collect_paths(&self, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        for (i, k) in self.kids.iter().enumerate() {
            if let Nd::E(e) = k {
                cur.push(i);
                e.collect_paths(cur, out);
                cur.pop();
            }
        }
    }
    /// Puts adjacent texts together and drops empty ones
    pub fn normalise(&mut self) {
        let kids = std::mem::take(&mut self.kids);
        for k in kids {
            match k {
                Nd::T(t) if t.is_empty() => {}
                Nd::T(t) => match self.kids.last_mut() {
                    Some(Nd::T(prev)) => prev.push_str(&t),
                    _ => self.kids.push(Nd::T(t)),
                },
                Nd::E(mut e) => {
                    e.normalise();
                    self.kids.push(Nd::E(e));
                }
            }
        }
    }
}

// ---- value -> tree

pub fn write_root(f: &Family, t: usize, v: &Val) -> El {
    let mut kids = Vec::new();
    write_ty(f, &Ty::Ref(t), v, None, &mut kids);
    assert_eq!(kids.len(), 1, "a root is one element");
    match kids.pop().unwrap() {
        Nd::E(mut e) => {
            e.normalise();
            e
        }
        _ => unreachable!(),
    }
}

pub fn scalar_text(f: &Family, t: &Ty, v: &Val) -> Option<String> {
    match (t, v) {
        (Ty::Sc(k), Val::Sc(s)) => Some(lexical::write(*k, s)),
        (Ty::Ref(r), Val::Enum(i, None)) => Some(f.types[*r].variants[*i].wire.clone()),
        (Ty::Opt(_), Val::Opt(None)) => None,
        (Ty::Opt(t), Val::Opt(Some(v))) => scalar_text(f, t, v),
        (Ty::Bx(t), v) => scalar_text(f, t, v),
        _ => unreachable!("{t:?} {v:?}"),
    }
}

fn write_ty(f: &Family, t: &Ty, v: &Val, field: Option<(&str, &str)>, out: &mut Vec<Nd>) {
    match (t, v) {
        (Ty::Sc(k), Val::Sc(s)) => {
            let text = lexical::write(*k, s);
            match field {
                Some((ns, name)) => {
                    let mut e = El::new(ns, name, Cls::Scalar);
                    e.kids.push(Nd::T(text));
                    out.push(Nd::E(e));
                }
                None => out.push(Nd::T(text)),
            }
        }
        (Ty::Opt(_), Val::Opt(None)) => {}
        (Ty::Opt(t), Val::Opt(Some(v))) => write_ty(f, t, v, field, out),
        (Ty::Bx(t), v) => write_ty(f, t, v, field, out),
        (Ty::Any, Val::Any(v)) => out.push(Nd::E(any_el(v))),
        (Ty::Vec(t) | Ty::CowList(t), Val::List(vs)) => {
            for v in vs {
                write_ty(f, t, v, field, out);
            }
        }
        (Ty::Ref(r), v) => {
            let d = &f.types[*r];
            match (d.kind, v) {
                (Kind::ScalarEnum, Val::Enum(i, None)) => {
                    let text = d.variants[*i].wire.clone();
                    match field {
                        Some((_, name)) => {
                            let mut e = El::new(f.uri(d.ns), name, Cls::Scalar);
                            e.kids.push(Nd::T(text));
                            out.push(Nd::E(e));
                        }
                        None => out.push(Nd::T(text)),
                    }
                }
                (Kind::Forward, Val::Enum(i, Some(v))) => {
                    write_ty(f, d.variants[*i].ty.as_ref().unwrap(), v, None, out)
                }
                (Kind::Transparent, Val::Struct(vs)) => {
                    for (fd, v) in d.fields.iter().zip(vs) {
                        write_ty(f, &fd.ty, v, Some(f.field_id(d, fd)), out);
                    }
                }
                (_, Val::Struct(vs)) => {
                    let mut e = El::new(f.uri(d.ns), d.tag(), Cls::Type(*r));
                    for (gi, (fd, v)) in d.fields.iter().zip(vs).enumerate() {
                        let id = match d.kind {
                            Kind::Tuple => None,
                            _ => Some(f.field_id(d, fd)),
                        };
                        match fd.role {
                            Role::Attribute => {
                                if let Some(val) = scalar_text(f, &fd.ty, v) {
                                    let (ns, name) = id.unwrap();
                                    e.attrs.push(At { ns: ns.to_owned(), name: name.to_owned(), val });
                                }
                            }
                            Role::Direct => write_ty(f, &fd.ty, v, None, &mut e.kids),
                            Role::Element => {
                                let start = e.kids.len();
                                write_ty(f, &fd.ty, v, id, &mut e.kids);
                                for k in &mut e.kids[start..] {
                                    if let Nd::E(c) = k {
                                        c.group = gi;
                                    }
                                }
                            }
                        }
                    }
                    out.push(Nd::E(e));
                }
                _ => unreachable!(),
            }
        }
        _ => unreachable!("{t:?} {v:?}"),
    }
}

// ---- tree -> value

#[derive(Clone, Debug, PartialEq)]
pub enum DErr {
    /// the type and field, as `Type::field`
    Missing(String),
    Dup(String),
    /// the text is not a value of the type; the text, for types whose errors give it
    Value(Option<String>),
    /// the element does not match the type
    Root,
}

enum Acc {
    Slot(Option<Val>),
    Opt(Box<Acc>),
    List(Vec<Val>),
    Transp(Vec<Acc>),
}

fn acc(f: &Family, t: &Ty) -> Acc {
    match t {
        Ty::Opt(t) => Acc::Opt(Box::new(acc(f, t))),
        Ty::Vec(_) | Ty::CowList(_) => Acc::List(Vec::new()),
        Ty::Ref(r) if f.types[*r].kind == Kind::Transparent => {
            Acc::Transp(f.types[*r].fields.iter().map(|fd| acc(f, &fd.ty)).collect())
        }
        _ => Acc::Slot(None),
    }
}

fn done(f: &Family, t: &Ty, a: Acc, at: &str) -> Result<Val, DErr> {
    match (t, a) {
        (Ty::Opt(t), Acc::Opt(a)) => Ok(Val::Opt(done(f, t, *a, at).ok().map(Box::new))),
        (_, Acc::List(v)) => Ok(Val::List(v)),
        (Ty::Ref(r), Acc::Transp(subs)) => {
            let d = &f.types[*r];
            let mut vs = Vec::new();
            for (fd, a) in d.fields.iter().zip(subs) {
                vs.push(done(f, &fd.ty, a, &d.at(fd))?);
            }
            Ok(Val::Struct(vs))
        }
        (_, Acc::Slot(Some(v))) => Ok(v),
        (_, Acc::Slot(None)) => Err(DErr::Missing(at.to_owned())),
        _ => unreachable!(),
    }
}

/// Where a value comes from
enum From<'a> {
    El(&'a El),
    /// attribute value or direct text
    Text(&'a str),
}

fn feed(f: &Family, t: &Ty, a: &mut Acc, from: From<'_>, at: &str) -> Result<(), DErr> {
    match (t, a) {
        (Ty::Opt(t), Acc::Opt(a)) => feed(f, t, a, from, at),
        (Ty::Vec(t) | Ty::CowList(t), Acc::List(vs)) => {
            let mut inner = acc(f, t);
            feed(f, t, &mut inner, from, at)?;
            vs.push(done(f, t, inner, at)?);
            Ok(())
        }
        (Ty::Bx(t), Acc::Slot(s)) => {
            if s.is_some() {
                return Err(DErr::Dup(at.to_owned()));
            }
            let mut inner = acc(f, t);
            feed(f, t, &mut inner, from, at)?;
            *s = match done(f, t, inner, at) {
                Err(DErr::Missing(_)) => None,
                r => Some(r?),
            };
            Ok(())
        }
        (Ty::Ref(r), Acc::Transp(subs)) => {
            let From::El(e) = from else { unreachable!() };
            let d = &f.types[*r];
            for (fd, a) in d.fields.iter().zip(subs) {
                if f.element_matches(&fd.ty, Some(f.field_id(d, fd)), &e.ns, &e.name) {
                    return feed(f, &fd.ty, a, From::El(e), &d.at(fd));
                }
            }
            unreachable!("transparent type does not match")
        }
        (Ty::Any, Acc::Slot(s)) => {
            if s.is_some() {
                return Err(DErr::Dup(at.to_owned()));
            }
            let From::El(e) = from else { unreachable!() };
            *s = Some(Val::Any(Box::new(any(e))));
            Ok(())
        }
        (Ty::Sc(k), Acc::Slot(s)) => {
            if s.is_some() {
                return Err(DErr::Dup(at.to_owned()));
            }
            match text_of(&from)? {
                Some(text) => *s = Some(Val::Sc(lexical::parse(*k, text).ok_or_else(|| DErr::Value(k.error_has_text().then(|| text.to_owned())))?)),
                None if matches!(k, ScK::Str | ScK::Cow | ScK::Disp) => *s = Some(Val::str("")),
                None => {}
            }
            Ok(())
        }
        (Ty::Ref(r), Acc::Slot(s)) => {
            let d = &f.types[*r];
            if s.is_some() {
                return Err(DErr::Dup(at.to_owned()));
            }
            match d.kind {
                Kind::ScalarEnum => {
                    let text = text_of(&from)?;
                    let i = match d.variants.iter().position(|v| v.wire == text.unwrap_or("")) {
                        Some(i) => i,
                        None if text.is_none() => return Err(DErr::Missing(d.ident.clone())),
                        None => return Err(DErr::Value(text.map(str::to_owned))),
                    };
                    *s = Some(Val::Enum(i, None));
                }
                Kind::Forward => {
                    let From::El(e) = from else { unreachable!() };
                    let i = d
                        .variants
                        .iter()
                        .position(|v| f.element_matches(v.ty.as_ref().unwrap(), None, &e.ns, &e.name))
                        .ok_or(DErr::Root)?;
                    let t = d.variants[i].ty.as_ref().unwrap();
                    let mut inner = acc(f, t);
                    feed(f, t, &mut inner, From::El(e), &format!("{}::0", d.ident))?;
                    *s = Some(Val::Enum(i, Some(Box::new(done(f, t, inner, at)?))));
                }
                _ => {
                    let From::El(e) = from else { unreachable!() };
                    *s = Some(read_struct(f, *r, e)?);
                }
            }
            Ok(())
        }
        _ => unreachable!(),
    }
}

fn text_of<'a>(from: &From<'a>) -> Result<Option<&'a str>, DErr> {
    match from {
        From::Text(t) => Ok(Some(t)),
        From::El(e) => match e.kids.first() {
            None => Ok(None),
            Some(Nd::T(t)) => Ok(Some(t)),
            Some(Nd::E(_)) => Err(DErr::Value(None)),
        },
    }
}

pub fn any_el(v: &AnyV) -> El {
    let mut e = El::new(&v.ns, &v.name, Cls::Foreign);
    e.attrs = v.attrs.iter().map(|(ns, name, val)| At { ns: ns.clone(), name: name.clone(), val: val.clone() }).collect();
    e.kids.extend(v.text.iter().cloned().map(Nd::T));
    e.kids.extend(v.children.iter().map(|c| Nd::E(any_el(c))));
    e
}

pub fn any(e: &El) -> AnyV {
    let texts: Vec<&str> = e
        .kids
        .iter()
        .filter_map(|k| match k {
            Nd::T(t) => Some(t.as_str()),
            _ => None,
        })
        .collect();
    AnyV {
        ns: e.ns.clone(),
        name: e.name.clone(),
        attrs: e.attrs.iter().map(|a| (a.ns.clone(), a.name.clone(), a.val.clone())).collect(),
        text: if texts.is_empty() { None } else { Some(texts.concat()) },
        children: e.elems().map(any).collect(),
    }
}

fn read_struct(f: &Family, r: usize, e: &El) -> Result<Val, DErr> {
    let d = &f.types[r];
    match d.kind {
        Kind::Unit => Ok(Val::Struct(vec![])),
        Kind::Tuple => {
            let mut kids = e.kids.iter();
            let mut accs = Vec::new();
            for fd in &d.fields {
                let mut a = acc(f, &fd.ty);
                let scalar = match fd.ty.core() {
                    Ty::Sc(_) => true,
                    Ty::Ref(r) => f.types[*r].kind == Kind::ScalarEnum,
                    _ => false,
                };
                if scalar {
                    // the text at this place
                    let mut holder = El::new("", "", Cls::Foreign);
                    if let Some(k) = kids.next() {
                        holder.kids.push(k.clone());
                    }
                    feed(f, &fd.ty, &mut a, From::El(&holder), &d.at(fd))?;
                } else {
                    for k in kids.by_ref() {
                        if let Nd::E(c) = k {
                            if f.element_matches(&fd.ty, None, &c.ns, &c.name) {
                                feed(f, &fd.ty, &mut a, From::El(c), &d.at(fd))?;
                                break;
                            }
                        }
                    }
                }
                accs.push(a);
            }
            let mut vs = Vec::new();
            for (fd, a) in d.fields.iter().zip(accs) {
                vs.push(done(f, &fd.ty, a, &d.at(fd))?);
            }
            Ok(Val::Struct(vs))
        }
        Kind::Named => {
            let mut accs: Vec<Acc> = d.fields.iter().map(|fd| acc(f, &fd.ty)).collect();
            for at in &e.attrs {
                for (fd, a) in d.fields.iter().zip(&mut accs) {
                    let (ns, name) = f.field_id(d, fd);
                    if fd.role == Role::Attribute && at.ns == ns && at.name == name {
                        feed(f, &fd.ty, a, From::Text(&at.val), &d.at(fd))?;
                        break;
                    }
                }
            }
            for k in &e.kids {
                match k {
                    Nd::E(c) => {
                        for (fd, a) in d.fields.iter().zip(&mut accs) {
                            let id = f.field_id(d, fd);
                            if fd.role == Role::Element && f.element_matches(&fd.ty, Some(id), &c.ns, &c.name) {
                                feed(f, &fd.ty, a, From::El(c), &d.at(fd))?;
                                break;
                            }
                        }
                    }
                    Nd::T(t) => {
                        for (fd, a) in d.fields.iter().zip(&mut accs) {
                            if fd.role == Role::Direct {
                                feed(f, &fd.ty, a, From::Text(t), &d.at(fd))?;
                            }
                        }
                    }
                }
            }
            let mut vs = Vec::new();
            for (fd, a) in d.fields.iter().zip(accs) {
                vs.push(match (fd.role, done(f, &fd.ty, a, &d.at(fd))) {
                    (Role::Direct, Err(DErr::Missing(_))) => {
                        let mut a = acc(f, &fd.ty);
                        feed(f, &fd.ty, &mut a, From::Text(""), &d.at(fd))?;
                        done(f, &fd.ty, a, &d.at(fd))?
                    }
                    (_, r) => r?,
                });
            }
            Ok(Val::Struct(vs))
        }
        _ => unreachable!(),
    }
}

/// What reading the document `e` as type `t` means
pub fn read_root(f: &Family, t: usize, e: &El) -> Result<Val, DErr> {
    let ty = Ty::Ref(t);
    if !f.element_matches(&ty, None, &e.ns, &e.name) {
        return Err(DErr::Root);
    }
    let mut a = acc(f, &ty);
    feed(f, &ty, &mut a, From::El(e), "<root element>")?;
    done(f, &ty, a, "<root element>")
}

/// NaN-tolerant and -0-sensitive equality
pub fn same(a: &Val, b: &Val) -> bool {
    a == b
}

pub fn is_float(s: &Sc) -> bool {
    matches!(s, Sc::F32(_) | Sc::F64(_))
}
