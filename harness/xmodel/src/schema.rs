//! Families of derived types and their generator.
use crate::names::{self, Case, CASES};
use crate::src::{mix, Src};
use std::collections::BTreeSet;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum ScK {
    Bool,
    Char,
    I8,
    I16,
    I32,
    I64,
    Isize,
    U8,
    U16,
    U32,
    U64,
    Usize,
    F32,
    F64,
    Str,
    Cow,
    Ip,
    DtUtc,
    NDt,
    NDate,
    /// `support::Disp`, only readable through from_xml_str / writable through display_to_xml
    Disp,
}

pub const SCALARS: [ScK; 20] = [
    ScK::Str, ScK::Bool, ScK::Char, ScK::I8, ScK::I16, ScK::I32, ScK::I64, ScK::Isize, ScK::U8, ScK::U16,
    ScK::U32, ScK::U64, ScK::Usize, ScK::F32, ScK::F64, ScK::Cow, ScK::Ip, ScK::DtUtc, ScK::NDt, ScK::NDate,
];

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Sc(ScK),
    Ref(usize),
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    Bx(Box<Ty>),
    CowList(Box<Ty>),
    Any,
}

impl Ty {
    pub fn opt(t: Ty) -> Ty {
        Ty::Opt(Box::new(t))
    }
    pub fn vec(t: Ty) -> Ty {
        Ty::Vec(Box::new(t))
    }
    pub fn bx(t: Ty) -> Ty {
        Ty::Bx(Box::new(t))
    }
    /// Innermost type
    pub fn core(&self) -> &Ty {
        match self {
            Ty::Opt(t) | Ty::Vec(t) | Ty::Bx(t) | Ty::CowList(t) => t.core(),
            t => t,
        }
    }
    /// What an option contains
    pub fn inner(&self) -> &Ty {
        match self {
            Ty::Opt(t) => t,
            t => t,
        }
    }
    pub fn is_list(&self) -> bool {
        match self {
            Ty::Vec(_) | Ty::CowList(_) => true,
            Ty::Opt(t) | Ty::Bx(t) => t.is_list(),
            _ => false,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
    Element,
    Attribute,
    Direct,
}

#[derive(Clone, Debug)]
pub struct Field {
    pub ident: String,
    pub rename: Option<String>,
    /// name on the wire
    pub wire: String,
    pub role: Role,
    /// own namespace of the field (index into `Family::uris`)
    pub ns: Option<usize>,
    pub ty: Ty,
    pub borrow: bool,
    /// display_to_xml / from_xml_str hooks
    pub hook: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Named,
    Tuple,
    Unit,
    Transparent,
    ScalarEnum,
    Forward,
}

#[derive(Clone, Debug)]
pub struct Variant {
    pub ident: String,
    pub rename: Option<String>,
    pub disc: Option<(String, u64)>,
    /// scalar enums: text
    pub wire: String,
    /// forward enums: payload
    pub ty: Option<Ty>,
}

#[derive(Clone, Debug)]
pub struct TypeDef {
    pub ident: String,
    pub kind: Kind,
    pub rename: Option<String>,
    pub rename_all: Case,
    pub ns: Option<usize>,
    pub prefixes: Vec<(String, usize)>,
    pub force_prefix: bool,
    pub fields: Vec<Field>,
    pub variants: Vec<Variant>,
    pub lifetime: bool,
    /// index of the field whose type is the type parameter
    pub generic: Option<usize>,
    /// only read (contains an AnyElement)
    pub read_only: bool,
    /// style of the ns(...) attribute: literal, constant, path
    pub ns_style: u8,
}

impl ScK {
    /// Whether the error for a text that is not of this type gives the text
    pub fn error_has_text(self) -> bool {
        !matches!(self, ScK::Char | ScK::Str | ScK::Cow | ScK::DtUtc | ScK::NDt | ScK::NDate)
    }
}

impl TypeDef {
    /// How errors name a field
    pub fn at(&self, fd: &Field) -> String {
        format!("{}::{}", self.ident, fd.ident)
    }

    pub fn tag(&self) -> &str {
        self.rename.as_deref().unwrap_or(names::unraw(&self.ident))
    }
    pub fn direct(&self) -> bool {
        self.fields.iter().any(|f| f.role == Role::Direct)
    }
}

#[derive(Clone, Debug)]
pub struct Family {
    pub id: usize,
    pub theme: &'static str,
    pub uris: Vec<String>,
    pub types: Vec<TypeDef>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Match {
    No,
    Yes,
}

impl Family {
    pub fn uri(&self, ns: Option<usize>) -> &str {
        match ns {
            Some(i) => &self.uris[i],
            None => "",
        }
    }

    pub fn type_id(&self, t: usize) -> (&str, &str) {
        let d = &self.types[t];
        (self.uri(d.ns), d.tag())
    }

    /// All (ns, name) pairs a field of this type accepts as element; None = everything
    pub fn matched(&self, ty: &Ty, field: Option<(&str, &str)>) -> Option<BTreeSet<(String, String)>> {
        let mut out = BTreeSet::new();
        if self.collect(ty, field, &mut out) {
            Some(out)
        } else {
            None
        }
    }

    fn collect(&self, ty: &Ty, field: Option<(&str, &str)>, out: &mut BTreeSet<(String, String)>) -> bool {
        match ty.core() {
            Ty::Any => return false,
            Ty::Sc(_) => {
                if let Some((ns, name)) = field {
                    out.insert((ns.to_owned(), name.to_owned()));
                }
            }
            Ty::Ref(t) => {
                let d = &self.types[*t];
                match d.kind {
                    Kind::Named | Kind::Tuple | Kind::Unit => {
                        let (ns, name) = self.type_id(*t);
                        out.insert((ns.to_owned(), name.to_owned()));
                    }
                    Kind::ScalarEnum => {
                        if let Some((_, name)) = field {
                            out.insert((self.uri(d.ns).to_owned(), name.to_owned()));
                        }
                    }
                    Kind::Transparent => {
                        for f in &d.fields {
                            self.collect(&f.ty, Some(self.field_id(d, f)), out);
                        }
                    }
                    Kind::Forward => {
                        for v in &d.variants {
                            self.collect(v.ty.as_ref().unwrap(), None, out);
                        }
                    }
                }
            }
            _ => unreachable!(),
        }
        true
    }

    pub fn element_matches(&self, ty: &Ty, field: Option<(&str, &str)>, ns: &str, name: &str) -> bool {
        match self.matched(ty, field) {
            None => true,
            Some(set) => set.contains(&(ns.to_owned(), name.to_owned())),
        }
    }

    /// (ns, name) the field itself has as an element or attribute
    pub fn field_id<'a>(&'a self, owner: &'a TypeDef, f: &'a Field) -> (&'a str, &'a str) {
        let ns = match (f.role, f.ns) {
            (_, Some(ns)) => self.uri(Some(ns)),
            (Role::Attribute, None) => "",
            (_, None) => self.uri(owner.ns),
        };
        (ns, &f.wire)
    }

    /// Whether nothing on the wire means that the value is missing
    pub fn required(&self, t: &Ty) -> bool {
        match t {
            Ty::Opt(_) | Ty::Vec(_) | Ty::CowList(_) => false,
            Ty::Ref(r) if self.types[*r].kind == Kind::Transparent => {
                self.types[*r].fields.iter().any(|fd| self.required(&fd.ty))
            }
            _ => true,
        }
    }

    /// Whether whitespace may be added between the children of an element of this type
    pub fn space_ok(&self, t: usize) -> bool {
        let d = &self.types[t];
        match d.kind {
            Kind::Named => !d.direct(),
            Kind::Tuple => d.fields.iter().all(|fd| match fd.ty.core() {
                Ty::Sc(_) => false,
                Ty::Ref(r) => self.types[*r].kind != Kind::ScalarEnum,
                _ => true,
            }),
            Kind::Unit => true,
            _ => false,
        }
    }

    /// Types that can be the root of a document
    pub fn roots(&self) -> Vec<usize> {
        (0..self.types.len())
            .filter(|t| !matches!(self.types[*t].kind, Kind::Transparent | Kind::ScalarEnum))
            .collect()
    }
    pub fn write_roots(&self) -> Vec<usize> {
        self.roots().into_iter().filter(|t| !self.types[*t].read_only).collect()
    }
}

pub const XML_URI: &str = "http://www.w3.org/XML/1998/namespace";
const URIS: [&str; 10] = [
    "http://long.example/a/namespace/uri/of/more/than/sixty-four/characters/as/they/are/found/in/the/wild/2024#", "urn:a", "urn:b", "urn:A", "http://x.example/ns#1", "urn:a/", "urn:c", "tag:é,2024:ns", "http://x.example/ns", "b",
];
const PREFIXES: [&str; 8] = ["p", "q", "r", "my-ns.v1", "P", "xsi", "a.b", "p"];
const TAGS: [&str; 19] = [
    "an-element-name-of-more-than-thirty-two-characters.and_some_more",
    "item", "Item", "ITEM", "a", "x-1", "n.v1", "名", "entry", "_u", "it", "items", "é", "Entry", "b2", "a.b-c", "type", "Value", "X",
];
const TYPE_IDENTS: [&str; 20] = [
    "Foo", "Bar", "Item", "Entry", "HttpServer", "X", "r#type", "Leaf", "Person", "Élan", "Node", "A1", "Record", "Group",
    "lower", "Snake_Case", "r#fn", "Outer", "Part", "Value",
];
const FIELD_IDENTS: [&str; 38] = [
    "deserializer", "serializer", "element", "nested", "new", "result", "current",
    "a_field_name_that_is_quite_a_bit_longer_than_the_usual_ones_are",
    "a", "b", "foo_bar", "x1", "id", "value", "foo__bar", "trail_", "r#type", "r#match", "n_1_x", "c", "name", "lang", "item",
    "some_long_field_name", "é", "q", "r#in", "fld2", "caf_é", "kind", "ns", "text", "attr", "data", "node", "field", "into",
    "id2",
];
const VARIANTS: [&str; 16] = [
    "Foo", "Bar", "FooBar", "HTTPServer", "A", "B", "A1B2", "X", "r#type", "Snake_Case", "Élan", "VeryLongVariantName", "T", "Foo1",
    "FOO", "Y",
];
const VARIANT_RENAMES: [&str; 19] = [
    "a variant name of more than thirty-two characters, with spaces",
    "", " ", "foo", "Foo ", "a&b", "<x>", "1", "é", "foo-bar", "\"q\"", "it's", "]]>", "TRUE", "x y", "&amp;", "0", "foo", "A",
];

// identifiers put together: what the rules do with words, digits, runs of capitals and letters beyond ASCII
const FIELD_WORDS: [&str; 26] = [
    "a", "foo", "bar", "x1", "b2c", "Bar", "URL", "fooBar", "é", "日本", "Éa", "ω", "Ωm", "ß", "q", "long", "n0", "zZ", "i", "caf",
    "a1b1", "x2y22z2", "v10", "aXbX", "mm", "o1o",
];
const VARIANT_PIECES: [&str; 25] = [
    "Foo", "bar", "B", "A1", "X2y", "URL", "É", "Élan", "é", "Ω", "ω", "日本", "_", "_b", "Bß", "Q", "9", "10a", "İ", "Ж", "ж", "Long",
    "b1", "__", "ABAB",
];

pub const THEMES: [&str; 17] = [
    "mixed", "naming", "ns", "attrs", "direct", "tuple", "transparent", "forward", "enum", "lists", "options", "borrow", "hooks",
    "generic", "force", "recursive", "large",
];

pub fn parse_themes(list: &str) -> Vec<&'static str> {
    list.split(',').filter(|t| !t.is_empty()).map(|t| *THEMES.iter().find(|x| **x == t).expect("unknown theme")).collect()
}

struct Gen<'s> {
    s: &'s mut Src,
    f: Family,
    idents: BTreeSet<String>,
}

/// `themes`: names to choose from, all if empty
pub fn gen_family(seed: u64, id: usize, themes: &[&'static str]) -> Family {
    let themes = if themes.is_empty() { &THEMES[..] } else { themes };
    let theme = themes[id % themes.len()];
    let mut s = Src::random(mix(&[seed, 0xFA71, id as u64, crate::src::hash_str(theme)]));
    let large = theme == "large";
    let nuris = if large { 3 + s.idx(8) } else { 2 + s.idx(3) };
    let mut pool: Vec<&str> = URIS.to_vec();
    let mut uris = Vec::new();
    if large {
        // so many that no small table holds them
        uris.extend((0..s.idx(30)).map(|i| format!("urn:ns:{i}")));
    }
    for _ in 0..nuris {
        let i = s.idx(pool.len());
        uris.push(pool.remove(i).to_owned());
    }
    // the empty namespace can be written out, too
    if s.chance(1, 3) {
        uris.insert(s.idx(uris.len() + 1), String::new());
    }
    if s.chance(if matches!(theme, "ns" | "attrs" | "force") { 1 } else { 0 }, 2) {
        uris.insert(s.idx(uris.len() + 1), XML_URI.to_owned());
    }
    let f = Family { id, theme, uris, types: Vec::new() };
    let mut g = Gen { s: &mut s, f, idents: BTreeSet::new() };
    g.run();
    g.f
}

impl Gen<'_> {
    fn run(&mut self) {
        let theme = self.f.theme;
        use Kind::*;
        let n = 4 + self.s.idx(if theme == "large" { 8 } else { 3 });
        let mut kinds: Vec<Kind> = Vec::new();
        for i in 0..n - 1 {
            // Named, Tuple, Unit, Transparent, ScalarEnum, Forward
            let mut w: [u64; 6] = match theme {
                "tuple" => [3, 6, 2, 0, 1, 1],
                "transparent" => [4, 1, 2, 5, 0, 1],
                "forward" => [4, 2, 2, 0, 0, 5],
                "enum" => [3, 1, 0, 0, 6, 1],
                "borrow" => [6, 0, 0, 0, 1, 0],
                _ => [7, 2, 2, 2, 3, 2],
            };
            if i < 2 {
                w[1] = 1;
                w[3] = 0;
                w[5] = 0;
            }
            if i == 0 {
                w[2] += 2;
            }
            let k = self.s.weighted(&w);
            kinds.push([Named, Tuple, Unit, Transparent, ScalarEnum, Forward][k]);
        }
        kinds.push(Named);
        for (i, k) in kinds.iter().enumerate() {
            let last = i + 1 == kinds.len();
            if let Some(t) = self.typedef(*k, last) {
                self.f.types.push(t);
            }
        }
    }

    fn uri_where(&mut self, ok: fn(&str) -> bool) -> usize {
        let mut c: Vec<usize> = (0..self.f.uris.len()).filter(|i| ok(&self.f.uris[*i])).collect();
        if self.f.theme == "force" && self.s.chance(2, 3) {
            // types that force the prefix of the namespace they are in
            let main = |i: &usize| !self.f.uris[*i].is_empty() && self.f.uris[*i] != XML_URI;
            let first = c.iter().copied().find(main);
            c = first.map_or(c, |i| vec![i]);
        }
        *self.s.pick(&c)
    }

    /// A namespace elements can be in
    fn element_uri(&mut self) -> usize {
        self.uri_where(|u| u != XML_URI)
    }

    /// A namespace that can have a prefix
    fn prefix_uri(&mut self) -> usize {
        self.uri_where(|u| !u.is_empty())
    }

    fn type_ident(&mut self) -> String {
        loop {
            let base = match self.f.theme {
                "naming" if self.s.chance(1, 3) => format!("{}{}", self.s.pick(&TYPE_IDENTS[..4]).trim_start_matches("r#"), self.variant_ident().trim_start_matches("r#")),
                _ => (*self.s.pick(&TYPE_IDENTS)).to_owned(),
            };
            let cand = match self.idents.contains(&base) {
                false => base,
                true => format!("{}{}", names::unraw(&base), self.s.idx(100)),
            };
            if self.idents.insert(cand.clone()) {
                return cand;
            }
        }
    }

    fn base(&mut self, kind: Kind) -> TypeDef {
        let theme = self.f.theme;
        let ident = self.type_ident();
        let nsy = matches!(theme, "ns" | "force" | "attrs");
        let mut t = TypeDef {
            ident,
            kind,
            rename: None,
            rename_all: Case::None,
            ns: None,
            prefixes: Vec::new(),
            force_prefix: false,
            fields: Vec::new(),
            variants: Vec::new(),
            lifetime: false,
            generic: None,
            read_only: false,
            ns_style: self.s.idx(3) as u8,
        };
        if matches!(kind, Kind::Named | Kind::Tuple | Kind::Unit) {
            if self.s.chance(2, 5) {
                t.rename = Some((*self.s.pick(&TAGS)).to_owned());
            }
            if self.s.chance(if nsy { 4 } else { 3 }, 5) {
                t.ns = Some(self.element_uri());
            }
            let np = match (theme, self.s.chance(if nsy { 4 } else { 2 }, 5)) {
                ("large", _) => *self.s.pick(&[0, 1, 3, 5, 9, 17, 22]),
                (_, true) => 1 + self.s.idx(if nsy { 3 } else { 2 }),
                _ => 0,
            };
            for i in 0..np {
                let mut p = match i > 2 && self.s.chance(3, 4) {
                    true => format!("n{i}"),
                    false => (*self.s.pick(&PREFIXES)).to_owned(),
                };
                let u = self.prefix_uri();
                if self.f.uris[u] == XML_URI {
                    p = "xml".into();
                }
                if !t.prefixes.iter().any(|(q, _)| *q == p) {
                    t.prefixes.push((p, u));
                }
            }
            if self.s.chance(if theme == "force" { 3 } else { 1 }, if theme == "force" { 5 } else { 10 }) {
                t.force_prefix = true;
            }
        }
        if matches!(kind, Kind::ScalarEnum) && self.s.chance(1, 4) {
            t.ns = Some(self.element_uri());
        }
        if matches!(kind, Kind::Named | Kind::ScalarEnum | Kind::Tuple | Kind::Transparent)
            && self.s.chance(if theme == "naming" { 4 } else { 1 }, if theme == "naming" { 5 } else { 3 })
        {
            t.rename_all = self.s.pick(&CASES).0;
        }
        t
    }

    fn refs(&self, kinds: &[Kind]) -> Vec<usize> {
        (0..self.f.types.len())
            .filter(|i| kinds.contains(&self.f.types[*i].kind) && !self.f.types[*i].read_only)
            .collect()
    }

    fn typedef(&mut self, kind: Kind, last: bool) -> Option<TypeDef> {
        use Kind::*;
        let mut t = self.base(kind);
        match kind {
            Unit => {}
            ScalarEnum => self.scalar_enum(&mut t),
            Forward => {
                let mut refs = self.refs(&[Named, Tuple, Unit, Forward]);
                refs.retain(|r| !self.f.types[*r].lifetime);
                let want = 1 + self.s.idx(if self.f.theme == "large" { 10 } else { 4 });
                let mut seen: BTreeSet<(String, String)> = BTreeSet::new();
                let mut used = BTreeSet::new();
                let mut tries = 0;
                while t.variants.len() < want && tries < 20 && !refs.is_empty() {
                    tries += 1;
                    let r = *self.s.pick(&refs);
                    let boxed = self.s.chance(1, 5);
                    let m = self.f.matched(&Ty::Ref(r), None).unwrap();
                    if m.iter().any(|x| seen.contains(x)) {
                        continue;
                    }
                    seen.extend(m);
                    let mut ident = self.variant_ident();
                    while !used.insert(ident.clone()) {
                        ident.push('Z');
                    }
                    t.variants.push(Variant {
                        ident,
                        rename: None,
                        disc: None,
                        wire: String::new(),
                        ty: Some(if boxed { Ty::bx(Ty::Ref(r)) } else { Ty::Ref(r) }),
                    });
                }
                if t.variants.is_empty() {
                    return None;
                }
            }
            Transparent => {
                self.transparent(&mut t);
                if t.fields.is_empty() {
                    return None;
                }
            }
            Tuple => {
                t.rename_all = Case::None;
                self.tuple(&mut t)
            }
            Named => self.named(&mut t, last),
        }
        Some(t)
    }

    fn plain(&self, ident: String, ty: Ty) -> Field {
        Field {
            wire: names::unraw(&ident).to_owned(),
            ident,
            rename: None,
            role: Role::Element,
            ns: None,
            ty,
            borrow: false,
            hook: false,
        }
    }

    fn transparent(&mut self, t: &mut TypeDef) {
        use Kind::*;
        let theme = self.f.theme;
        t.lifetime = self.s.chance(if theme == "borrow" { 4 } else { 1 }, 8);
        let mut refs = self.refs(&[Named, Tuple, Unit, Forward, Transparent]);
        if !t.lifetime {
            refs.retain(|r| !self.f.types[*r].lifetime);
        }
        let enums = self.refs(&[ScalarEnum]);
        let want = 1 + self.s.idx(4);
        let mut seen: BTreeSet<(String, String)> = BTreeSet::new();
        let mut tries = 0;
        while t.fields.len() < want && tries < 20 {
            tries += 1;
            let ident = self.field_ident(t);
            let wire = names::field(t.rename_all, &ident);
            let mut f = Field { wire, ..self.plain(ident, Ty::Any) };
            if self.s.chance(1, 4) {
                let r = (*self.s.pick(&TAGS)).to_owned();
                f.wire = r.clone();
                f.rename = Some(r);
            }
            if self.s.chance(if matches!(theme, "ns" | "force") { 2 } else { 1 }, 4) {
                f.ns = Some(self.element_uri());
            }
            let core = match self.s.below(5) {
                0 if !enums.is_empty() => Ty::Ref(*self.s.pick(&enums)),
                0 | 1 => Ty::Sc(self.scalar()),
                _ if refs.is_empty() => Ty::Sc(self.scalar()),
                _ => Ty::Ref(*self.s.pick(&refs)),
            };
            let is_sc = matches!(core, Ty::Sc(_));
            let life = matches!(core, Ty::Ref(r) if self.f.types[r].lifetime);
            let transp = matches!(core, Ty::Ref(r) if self.f.types[r].kind == Transparent);
            if theme == "hooks" && is_sc && self.s.chance(1, 2) {
                f.ty = Ty::Sc(ScK::Disp);
                f.hook = true;
            } else if t.lifetime && is_sc && self.s.chance(1, 2) {
                f.ty = Ty::Sc(ScK::Cow);
                f.borrow = true;
            } else {
                f.borrow = life;
                f.ty = match self.s.below(10) {
                    4 | 5 => Ty::opt(core),
                    6 if !transp => Ty::vec(core),
                    7 if !transp => Ty::bx(core),
                    8 if !transp => Ty::opt(Ty::bx(core)),
                    9 if !transp && !life => Ty::CowList(Box::new(core)),
                    _ => core,
                };
            }
            let id = self.f.field_id(t, &f);
            let m = self.f.matched(&f.ty, Some(id)).unwrap();
            if m.iter().any(|x| seen.contains(x)) {
                continue;
            }
            seen.extend(m);
            t.fields.push(f);
        }
        // a lifetime needs a field that uses it
        if t.lifetime && !t.fields.iter().any(|f| f.borrow) {
            t.lifetime = false;
        }
        if !t.lifetime && self.s.chance(if theme == "generic" { 1 } else { 0 }, 2) {
            let cand: Vec<usize> =
                (0..t.fields.len()).filter(|i| !t.fields[*i].hook && !matches!(t.fields[*i].ty, Ty::CowList(_))).collect();
            if !cand.is_empty() {
                t.generic = Some(*self.s.pick(&cand));
            }
        }
    }

    fn scalar_enum(&mut self, t: &mut TypeDef) {
        let want = match self.f.theme {
            "naming" => 1 + self.s.idx(20),
            "large" => *self.s.pick(&[1, 17, 33, 70]),
            _ => 1 + self.s.idx(6),
        };
        let mut wires: BTreeSet<String> = BTreeSet::new();
        let mut idents: BTreeSet<String> = BTreeSet::new();
        // discriminants must be unique as numbers too: explicit ones far from implicit ones
        let use_disc = self.s.chance(1, 3);
        let mut next = 0u64;
        let mut tries = 0;
        while t.variants.len() < want && tries < 60.max(3 * want) {
            tries += 1;
            let mut ident = self.variant_ident();
            if self.f.theme == "large" && tries > 10 {
                ident = format!("{}{tries}", names::unraw(&ident));
            }
            if idents.contains(names::unraw(&ident)) {
                continue;
            }
            let mut v = Variant { wire: names::variant(t.rename_all, &ident), ident, rename: None, disc: None, ty: None };
            match self.s.below(4) {
                0 => {
                    let r = (*self.s.pick(&VARIANT_RENAMES)).to_owned();
                    v.wire = r.clone();
                    v.rename = Some(r);
                    next += use_disc as u64;
                }
                1 if use_disc => {
                    next += 1 + self.s.below(100);
                    let text = match self.s.below(4) {
                        0 => match next % 3 {
                            0 => format!("0b{next:b}"),
                            1 => format!("0o{next:o}"),
                            _ => format!("0x{next:x}"),
                        },
                        1 => format!("{next}_isize"),
                        _ => next.to_string(),
                    };
                    v.wire = next.to_string();
                    v.disc = Some((text, next));
                }
                _ => {
                    if use_disc {
                        next += 1;
                    }
                }
            }
            if !wires.insert(v.wire.clone()) {
                continue;
            }
            idents.insert(names::unraw(&v.ident).to_owned());
            t.variants.push(v);
        }
    }

    fn scalar(&mut self) -> ScK {
        match self.s.below(3) {
            0 => ScK::Str,
            _ => *self.s.pick(&SCALARS),
        }
    }

    fn random_ident(&mut self) -> bool {
        match self.f.theme {
            "naming" => self.s.chance(2, 3),
            _ => self.s.chance(1, 8),
        }
    }

    fn joined_field(&mut self) -> String {
        let mut id = String::new();
        if self.s.chance(1, 6) {
            id.push('_');
        }
        for i in 0..1 + self.s.idx(4) {
            if i > 0 {
                id.push_str(*self.s.pick(&["_", "_", "_", "__", "___"]));
            }
            id.push_str(*self.s.pick(&FIELD_WORDS));
        }
        if self.s.chance(1, 6) {
            id.push('_');
        }
        id
    }

    fn variant_ident(&mut self) -> String {
        if !self.random_ident() {
            return (*self.s.pick(&VARIANTS)).to_owned();
        }
        loop {
            let mut id = String::new();
            if self.s.chance(1, 8) {
                id.push('_');
            }
            for _ in 0..1 + self.s.idx(4) {
                id.push_str(*self.s.pick(&VARIANT_PIECES));
            }
            if !id.starts_with(|c: char| c.is_ascii_digit()) && id.chars().any(|c| c != '_') {
                return id;
            }
        }
    }

    fn field_ident(&mut self, t: &TypeDef) -> String {
        let mut tries = 0;
        loop {
            tries += 1;
            let mut id = match self.random_ident() {
                true => self.joined_field(),
                false => (*self.s.pick(&FIELD_IDENTS)).to_owned(),
            };
            if tries > 20 {
                id = format!("{}_{}", names::unraw(&id), self.s.idx(1000));
            }
            let clash = t.fields.iter().any(|f| names::unraw(&f.ident) == names::unraw(&id));
            if !clash && names::is_ncname(&names::field(t.rename_all, &id)) {
                return id;
            }
        }
    }

    fn tuple(&mut self, t: &mut TypeDef) {
        use Kind::*;
        let mut refs = self.refs(&[Named, Tuple, Unit, Forward]);
        refs.retain(|r| !self.f.types[*r].lifetime);
        let enums = self.refs(&[ScalarEnum]);
        let mode = if refs.is_empty() { 0 } else { self.s.below(4) };
        if mode == 0 {
            // newtype around a scalar
            let ty = match self.s.below(4) {
                0 if !enums.is_empty() => Ty::Ref(*self.s.pick(&enums)),
                1 => Ty::bx(Ty::Sc(self.scalar())),
                _ => Ty::Sc(self.scalar()),
            };
            t.fields.push(self.plain("0".into(), ty));
            return;
        }
        let n = 1 + self.s.idx(3);
        for i in 0..n {
            let r = *self.s.pick(&refs);
            let ty = match self.s.below(5) {
                0 => Ty::bx(Ty::Ref(r)),
                1 if i + 1 == n => Ty::opt(Ty::Ref(r)),
                _ => Ty::Ref(r),
            };
            t.fields.push(self.plain(i.to_string(), ty));
        }
        if mode == 3 && !matches!(t.fields[n - 1].ty, Ty::Opt(_)) {
            let ty = Ty::Sc(self.scalar());
            t.fields.push(self.plain(n.to_string(), ty));
        }
    }

    fn named(&mut self, t: &mut TypeDef, last: bool) {
        use Kind::*;
        let theme = self.f.theme;
        let n = match (last, self.s.below(8)) {
            (true, v) if theme == "large" => [18, 20, 33, 34, 35, 40, 66, 70][v as usize],
            (false, 7) if theme == "large" => 12,
            (true, 7) if matches!(theme, "mixed" | "attrs" | "naming" | "options") => 20,
            (true, v) => 3 + v as usize % 5,
            (false, 0) => 0,
            (false, v) => 1 + v as usize % 4,
        };
        let attr_w = match theme {
            "attrs" => 5,
            _ => 2,
        };
        if theme == "borrow" && self.s.chance(4, 5) {
            t.lifetime = true;
        } else if self.s.chance(1, 20) {
            t.lifetime = true;
        }
        let mut elems: BTreeSet<(String, String)> = BTreeSet::new();
        let mut attrs: BTreeSet<(String, String)> = BTreeSet::new();
        let enums = self.refs(&[ScalarEnum]);
        let mut tries = 0;
        let mut want_direct = self.s.chance(if theme == "direct" { 4 } else { 1 }, 6);
        if last && theme == "direct" {
            want_direct = true;
        }
        let self_ix = self.f.types.len();
        let mut recursive = theme == "recursive" && !last;
        while t.fields.len() < n && tries < 60.max(3 * n) {
            tries += 1;
            let ident = self.field_ident(t);
            let mut f = Field {
                wire: names::field(t.rename_all, &ident),
                ident,
                rename: None,
                role: Role::Element,
                ns: None,
                ty: Ty::Sc(ScK::Str),
                borrow: false,
                hook: false,
            };
            if self.s.chance(1, 4) {
                let r = (*self.s.pick(&TAGS)).to_owned();
                f.wire = r.clone();
                f.rename = Some(r);
            }
            let mut refs = self.refs(&[Named, Tuple, Unit, Forward, Transparent]);
            if !t.lifetime {
                refs.retain(|r| !self.f.types[*r].lifetime);
            }
            let has_refs = !refs.is_empty();
            // 0 scalar element, 1 attribute, 2 reference
            let which = match recursive {
                true => 3,
                false => self.s.weighted(&[4, attr_w, if has_refs { if last { 7 } else { 4 } } else { 0 }]),
            };
            match which {
                1 => {
                    f.role = Role::Attribute;
                    let core = match self.s.below(4) {
                        0 => {
                            match enums.is_empty() {
                                true => Ty::Sc(self.scalar()),
                                false => Ty::Ref(*self.s.pick(&enums)),
                            }
                        }
                        _ => Ty::Sc(self.scalar()),
                    };
                    if theme == "hooks" && self.s.chance(1, 2) {
                        f.ty = Ty::Sc(ScK::Disp);
                        f.hook = true;
                    } else if t.lifetime && self.s.chance(1, 2) {
                        f.ty = Ty::Sc(ScK::Cow);
                        f.borrow = true;
                    } else {
                        f.ty = match self.s.below(6) {
                            0 | 1 => Ty::opt(core.clone()),
                            2 => Ty::bx(core.clone()),
                            _ => core.clone(),
                        };
                    }
                    let candidates: Vec<usize> = t.prefixes.iter().map(|(_, u)| *u).collect();
                    if !candidates.is_empty() && self.s.chance(1, 2) {
                        f.ns = Some(*self.s.pick(&candidates));
                    }
                }
                3 => {
                    recursive = false;
                    f.ty = match self.s.below(3) {
                        0 => Ty::opt(Ty::bx(Ty::Ref(self_ix))),
                        1 => Ty::vec(Ty::Ref(self_ix)),
                        _ => Ty::vec(Ty::bx(Ty::Ref(self_ix))),
                    };
                    f.borrow = t.lifetime;
                    let id = (self.f.uri(t.ns).to_owned(), t.tag().to_owned());
                    if !elems.insert(id) {
                        continue;
                    }
                    f.wire = names::field(t.rename_all, &f.ident);
                    f.rename = None;
                    t.fields.push(f);
                    continue;
                }
                w => {
                    let core = if w == 2 {
                        // prefer types nobody uses yet
                        let unused: Vec<usize> = refs
                            .iter()
                            .copied()
                            .filter(|r| !self.f.types.iter().any(|d| uses(d, *r)) && !t.fields.iter().any(|f| *f.ty.core() == Ty::Ref(*r)))
                            .collect();
                        match unused.is_empty() || self.s.chance(1, 4) {
                            true => Ty::Ref(*self.s.pick(&refs)),
                            false => Ty::Ref(*self.s.pick(&unused)),
                        }
                    } else {
                        match self.s.below(4) {
                            0 if !enums.is_empty() => Ty::Ref(*self.s.pick(&enums)),
                            _ => Ty::Sc(self.scalar()),
                        }
                    };
                    let transp = matches!(&core, Ty::Ref(r) if self.f.types[*r].kind == Transparent);
                    let is_sc = matches!(core, Ty::Sc(_));
                    let (wl, wo) = match theme {
                        "lists" => (8, 2),
                        "options" => (2, 8),
                        _ => (4, 3),
                    };
                    if theme == "hooks" && is_sc && self.s.chance(1, 2) {
                        f.ty = Ty::Sc(ScK::Disp);
                        f.hook = true;
                    } else if t.lifetime && is_sc && self.s.chance(1, 2) {
                        f.ty = Ty::Sc(ScK::Cow);
                        f.borrow = true;
                    } else {
                        // plain, option, list, box, option box, list box, cow list, option list
                        let w: [u64; 8] = match transp {
                            true => [6, wo, 0, 0, 0, 0, 0, 0],
                            false => [6, wo, wl, 1, 1, 1, if matches!(&core, Ty::Ref(r) if self.f.types[*r].lifetime) { 0 } else { 1 }, 1],
                        };
                        f.ty = match self.s.weighted(&w) {
                            0 => core.clone(),
                            1 => Ty::opt(core.clone()),
                            2 => Ty::vec(core.clone()),
                            3 => Ty::bx(core.clone()),
                            4 => Ty::opt(Ty::bx(core.clone())),
                            5 => Ty::vec(Ty::bx(core.clone())),
                            6 => Ty::CowList(Box::new(core.clone())),
                            _ => Ty::opt(Ty::vec(core.clone())),
                        };
                        if matches!(&core, Ty::Ref(r) if self.f.types[*r].lifetime) {
                            f.borrow = true;
                        }
                    }
                    if self.s.chance(if matches!(theme, "ns" | "force") { 2 } else { 1 }, 4) {
                        f.ns = Some(self.element_uri());
                    }
                }
            }
            let owner = t.clone();
            let id = self.f.field_id(&owner, &f);
            if f.role == Role::Attribute {
                if !attrs.insert((id.0.to_owned(), id.1.to_owned())) {
                    continue;
                }
            } else {
                let m = self.f.matched(&f.ty, Some(id)).unwrap();
                if m.iter().any(|x| elems.contains(x)) {
                    continue;
                }
                elems.extend(m);
            }
            t.fields.push(f);
        }
        if want_direct {
            let ident = self.field_ident(t);
            let core = match self.s.below(4) {
                0 if !enums.is_empty() => Ty::Ref(*self.s.pick(&enums)),
                _ => Ty::Sc(self.scalar()),
            };
            let ty = match self.s.below(6) {
                0 | 1 => Ty::opt(core),
                2 => Ty::bx(core),
                _ => core,
            };
            let mut f = self.plain(ident, ty);
            f.wire = names::field(t.rename_all, &f.ident);
            f.role = Role::Direct;
            t.fields.push(f);
        } else if last && self.s.chance(1, 5) {
            // catch-all
            let ident = self.field_ident(t);
            let mut f = self.plain(ident, Ty::Any);
            f.wire = names::field(t.rename_all, &f.ident);
            f.ty = match self.s.below(3) {
                0 => Ty::opt(Ty::Any),
                1 => Ty::vec(Ty::Any),
                _ => Ty::vec(Ty::Any),
            };
            f.borrow = true;
            t.lifetime = true;
            t.read_only = true;
            t.fields.push(f);
        }
        // a lifetime needs a field that uses it
        if t.lifetime && !t.fields.iter().any(|f| f.borrow && !uses_ty(&f.ty, self_ix)) {
            t.lifetime = false;
            t.fields.iter_mut().for_each(|f| f.borrow = false);
        }
        if (theme == "generic" || self.s.chance(1, 20)) && !t.lifetime {
            let cand: Vec<usize> = (0..t.fields.len())
                .filter(|i| {
                    let f = &t.fields[*i];
                    !f.hook && !f.borrow && !uses_ty(&f.ty, self_ix) && !matches!(f.ty, Ty::CowList(_))
                })
                .collect();
            let self_rec = t.fields.iter().any(|f| uses_ty(&f.ty, self_ix));
            if !cand.is_empty() && !self_rec {
                t.generic = Some(*self.s.pick(&cand));
            }
        }
    }
}

fn uses_ty(ty: &Ty, r: usize) -> bool {
    *ty.core() == Ty::Ref(r)
}

fn uses(d: &TypeDef, r: usize) -> bool {
    d.fields.iter().any(|f| uses_ty(&f.ty, r))
        || d.variants.iter().any(|v| v.ty.as_ref().is_some_and(|t| uses_ty(t, r)))
}
