"""C24: generated derive inputs against the compiler.

A valid derive input must compile.  A derive input with one rule broken must be
rejected by the derive itself: a diagnostic without an error code (compile_error!
or a panic of the macro) whose span lies in the file of that case."""
import copy
import json
import os
import random
import shutil
import subprocess
import tempfile
import time

PRELUDE = r'''
#![allow(dead_code, unused_imports, non_camel_case_types, non_snake_case, unused_variables, unused_mut, type_alias_bounds, uncommon_codepoints)]
pub mod prelude {
    pub use instant_xml::{Accumulate, Deserializer, Error, FromXml, Serializer, ToXml};
    pub use std::borrow::Cow;
    pub const NS_A: &str = "urn:a";
    pub const NS_B: &str = "urn:b";
    pub mod deep {
        pub const NS_C: &str = "urn:c";
    }
    #[derive(Clone, ToXml, FromXml)]
    pub struct El {
        #[xml(attribute)]
        pub id: Option<u8>,
    }
    #[derive(Clone, ToXml, FromXml)]
    #[xml(ns("urn:a"))]
    pub struct ElA;
    #[derive(Clone, ToXml, FromXml)]
    pub struct ElB<'a> {
        #[xml(borrow)]
        pub t: Cow<'a, str>,
    }
    #[derive(Clone, ToXml, FromXml)]
    pub struct ElG<T> {
        pub t: Vec<T>,
    }
    #[derive(Clone, ToXml, FromXml)]
    #[xml(scalar)]
    pub enum Sc {
        A,
        B,
    }
    #[derive(Clone, ToXml, FromXml)]
    #[xml(forward)]
    pub enum Fw {
        El(El),
    }
    pub mod hook {
        use super::*;
        pub fn to<W: std::fmt::Write + ?Sized, T: ToXml>(value: &T, serializer: &mut Serializer<'_, W>) -> Result<(), Error> {
            value.serialize(None, serializer)
        }
        pub fn from<'xml, T: FromXml<'xml>>(into: &mut T::Accumulator, field: &'static str, deserializer: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
            T::deserialize(into, field, deserializer)
        }
        // for a field of type u8
        pub fn from_u8<'xml>(into: &mut Option<u8>, field: &'static str, deserializer: &mut Deserializer<'_, 'xml>) -> Result<(), Error> {
            <u8 as FromXml<'xml>>::deserialize(into, field, deserializer)
        }
    }
}
'''

TYPE_NAMES = ["Plain", "Item", "Value", "Node", "Error", "Id", "Kind", "Serializer2", "Deserialize", "Elements", "Some_thing",
              "r#type", "r#Move", "Größe", "T1", "X", "lower", "SHOUT", "Context2", "Attributes", "__Thing", "Data", "Text", "Prefix", "W", "Self_"]
FIELD_NAMES = ["a", "b", "name", "value", "r#type", "r#match", "deserializer", "serializer", "node", "id", "field", "data", "nested",
               "attr", "element", "new", "into", "namespaces_map", "seen_direct", "self_", "text", "inner", "current", "result", "acc",
               "default_ns", "prefixes", "größe", "x1", "_x", "__value0", "W", "ok", "cow_str", "with", "ns", "prefix", "item", "err"]
VARIANT_NAMES = ["A", "B", "One", "Two", "Value", "Other", "None_", "Node", "Größe", "r#Type", "X1", "El", "SHOUT", "Ok_", "Open"]
CASES = ["lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE"]
PREFIXES = ["p", "q", "my-ns", "v1.x2", "a_b", "xsi", "my-ns.v1", "P"]
NS_EXPRS = ['"urn:a"', '"urn:b"', "NS_A", "NS_B", "deep::NS_C", "crate::prelude::NS_A", "crate::prelude::deep::NS_C", "self::deep::NS_C", '""', 'r"urn:raw"', '"urn:ü"', "::std::env::consts::OS"]
SCALARS = ["u8", "i32", "u64", "bool", "char", "String", "f64", "Sc", "std::string::String", "i16", "std::net::IpAddr", "usize"]
ELEMENTS = ["El", "ElA", "ElG<u8>", "crate::prelude::El", "ElG<String>"]
DOCS = ["/// text\n", "#[allow(dead_code)]\n", "/** text */\n", "#[doc(hidden)]\n", "#[cfg(all())]\n"]


def xattrs(attrs, raw, split):
    """The xml attributes: one with all the parts, or one for each"""
    parts = ["#[xml(%s)]\n" % a for a in attrs] if split else ["#[xml(%s)]\n" % ", ".join(attrs)] if attrs else []
    if raw is None:
        return "".join(parts)
    return "".join(parts if split else []) + raw


class Field:
    split = False

    def __init__(self, name, ty, attrs=(), keep=False):
        self.name, self.ty, self.attrs, self.keep = name, ty, list(attrs), keep
        self.outer, self.vis, self.raw = "", "", None

    def render(self, tuple_):
        x = xattrs(self.attrs, self.raw, self.split)
        return self.outer + x + self.vis + (self.ty if tuple_ else "%s: %s" % (self.name, self.ty))


class Variant:
    split = False

    def __init__(self, name, body="", attrs=(), disc=""):
        self.name, self.body, self.attrs, self.disc = name, body, list(attrs), disc
        self.outer, self.keep, self.raw = "", False, None

    def render(self):
        x = xattrs(self.attrs, self.raw, self.split)
        return self.outer + x + self.name + self.body + (" = " + self.disc if self.disc else "")


class Item:
    """kind: named, transparent, tuple, unit, scalar, forward, raw"""

    def __init__(self, kind, name):
        self.kind, self.name = kind, name
        self.cattrs, self.keep_cattrs = [], set()
        self.fields, self.variants = [], []
        self.generics, self.where = [], ""  # [(name, declaration)]
        self.outer, self.vis, self.raw, self.raw_item = "", "", None, None
        self.copy_ = False
        self.split = False  # every part in an attribute of its own
        self.in_macro = False  # declared by a macro that gets the types of its fields

    def used(self, name):
        key = name.strip("'")
        text = " ".join([f.ty for f in self.fields] + [v.body for v in self.variants])
        if name.startswith("'"):
            return name in text
        return any(tok == key for tok in "".join(c if c.isalnum() or c == "_" else " " for c in text).split())

    def render(self, derives):
        if self.in_macro and self.kind in ("named", "tuple", "transparent") and self.raw_item is None:
            c = copy.deepcopy(self)
            c.in_macro = False
            # the lifetime and type parameters are those of the original types
            c.generics = [(n, d) for n, d in self.generics if n.isupper() and d.startswith("const") or self.used(n)]
            if len(c.generics) < len(self.generics):
                c.where = ""
            c.force_generics = True
            for i, f in enumerate(c.fields):
                f.ty = "$t%d" % i
            params = ", ".join("$t%d:ty" % i for i in range(len(c.fields)))
            return "macro_rules! mk { (%s) => {\n%s} }\nmk!(%s);\n" % (params, c.render(derives), ", ".join(f.ty for f in self.fields))
        gs = self.generics if getattr(self, "force_generics", False) else [(n, d) for n, d in self.generics if n.isupper() and d.startswith("const") or self.used(n)]
        g = "<%s>" % ", ".join(d for _, d in gs) if gs else ""
        w = self.where if self.where and all(n in [x for x, _ in gs] for n, _ in self.generics) else ""
        c = xattrs(self.cattrs, self.raw, self.split)
        for x in self.fields + self.variants:
            x.split = self.split
        d = ("#[derive(%s)]\n" % ", ".join(derives)) if derives else ""
        head = self.outer + d + c
        if self.raw_item is not None:
            return head + self.raw_item + "\n"
        if self.kind == "unit":
            return head + "%sstruct %s%s%s;\n" % (self.vis, self.name, g, w)
        if self.kind == "tuple":
            return head + "%sstruct %s%s(\n%s\n)%s;\n" % (self.vis, self.name, g, ",\n".join(f.render(True) for f in self.fields), w)
        if self.kind in ("named", "transparent"):
            return head + "%sstruct %s%s%s {\n%s\n}\n" % (self.vis, self.name, g, w, ",\n".join(f.render(False) for f in self.fields))
        return head + "%senum %s%s%s {\n%s\n}\n" % (self.vis, self.name, g, w, ",\n".join(v.render() for v in self.variants))

    def reductions(self):
        for i, f in enumerate(self.fields):
            if not f.keep and (self.kind == "named" or len(self.fields) > 1):
                c = copy.deepcopy(self)
                del c.fields[i]
                yield c
            if f.outer or f.vis:
                c = copy.deepcopy(self)
                c.fields[i].outer = c.fields[i].vis = ""
                yield c
            if not f.keep and f.attrs:
                for j in range(len(f.attrs)):
                    if f.attrs[j] in ("direct",) or f.attrs[j].startswith("deserialize_with"):
                        continue
                    c = copy.deepcopy(self)
                    del c.fields[i].attrs[j]
                    yield c
            if f.name not in ("a", "b", "c", "d") and not f.keep:
                c = copy.deepcopy(self)
                free = [n for n in ("a", "b", "c", "d") if n not in [x.name for x in self.fields]]
                if free:
                    c.fields[i].name = free[0]
                    yield c
        for i, v in enumerate(self.variants):
            if not v.keep and len(self.variants) > 1:
                c = copy.deepcopy(self)
                del c.variants[i]
                yield c
            if not v.keep and v.attrs:
                c = copy.deepcopy(self)
                c.variants[i].attrs = []
                yield c
            if v.outer:
                c = copy.deepcopy(self)
                c.variants[i].outer = ""
                yield c
        for i, a in enumerate(self.cattrs):
            if a not in self.keep_cattrs and a not in ("scalar", "forward", "transparent"):
                c = copy.deepcopy(self)
                del c.cattrs[i]
                yield c
        if self.in_macro:
            c = copy.deepcopy(self)
            c.in_macro = False
            yield c
        if self.split:
            c = copy.deepcopy(self)
            c.split = False
            yield c
        if self.where or self.outer or self.vis:
            c = copy.deepcopy(self)
            c.where = c.outer = c.vis = ""
            yield c
        if self.name != "Plain" and self.raw_item is None:
            c = copy.deepcopy(self)
            c.name = "Plain"
            yield c


# ---- valid items

def g_docs(r):
    return r.choice(DOCS) if r.random() < 0.15 else ""


def g_vis(r):
    return r.choice(["pub ", "pub(crate) ", "pub(super) "]) if r.random() < 0.25 else ""


def g_ns(r, with_uri=None):
    parts = []
    if with_uri is not False and (with_uri or r.random() < 0.8):
        parts.append(r.choice(NS_EXPRS))
    for p in r.sample(PREFIXES, r.choice([0, 0, 1, 1, 2, 3])):
        if not parts and p == "xsi" and r.random() < 0.5:
            continue
        parts.append("%s = %s" % (p, r.choice([e for e in NS_EXPRS if e != '""'])))
    if not parts:
        parts.append('"urn:z"')
    return "ns(%s)" % ", ".join(parts)


def g_container(r, kind):
    out = []
    if kind in ("named", "tuple", "unit", "scalar", "forward") and r.random() < 0.5:
        out.append(g_ns(r))
    if kind in ("named", "tuple", "unit") and r.random() < 0.3:
        out.append('rename = %s' % r.choice(['"tag"', '"Other-tag"', 'r"tag"', '"größe"']))
    if kind in ("named", "tuple", "unit", "scalar", "transparent") and r.random() < 0.3:
        out.append('rename_all = "%s"' % r.choice(CASES))
    if kind in ("named", "tuple", "unit") and r.random() < 0.25:
        out.append("force_prefix")
    if kind in ("scalar", "forward", "transparent"):
        out.append(kind)
    r.shuffle(out)
    return out


def g_generics(r, item):
    item.generics = []
    if r.random() < 0.2:
        item.generics.append(("'a", "'a"))
        if r.random() < 0.3:
            item.generics.append(("'b", "'b"))
    if r.random() < 0.2:
        n = r.choice([n for n in ["T", "W", "Ty", "K", "Node2"] if n != item.name])
        item.generics.append((n, n + r.choice(["", ": Clone", ": 'static + Clone", " = u8"] if item.kind != "x" else [""])))
    if item.generics and not any("=" in d for _, d in item.generics) and r.random() < 0.15:
        item.generics.append(("N", "const N: usize"))
    ts = [n for n, d in item.generics if not n.startswith("'") and n != "N" and ":" not in d and "=" not in d]
    if ts and r.random() < 0.4:
        item.where = " where %s: Clone" % ts[0]


def names(r, n, pool):
    return r.sample(pool, n)


def lifetimes(item):
    return [n for n, _ in item.generics if n.startswith("'")]


def typars(item):
    return [n for n, _ in item.generics if not n.startswith("'") and n != "N"]


def g_elem_field(r, item, name):
    k = r.random()
    lts, tps = lifetimes(item), typars(item)
    attrs = []
    if lts and k < 0.35:
        lt = r.choice(lts)
        ty = r.choice(["Cow<%s, str>", "std::borrow::Cow<%s, str>", "ElB<%s>", "Vec<ElB<%s>>", "Option<ElB<%s>>"]) % lt
        attrs.append("borrow")
    elif tps and k < 0.6:
        ty = r.choice(["%s", "Option<%s>", "Vec<%s>", "ElG<%s>"]) % r.choice(tps)
    elif k < 0.8:
        ty = r.choice(["%s", "Option<%s>", "Vec<%s>", "Box<%s>"]) % r.choice(SCALARS)
    else:
        ty = r.choice(["%s", "Option<%s>", "Vec<%s>", "Box<%s>", "std::vec::Vec<%s>"]) % r.choice(ELEMENTS + ["Fw"])
    if r.random() < 0.2:
        attrs.append('rename = "x%d"' % r.randrange(100))
    if r.random() < 0.2:
        attrs.append("ns(%s)" % r.choice(NS_EXPRS))
    if ty == "u8" and r.random() < 0.5:
        attrs.append('deserialize_with = "hook::from_u8"')
    if "borrow" not in attrs and r.random() < 0.15:
        attrs.append('serialize_with = "%s"' % r.choice(["hook::to", "crate::prelude::hook::to"]))
    r.shuffle(attrs)
    return Field(name, ty, attrs)


def g_attr_field(r, item, name):
    attrs = ["attribute"]
    lts, tps = lifetimes(item), typars(item)
    k = r.random()
    if lts and k < 0.3:
        attrs.append("borrow")
        ty = "Cow<%s, str>" % r.choice(lts)
    elif tps and k < 0.3:
        ty = r.choice(["%s", "Option<%s>"]) % r.choice(tps)
    else:
        ty = r.choice(["%s", "Option<%s>"]) % r.choice(SCALARS)
    if r.random() < 0.25:
        attrs.append('rename = "x%d"' % r.randrange(100))
    if r.random() < 0.2:
        attrs.append("ns(%s)" % r.choice(["NS_A", "NS_B"]))
    if ty == "u8" and r.random() < 0.5:
        attrs.append('deserialize_with = "hook::from_u8"')
    r.shuffle(attrs)
    return Field(name, ty, attrs)


def g_item(r, kind):
    item = Item(kind, r.choice(TYPE_NAMES))
    item.cattrs = g_container(r, kind)
    item.outer = g_docs(r)
    item.vis = g_vis(r)
    item.split = r.random() < 0.3
    if kind in ("named", "tuple", "transparent"):
        g_generics(r, item)
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 5])
    if kind == "named":
        # the names of the generics cannot also be used by the type
        ns = names(r, n + 1, FIELD_NAMES)
        item.fields = [(g_attr_field if r.random() < 0.35 else g_elem_field)(r, item, x) for x in ns[:n]]
        if r.random() < 0.35:
            item.fields.append(Field(ns[n], r.choice(["String", "Option<String>", "u8", "Option<u32>", "bool", "Sc", "Option<Sc>", "char"]), ["direct"]))
    elif kind == "transparent":
        ns = names(r, max(n, 1), FIELD_NAMES)
        for x in ns:
            ty = r.choice(["%s", "Option<%s>", "Vec<%s>"])
            lts, tps = lifetimes(item), typars(item)
            if lts and r.random() < 0.5:
                item.fields.append(Field(x, ty % ("ElB<%s>" % r.choice(lts)), ["borrow"]))
            elif tps and r.random() < 0.5:
                item.fields.append(Field(x, ty % ("ElG<%s>" % r.choice(tps))))
            elif r.random() < 0.5:
                item.fields.append(g_elem_field(r, item, x))
            else:
                item.fields.append(Field(x, ty % r.choice(ELEMENTS + ["Fw"])))
    elif kind == "tuple":
        item.generics = [(a, b) for a, b in item.generics if not a.startswith("'")]
        for i in range(max(n, 1)):
            tps = typars(item)
            ty = r.choice(tps) if tps and r.random() < 0.4 else r.choice(SCALARS + ELEMENTS + ["Fw", "Option<El>", "Box<El>"])
            item.fields.append(Field(str(i), ty))
    elif kind == "scalar":
        for i, x in enumerate(names(r, max(n, 1), VARIANT_NAMES)):
            v = Variant(x)
            k = r.random()
            if k < 0.25:
                v.attrs = ['rename = "w%d"' % i]
            elif k < 0.5:
                v.disc = r.choice(["%d", "%d_i32" if False else "%d", "0x%x"]) % (10 + i * 7)
            elif k < 0.6:
                v.attrs = ['rename = "w-%d ü"' % i]
            item.variants.append(v)
        if any(v.disc for v in item.variants):
            # an implicit discriminant must not collide
            taken = 1000
            for v in item.variants:
                if not v.disc and not v.attrs:
                    taken += 10
                    v.disc = str(taken)
                elif not v.disc:
                    # no discriminant: one more than the one before, unique thanks to the gaps
                    pass
    elif kind == "forward":
        for x in names(r, max(n, 1), VARIANT_NAMES):
            item.variants.append(Variant(x, "(%s)" % r.choice(ELEMENTS + ["Fw", "Box<El>"])))
    for f in item.fields:
        f.outer, f.vis = g_docs(r), g_vis(r)
    for v in item.variants:
        v.outer = g_docs(r)
    return item


KINDS = ["named", "named", "named", "transparent", "tuple", "unit", "scalar", "forward"]

# ---- broken rules: name -> (derives that enforce it, function(r) -> Item)

RULES = {}


def rule(derives, count=1):
    def add(f):
        RULES[f.__name__] = ("TF" if derives == "both" else derives, f, count)
        return f
    return add


def put(r, l, x):
    l.insert(r.randrange(len(l) + 1), x)


def cattr(r, item, x):
    put(r, item.cattrs, x)
    item.keep_cattrs.add(x)


def with_fields(r, kind="named", least=1):
    while True:
        item = g_item(r, kind)
        if len(item.fields) >= least:
            return item


def struct(r):
    return r.choice(["named", "tuple", "unit"])


def body(item):
    """the item without its direct field"""
    item.fields = [f for f in item.fields if "direct" not in f.attrs]
    return item


def pick(r, item):
    f = r.choice(item.fields)
    f.keep = True
    return f


@rule("both")
def enum_without_mode(r):
    item = g_item(r, r.choice(["scalar", "forward"]))
    item.cattrs = [c for c in item.cattrs if c not in ("scalar", "forward")]
    return item


@rule("both", 2)
def two_modes(r):
    kind = r.choice(KINDS + ["scalar", "scalar", "forward", "forward"])
    item = g_item(r, kind)
    modes = ["scalar", "forward", "transparent"]
    item.cattrs = [c for c in item.cattrs if c not in modes]
    # often next to the mode that the item could have
    first = kind if kind in modes and r.random() < 0.7 else r.choice(modes)
    cattr(r, item, first)
    cattr(r, item, r.choice(modes if kind in ("named", "tuple", "unit", "transparent") else ["scalar", "forward", kind]))
    return item


@rule("both")
def transparent_on_enum(r):
    item = g_item(r, r.choice(["scalar", "forward"]))
    item.cattrs = [c for c in item.cattrs if c not in ("scalar", "forward")]
    cattr(r, item, "transparent")
    return item


@rule("both", 2)
def enum_mode_on_struct(r):
    item = g_item(r, struct(r))
    cattr(r, item, r.choice(["scalar", "forward"]))
    return item


@rule("both")
def force_prefix_on_enum(r):
    item = g_item(r, r.choice(["scalar", "forward"]))
    cattr(r, item, "force_prefix")
    return item


@rule("both", 2)
def direct_not_last(r):
    item = body(with_fields(r))
    if not item.fields:
        item.fields = [Field("a", "u8", ["attribute"])]
    used = {f.name for f in item.fields}
    f = Field(r.choice([n for n in FIELD_NAMES if n not in used]), r.choice(["String", "Option<u8>"]), ["direct"], True)
    i = r.randrange(len(item.fields))
    item.fields.insert(i, f)
    item.fields[i + 1].keep = True
    return item


@rule("both")
def two_direct(r):
    item = body(g_item(r, "named"))
    ns = [n for n in FIELD_NAMES if n not in {f.name for f in item.fields}]
    for n in r.sample(ns, 2):
        item.fields.append(Field(n, "String", ["direct"], True))
    return item


@rule("both")
def direct_attribute(r):
    item = body(g_item(r, "named"))
    n = r.choice([n for n in FIELD_NAMES if n not in {f.name for f in item.fields}])
    a = ["attribute", "direct"]
    r.shuffle(a)
    item.fields.append(Field(n, r.choice(["String", "u8"]), a, True))
    return item


@rule("both", 2)
def attribute_in_transparent(r):
    item = g_item(r, "transparent")
    n = r.choice([n for n in FIELD_NAMES if n not in {f.name for f in item.fields}])
    put(r, item.fields, Field(n, r.choice(["String", "Option<u8>"]), ["attribute"], True))
    return item


@rule("F", 2)
def direct_in_transparent(r):
    item = g_item(r, "transparent")
    n = r.choice([n for n in FIELD_NAMES if n not in {f.name for f in item.fields}])
    item.fields.append(Field(n, r.choice(["String", "Option<u8>"]), ["direct"], True))
    return item


@rule("both", 2)
def namespace_on_transparent(r):
    item = g_item(r, "transparent")
    cattr(r, item, r.choice(['ns("urn:a")', "ns(NS_A)", 'ns(p = "urn:b")', 'ns("", q = NS_A)', "ns(deep::NS_C)"]))
    return item


@rule("both")
def rename_on_transparent(r):
    item = g_item(r, "transparent")
    cattr(r, item, 'rename = "x"')
    return item


@rule("T")
def force_prefix_on_transparent(r):
    item = g_item(r, "transparent")
    cattr(r, item, "force_prefix")
    return item


@rule("F")
def transparent_without_named_fields(r):
    item = g_item(r, r.choice(["tuple", "unit"]))
    item.cattrs = ["transparent"]
    return item


@rule("both", 3)
def data_in_scalar(r):
    item = g_item(r, "scalar")
    item.variants.append(Variant("Data0", r.choice(["(u8)", "{ a: u8 }", "(String, El)", "{ a: String, b: u8 }", "(El)"])))
    i = r.randrange(len(item.variants))
    item.variants[i], item.variants[-1] = item.variants[-1], item.variants[i]
    for v in item.variants:
        v.disc = ""
        v.keep = v.name == "Data0"
    return item


@rule("both", 2)
def rename_with_discriminant(r):
    item = g_item(r, "scalar")
    v = r.choice(item.variants)
    v.keep, v.attrs, v.disc = True, ['rename = "y"'], "7000"
    return item


@rule("both", 2)
def bad_discriminant(r):
    item = g_item(r, "scalar")
    v = r.choice(item.variants)
    v.keep, v.attrs, v.disc = True, [], r.choice(["7000 + 1", "-7000", "(7000)", "{ 7000 }", "SEVEN", "u8::MAX as isize", "7000 << 1", "b'x' as isize", "7000 as isize", "true", "'c'", "1.5"])
    return item


@rule("both", 3)
def other_key_on_variant(r):
    item = g_item(r, "scalar")
    v = r.choice(item.variants)
    v.keep = True
    put(r, v.attrs, r.choice(["attribute", "direct", "borrow", "scalar", "forward", "transparent", "force_prefix", 'ns("urn:a")', 'rename_all = "lowercase"',
                              'serialize_with = "hook::to"', 'deserialize_with = "hook::from"']))
    return item


@rule("both", 4)
def forward_shape(r):
    item = g_item(r, "forward")
    v = r.choice(item.variants)
    v.keep, v.body = True, r.choice(["", "()", "(El, ElA)", "{ a: El }", "{}", "(El, ElA, u8)", "{ a: El, b: ElA }"])
    return item


@rule("both", 2)
def attribute_on_forward_variant(r):
    item = g_item(r, "forward")
    v = r.choice(item.variants)
    v.keep, v.attrs = True, [r.choice(['rename = "x"', "direct", 'ns("urn:a")', "borrow", "attribute"])]
    return item


@rule("T")
def rename_all_on_forward(r):
    item = g_item(r, "forward")
    cattr(r, item, 'rename_all = "%s"' % r.choice(CASES))
    return item


@rule("F")
def empty_forward(r):
    item = g_item(r, "forward")
    item.variants = []
    return item


UNKNOWN = ["renamed", "Attribute", "attr", "default", "skip", "flatten", "xmlns", "rename_All", "namespace", "with", "nss", "prefix",
           "forced_prefix", "scalars", "Direct", "text", "borrowed", "r#ns2"]
VALUES = ["", ' = "x"', "(x)", ' = 1']


@rule("both", 3)
def unknown_key_on_container(r):
    item = g_item(r, r.choice(KINDS))
    cattr(r, item, r.choice(UNKNOWN) + r.choice(VALUES))
    return item


@rule("both", 3)
def unknown_key_on_field(r):
    item = with_fields(r, r.choice(["named", "named", "transparent"]))
    put(r, pick(r, item).attrs, r.choice(UNKNOWN) + r.choice(VALUES))
    return item


@rule("both", 2)
def unknown_key_on_variant(r):
    item = g_item(r, r.choice(["scalar", "forward"]))
    v = r.choice(item.variants)
    v.keep = True
    put(r, v.attrs, r.choice(UNKNOWN) + r.choice(VALUES))
    return item


@rule("both", 3)
def field_key_on_container(r):
    item = g_item(r, r.choice(KINDS))
    cattr(r, item, r.choice(["attribute", "direct", "borrow", 'serialize_with = "hook::to"', 'deserialize_with = "hook::from"']))
    return item


@rule("both", 4)
def container_key_on_field(r):
    item = with_fields(r, r.choice(["named", "named", "transparent"]))
    put(r, pick(r, item).attrs, r.choice(['rename_all = "%s"' % r.choice(CASES), "force_prefix", "scalar", "forward", "transparent"]))
    return item


@rule("both", 3)
def unknown_case(r):
    item = g_item(r, r.choice(["named", "tuple", "unit", "scalar", "transparent", "forward"]))
    item.cattrs = [c for c in item.cattrs if not c.startswith("rename_all")]
    cattr(r, item, 'rename_all = "%s"' % r.choice(["Lowercase", "lower", "upper", "camelcase", "CamelCase", "Pascalcase", "snake-case", "kebab_case", "KEBAB-CASE",
                                                   "screaming_snake_case", "SCREAMING-KEBAB_CASE", "", " lowercase", "none", "title", "camelCase ", "snake_Case", "screaming-kebab-case"]))
    return item


@rule("T", 4)
def attribute_namespace(r):
    item = body(g_item(r, "named"))
    n = r.choice([n for n in FIELD_NAMES if n not in {f.name for f in item.fields}])
    a = ["attribute", "ns(%s)" % r.choice(['"urn:a"', '""', "deep::NS_C", "crate::prelude::NS_A", "::std::env::consts::OS", "self::deep::NS_C", 'r"urn:a"', '"p"'])]
    r.shuffle(a)
    put(r, item.fields, Field(n, r.choice(["u8", "Option<String>"]), a, True))
    return item


@rule("both", 2)
def attributes_on_tuple_field(r):
    item = with_fields(r, "tuple")
    f = pick(r, item)
    f.attrs = [r.choice(['rename = "x"', "direct", "attribute", 'ns("urn:a")', "borrow", 'serialize_with = "hook::to"'])]
    return item


@rule("T")
def direct_serialize_with(r):
    item = body(g_item(r, "named"))
    n = r.choice([n for n in FIELD_NAMES if n not in {f.name for f in item.fields}])
    a = ["direct", 'serialize_with = "hook::to"']
    r.shuffle(a)
    item.fields.append(Field(n, "u8", a, True))
    return item


@rule("F")
def direct_deserialize_with(r):
    item = body(g_item(r, "named"))
    n = r.choice([n for n in FIELD_NAMES if n not in {f.name for f in item.fields}])
    a = ["direct", 'deserialize_with = "hook::from_u8"']
    r.shuffle(a)
    item.fields.append(Field(n, "u8", a, True))
    return item


BAD_PATHS = ["", "hook to", "hook::", "1x", "hook::to()", "a-b", "a.b", "|x| x", "hook::to, hook::to", "::", "&x"]


@rule("T", 2)
def bad_serialize_path(r):
    item = body(with_fields(r))
    n = r.choice([n for n in FIELD_NAMES if n not in {f.name for f in item.fields}])
    item.fields.append(Field(n, "u8", ['serialize_with = "%s"' % r.choice(BAD_PATHS)], True))
    return item


@rule("F", 2)
def bad_deserialize_path(r):
    item = body(with_fields(r))
    n = r.choice([n for n in FIELD_NAMES if n not in {f.name for f in item.fields}])
    item.fields.append(Field(n, "u8", r.choice([[], ["attribute"]]) + ['deserialize_with = "%s"' % r.choice(BAD_PATHS)], True))
    return item


BAD_NS = ['"a", "b"', "a b", 'a::b = "x"', "p = ", "= p", '"a" p = "b"', "a:b", "a::", '"a", p', '"a", p "b"', '"a", p == "b"', '"a", "p" = "b"', "::a = NS_A", '"a", p = "b" q = "c"',
          "p = 'x", '"a"; p = "b"', '"a", p = (NS_A)', '("a")', "NS_A()", 'a-b', '"a", , p = "b"', '"a", a::b = "c"', "a..", "NS_A + NS_B", '&"a"', 'a + b = "c"', 'a / b = "c"', 'a * b = "c"', 'a::b - c = "c"', 'a::b.c = "c"', 'a: b = "c"', 'a ! b = "c"', 'a; b = "c"', 'a - ::b = "c"', 'a-b::c = "c"', 'a<b> = "c"', '"a", b<c> = "c"', '"a", b + c = "d"',
          '"a", b::c-d = "e"', '"a", -b = "c"', '"a", .b = "c"']


@rule("both", 6)
def bad_namespace(r):
    ns = "ns(%s)" % r.choice(BAD_NS)
    if r.random() < 0.6:
        item = g_item(r, struct(r))
        item.cattrs = [c for c in item.cattrs if not c.startswith("ns(")]
        cattr(r, item, ns)
        return item
    item = with_fields(r)
    f = pick(r, item)
    f.attrs = [a for a in f.attrs if not a.startswith("ns(")]
    put(r, f.attrs, ns)
    return item


BAD_SYNTAX = ["rename", "rename =", 'rename "x"', "rename = x", 'rename == "x"', 'rename("x")', "rename_all", 'rename_all("lowercase")', "rename_all = lowercase", 'ns "urn:a"', 'ns["urn:a"]',
              'ns = "urn:a"', "ns", "force_prefix = true", 'rename = "a" "b"', 'rename: "x"', "rename = ("'"x"'")", '"x"', "1", ", force_prefix", 'rename = "a",, force_prefix', 'rename = "a" force_prefix',
              "force_prefix; ", "force_prefix()", "= x", "ns{}", "rename_all =", 'rename = "a"; rename_all = "lowercase"', "-", "::x"]
BAD_FIELD_SYNTAX = ["rename", "rename =", 'rename "x"', "rename = x", 'rename("x")', 'ns "urn:a"', 'ns["urn:a"]', 'ns = "urn:a"', "ns", "attribute = true", "attribute()", 'rename = "a" "b"',
                    "attribute borrow", "attribute; borrow", '"attribute"', ", attribute", "attribute,, borrow", "serialize_with", "serialize_with =", "serialize_with = hook::to", 'serialize_with("hook::to")',
                    "deserialize_with", "deserialize_with =", "deserialize_with = hook::from", 'deserialize_with("hook::from")', "borrow = 'a", "direct = true", "attribute + borrow"]


@rule("both", 4)
def bad_container_syntax(r):
    item = g_item(r, struct(r))
    item.raw = "#[xml(%s)]\n" % r.choice(BAD_SYNTAX)
    return item


@rule("both", 4)
def bad_field_syntax(r):
    item = with_fields(r, r.choice(["named", "named", "transparent"]))
    pick(r, item).raw = "#[xml(%s)]\n" % r.choice(BAD_FIELD_SYNTAX)
    return item


@rule("both", 2)
def not_a_list(r):
    x = r.choice(["#[xml]\n", '#[xml = "x"]\n', "#[xml = 1]\n"])
    k = r.random()
    if k < 0.4:
        item = g_item(r, struct(r))
        item.raw = x
    elif k < 0.8:
        item = with_fields(r)
        pick(r, item).raw = x
    else:
        item = g_item(r, r.choice(["scalar", "forward"]))
        v = r.choice(item.variants)
        v.keep, v.raw = True, x
    return item


@rule("both")
def union_(r):
    item = Item("raw", "U")
    if r.random() < 0.3:
        item.cattrs = [r.choice(["scalar", "forward", "transparent", 'rename = "x"', 'ns("urn:a")'])]
    item.raw_item = "union U { a: u8, b: i8 }"
    return item


# ---- running the compiler

class Crate:
    def __init__(self, harness, env):
        self.dir = tempfile.mkdtemp(prefix="c24-")
        self.target = os.path.join(harness, "target", "c24")
        self.env = env({"CARGO_TARGET_DIR": self.target})
        os.makedirs(os.path.join(self.dir, "src"))
        with open(os.path.join(self.dir, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "c24cases"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[profile.dev]\ndebug = false\nincremental = false\n'
                    '[profile.dev.build-override]\nopt-level = 0\n'
                    '[dependencies]\ninstant-xml = { path = "/repo/instant-xml" }\n[lib]\npath = "src/lib.rs"\n')
        lock = os.path.join(harness, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, self.dir)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def check(self, sources):
        """sources: list of texts.  Returns the list of (coded, uncoded) diagnostics per source, or raises"""
        src = os.path.join(self.dir, "src")
        shutil.rmtree(src)
        os.makedirs(src)
        with open(os.path.join(src, "lib.rs"), "w") as f:
            f.write(PRELUDE + "".join("mod c%d;\n" % i for i in range(len(sources))))
        for i, s in enumerate(sources):
            with open(os.path.join(src, "c%d.rs" % i), "w") as f:
                f.write("use crate::prelude::{self, *};\nconst SEVEN: isize = 7000;\n" + s)
        p = subprocess.run(["cargo", "check", "--offline", "--lib", "--message-format=json"], cwd=self.dir, env=self.env,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        out = [([], []) for _ in sources]
        stray = []
        for line in p.stdout.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            d = m["message"]
            if m["target"]["name"] != "c24cases":
                stray.append(d["rendered"])
                continue
            if not d["spans"]:
                continue
            hit = set()
            for s in d["spans"]:
                if s["is_primary"]:
                    while s:
                        b = os.path.basename(s["file_name"])
                        if b.startswith("c") and b[1:-3].isdigit() and s["file_name"].startswith("src"):
                            hit.add(int(b[1:-3]))
                        s = (s.get("expansion") or {}).get("span")
            if not hit:
                stray.append(d["rendered"])
            for i in hit:
                out[i][0 if d["code"] else 1].append(d["rendered"])
        ok = p.returncode == 0
        if not ok and not any(a or b for a, b in out):
            return None, stray or [p.stderr[-3000:]]
        return out, stray


class Broken(Exception):
    pass


def outcome(crate, items):
    """items: list of (valid, Item, derives) -> list of None or the reason it fails the property"""
    res = [None] * len(items)
    for want in (True, False):
        idx = [i for i, (v, _, _) in enumerate(items) if v == want]
        if not idx:
            continue
        # expansion errors keep the compiler from checking types: what fails for
        # a reason the derive gives is taken out and the rest compiled again
        left = list(idx)
        for _ in range(2 if want else 1):
            out, stray = crate.check([items[i][1].render(items[i][2]) for i in left])
            if out is None or stray and want:
                # one case that breaks the derive for the prelude breaks all
                raise Broken("\n".join(stray))
            if want:
                bad = [i for i, (a, b) in zip(left, out) if a or b]
                for i, (a, b) in zip(left, out):
                    if a or b:
                        res[i] = "a valid derive input does not compile:\n" + "\n".join((b + a)[:2])
                left = [i for i in left if i not in bad]
                if not bad or not left:
                    break
            else:
                for i, (a, b) in zip(left, out):
                    if not b:
                        res[i] = "the derive accepts it" + (" (the generated code does not compile:\n%s)" % a[0] if a else "")
    return res


def shrink(crate, case, reason, deadline):
    valid, item, derives = case
    while time.time() < deadline:
        cands = [(valid, c, derives) for c in item.reductions()]
        if valid and len(derives) > 1:
            cands += [(valid, item, [d]) for d in derives]
        if not cands:
            break
        try:
            out = outcome(crate, cands)
        except Broken:
            break
        for c, o in zip(cands, out):
            if o is not None:
                (valid, item, derives), reason = c, o
                break
        else:
            break
    return (valid, item, derives), reason


def run(root, harness, evidence, seed, tier, env):
    start = time.time()
    rounds = 1 if tier == "quick" else 12
    known = {}
    seen, samples, evals, per_rule, violations = set(), [], 0, {}, 0
    rp = None
    crate = Crate(harness, env)
    try:
        for rnd in range(rounds):
            r = random.Random("%s/%s" % (seed, rnd))
            cases, tags = [], []
            for _ in range(2000):
                item = g_item(r, r.choice(KINDS))
                item.in_macro = r.random() < 0.15
                cases.append((True, item, r.choice([["ToXml", "FromXml"], ["FromXml", "ToXml"], ["ToXml"], ["FromXml"]])))
                tags.append("valid")
            for name, (ds, f, weight) in RULES.items():
                for _ in range(50 * weight):
                    item = f(r)
                    for d in ds:
                        cases.append((False, item, ["ToXml" if d == "T" else "FromXml"]))
                        tags.append(name)
            try:
                out = outcome(crate, cases)
            except Broken as e:
                # the derive may fail on the items every case needs
                text = str(e)
                print(text[-4000:])
                if "src/lib.rs" in text:
                    rp = replay_file(evidence, seed, "the derive fails on the items of the prelude", PRELUDE, text)
                    violations = 1
                    break
                print("the build failed")
                return 2
            for case, tag, o in zip(cases, tags, out):
                evals += 1
                text = case[1].render(case[2])
                key = (tag, text)
                if key not in seen:
                    seen.add(key)
                    per_rule[tag] = per_rule.get(tag, 0) + 1
                    if len(samples) < 24 and (tag != "valid" or sum(s["rule"] == "valid" for s in samples) < 4) and sum(s["rule"] == tag for s in samples) < 4:
                        if tag == "valid" or r.random() < 0.1:
                            samples.append({"rule": tag, "input": text})
            failing = [(c, t, o) for c, t, o in zip(cases, tags, out) if o is not None]
            if failing:
                if os.environ.get("C24_ALL"):
                    for c, t, o in failing:
                        print("-----", t)
                        print(c[1].render(c[2]))
                        print(o[:600])
                case, tag, reason = failing[0]
                print("%d of %d inputs fail; shrinking the first" % (len(failing), len(cases)))
                case, reason = shrink(crate, case, reason, time.time() + 120)
                rp = replay_file(evidence, seed, "rule: " + tag, case[1].render(case[2]), reason)
                violations = len(failing)
                break
        if not rp:
            known, bad = probes(root, crate)
            for k, v in known.items():
                print("KNOWN-FINDING: property=C24 %s: %s" % (k, v))
            if bad:
                rp = replay_file(evidence, seed, "probe %s is not listed" % bad[0], bad[1], bad[2])
                violations = 1
    finally:
        crate.close()
    with open(os.path.join(evidence, "C24.json"), "w") as f:
        json.dump({
            "property": "C24", "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": len(seen),
                "rule": "derive inputs generated from a grammar of items, generics, names and attributes: valid ones, and ones with a single named rule broken "
                        "compiled with the derive that has to enforce it; distinct by source text, every one goes through rustc",
                "samples": samples,
                "per_rule": per_rule,
                "known_findings": known,
            },
            "wall_s": round(time.time() - start, 3), "violations": violations}, f, indent=1, ensure_ascii=False)
        f.write("\n")
    if rp:
        print(open(rp).read()[:4000])
        print("VIOLATION property=C24 replay=%s" % rp)
        return 1
    print("C24: %d inputs (%d distinct), %d rules, %.1f s: ok" % (evals, len(seen), len(RULES), time.time() - start))
    return 0


# what the documentation allows and the derive does not manage, by name in known_findings.txt
PROBES = {
    "K3": "#[derive(FromXml)]\nstruct Bytes<'a> {\n    #[xml(borrow)]\n    data: Cow<'a, [u8]>,\n}\n",
}


def probes(root, crate):
    """Returns {name: what fails} of the listed probes that fail, and an unlisted one that does"""
    listed = {}
    for line in open(os.path.join(root, "known_findings.txt")):
        w = line.split()
        if w[:2] == ["known:", "property=C24"]:
            listed[w[2].split("=")[1]] = " ".join(w[3:])
    still = {}
    for name, text in PROBES.items():
        out, stray = crate.check([text])
        if out is not None and not any(a or b for a, b in out):
            continue
        if name not in listed:
            return still, (name, text, "\n".join(stray or out[0][0] + out[0][1]))
        still[name] = listed[name]
    return still, None


def replay_file(evidence, seed, head, text, reason):
    os.makedirs(os.path.join(evidence, "replay"), exist_ok=True)
    rp = os.path.join(evidence, "replay", "C24-%s.txt" % seed)
    with open(rp, "w") as f:
        f.write("property: C24\nseed: %s\n%s\n\n%s\n\n%s\n" % (seed, head, text, reason))
    return rp
