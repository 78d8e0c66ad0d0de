//! Documents and values of many thousand items, for several of the properties.
use std::borrow::Cow;

use instant_xml::de::Node;
use instant_xml::{from_str, to_string, AnyElement, Deserializer, Error, FromXml, ToXml};
use xmodel::src::Src;

use crate::engine::{Cx, Obs};

#[derive(Clone, Debug, Default, PartialEq, ToXml, FromXml)]
#[xml(rename = "r", ns("urn:r", p = "urn:p"))]
struct Long {
    #[xml(attribute)]
    a: Option<String>,
    v: Vec<String>,
    #[xml(ns("urn:p"))]
    w: Vec<u32>,
    #[xml(ns("urn:q"))]
    c: Cow<'static, [u64]>,
    x: Vec<Item>,
    s: Option<String>,
}

#[derive(Clone, Debug, Default, PartialEq, ToXml, FromXml)]
#[xml(rename = "x", ns("urn:p"))]
struct Item {
    #[xml(attribute)]
    a: Option<u32>,
    #[xml(direct)]
    t: String,
}

#[derive(Clone, Debug, Default, PartialEq, ToXml, FromXml)]
#[xml(rename = "d")]
struct Direct {
    #[xml(attribute)]
    a: String,
    #[xml(direct)]
    t: String,
}

/// Cheap choices, for each of the many items
struct Rng(u64);

impl Rng {
    fn new(s: &mut Src) -> Self {
        Rng(s.below(1 << 20) * 2 + 1)
    }

    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as usize % n
    }
}

const SIZES: [usize; 12] = [3, 40, 300, 1023, 4097, 16_000, 32_768, 65_535, 65_536, 65_537, 70_000, 100_000];

fn size(s: &mut Src, o: &mut Obs) -> usize {
    let n = *s.pick(&SIZES);
    o.tag(&format!("items {n}"));
    o.nontrivial = n > 600;
    n
}

fn text(g: &mut Rng, i: usize) -> String {
    let t = ["", "a", "é", "&", "<", "\u{1F600}", "some words", "]]>", "\""][g.below(9)];
    match g.below(3) {
        0 => t.to_owned(),
        1 => format!("{t}{i}"),
        _ => format!("{i}{t}"),
    }
}

fn value(g: &mut Rng, n: usize) -> Long {
    let mut l = Long { a: (g.below(2) == 0).then(|| text(g, n)), s: (g.below(2) == 0).then(|| text(g, n)), ..Long::default() };
    // all in one list, or in all of them
    let one = g.below(8);
    for i in 0..n {
        match if one < 4 { one } else { g.below(4) } {
            0 => l.v.push(text(g, i)),
            1 => l.w.push(i as u32),
            2 => l.c.to_mut().push(i as u64 * 3_000_000_000),
            _ => l.x.push(Item { a: (g.below(2) == 0).then_some(i as u32), t: text(g, i) }),
        }
    }
    l
}

/// The first difference only: the values are too long to show
fn same(a: &Long, b: &Long) -> Result<(), String> {
    fn list<T: PartialEq + std::fmt::Debug>(what: &str, a: &[T], b: &[T]) -> Result<(), String> {
        if a.len() != b.len() {
            return Err(format!("list {what}: {} items instead of {}", b.len(), a.len()));
        }
        match (0..a.len()).find(|i| a[*i] != b[*i]) {
            Some(i) => Err(format!("list {what}, item {i}: {:?} instead of {:?}", b[i], a[i])),
            None => Ok(()),
        }
    }
    list("v", &a.v, &b.v)?;
    list("w", &a.w, &b.w)?;
    list("c", &a.c, &b.c)?;
    list("x", &a.x, &b.x)?;
    match (&a.a, &a.s) == (&b.a, &b.s) {
        true => Ok(()),
        false => Err(format!("{:?} instead of {:?}", (&b.a, &b.s), (&a.a, &a.s))),
    }
}

/// C01
pub fn round_trip(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = size(s, o);
    let mut g = Rng::new(s);
    o.key(&[&n.to_string(), &g.0.to_string()]);
    o.sample(|| format!("{n} items"));
    if s.chance(1, 4) {
        let t = |g: &mut Rng| (0..n).map(|i| text(g, i)).collect::<String>();
        let v = Direct { a: t(&mut g), t: t(&mut g) };
        let doc = to_string(&v).map_err(|e| format!("{e:?}"))?;
        let back = from_str::<Direct>(&doc).map_err(|e| format!("{n} pieces of text cannot be read: {e:?}"))?;
        return match back == v {
            true => Ok(()),
            false => Err(format!("{n} pieces of text, {} and {} bytes: read {} and {}, or other text", v.a.len(), v.t.len(), back.a.len(), back.t.len())),
        };
    }
    let v = value(&mut g, n);
    let doc = to_string(&v).map_err(|e| format!("{e:?}"))?;
    let back = from_str::<Long>(&doc).map_err(|e| format!("{n} items: {e:?}"))?;
    same(&v, &back).map_err(|e| format!("{n} items: {e}"))
}

/// Text of a document
fn put(g: &mut Rng, out: &mut String, t: &str) {
    for (i, c) in t.char_indices() {
        match c {
            '&' | '<' | '>' => out.push_str(&format!("&#{};", c as u32)),
            _ if i > 0 && g.below(40) == 0 => out.push_str(&format!("<!-- c --><![CDATA[{c}]]>")),
            _ => out.push(c),
        }
    }
}

const ROOT: &str = "<r xmlns='urn:r' xmlns:p='urn:p' xmlns:q='urn:q'>";

/// The children of a document, the items in any order; and what they hold
fn children(g: &mut Rng, n: usize, out: &mut String) -> Long {
    let mut l = Long::default();
    // all kinds of items, or mostly one
    let one = g.below(10);
    for i in 0..n {
        match if one < 6 && g.below(100) > 0 { one } else { g.below(6) } {
            0 => {
                let t = text(g, i);
                out.push_str("<v>");
                put(g, out, &t);
                out.push_str("</v>");
                l.v.push(t);
            }
            1 => {
                out.push_str(&format!("<p:w>{i}</p:w>"));
                l.w.push(i as u32);
            }
            2 => {
                out.push_str(&format!("<c xmlns=\"urn:q\">{i}</c>"));
                l.c.to_mut().push(i as u64);
            }
            3 => {
                let t = text(g, i);
                out.push_str(&format!("<p:x a='{i}'>"));
                put(g, out, &t);
                out.push_str("</p:x>");
                l.x.push(Item { a: Some(i as u32), t });
            }
            4 => {
                out.push_str("<p:x />");
                l.x.push(Item::default());
            }
            _ => out.push_str(["<zz/>", "\n", "<!-- c -->", "<v xmlns='urn:z'>t</v>", "<zz a='1'><v>t</v></zz>"][g.below(5)]),
        }
    }
    l
}

/// C08
pub fn order(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = size(s, o);
    let mut g = Rng::new(s);
    o.key(&[&n.to_string(), &g.0.to_string()]);
    o.sample(|| format!("{n} children"));
    let mut doc = ROOT.to_owned();
    let v = children(&mut g, n, &mut doc);
    doc.push_str("</r>");
    let back = from_str::<Long>(&doc).map_err(|e| format!("{n} children: {e:?}"))?;
    same(&v, &back).map_err(|e| format!("{n} children: {e}"))
}

/// C09
pub fn repeated(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    #[derive(Debug, FromXml)]
    #[xml(rename = "r", ns("urn:r"))]
    struct Two {
        #[allow(dead_code)]
        s: String,
        #[xml(ns("urn:t"))]
        #[allow(dead_code)]
        t: Option<Item>,
        #[allow(dead_code)]
        v: Vec<String>,
    }
    let (n, m) = (size(s, o), *s.pick(&SIZES[..4]));
    let mut g = Rng::new(s);
    let which = s.below(4);
    o.key(&[&n.to_string(), &which.to_string(), &g.0.to_string()]);
    o.sample(|| format!("{n} children, then {which}"));
    let mut doc = ROOT.to_owned();
    // without the items that the type does not have as a list
    let mut fill = |doc: &mut String, n: usize| {
        for i in 0..n {
            match g.below(3) {
                0 => doc.push_str(&format!("<v>{i}</v>")),
                1 => doc.push_str("<p:w>7</p:w>"),
                _ => doc.push_str("<zz/>"),
            }
        }
    };
    if which > 0 {
        doc.push_str("<s></s>");
    }
    if which == 2 {
        doc.push_str("<p:x>t</p:x>");
    }
    fill(&mut doc, n);
    match which {
        1 => doc.push_str("<s>1</s>"),
        2 => doc.push_str("<p:x/>"),
        _ => {}
    }
    fill(&mut doc, m);
    doc.push_str("</r>");
    let got = from_str::<Two>(&doc);
    match (which, &got) {
        (0, Err(Error::MissingValue(_))) | (1 | 2, Err(Error::DuplicateValue(_))) | (3, Ok(_)) => Ok(()),
        _ => Err(format!(
            "{n} children, {}: {:?}",
            ["s missing", "s twice", "t twice", "all there"][which as usize],
            got.map(|_| "read").map_err(|e| format!("{e:?}"))
        )),
    }
}

/// C12
pub fn damaged(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = size(s, o);
    let mut g = Rng::new(s);
    let mut doc = ROOT.to_owned();
    children(&mut g, n, &mut doc);
    let end = *s.pick(&[
        "", "</r", "</p:r>", "</R>", "<zz></r>", "</r></r>", "</r>t", "</r><r/>", "<v>&x;</v></r>", "<zz>&</zz></r>", "<zz a='<'/></r>", "<zz a=1/></r>",
        "<y:zz/></r>", "</zz></r>", "<zz><v></zz></v></r>", "<![CDATA[</r>", "<!-- -- --></r>", "]]></r>",
    ]);
    o.key(&[&n.to_string(), end, &g.0.to_string()]);
    o.sample(|| format!("{n} children, then {end:?}"));
    doc.push_str(end);
    // what the library leaves to its parser
    let unjudged = matches!(end, "]]></r>" | "<!-- -- --></r>" | "<zz a='<'/></r>");
    let run = |doc: &str| -> [bool; 3] {
        fn pull(mut d: Deserializer<'_, '_>) -> Result<(), Error> {
            d.ignore()
        }
        [from_str::<Long>(doc).is_ok(), from_str::<AnyElement<'_>>(doc).is_ok(), Deserializer::new(doc).and_then(pull).is_ok()]
    };
    let got = run(&doc);
    // a pull reader does not look at what follows the root, or at prefixes it does not ask for
    let pull = !matches!(end, "</r></r>" | "</r>t" | "</r><r/>" | "<y:zz/></r>");
    if unjudged {
        // the number of children plays no part
        let short = run(&format!("{ROOT}{end}"));
        return match got == short {
            true => Ok(()),
            false => Err(format!("{n} children, then {end:?}: accepted {got:?}, but {short:?} without children")),
        };
    }
    match got[0] || got[1] || pull && got[2] {
        true => Err(format!("{n} children, then {end:?}: accepted (typed, AnyElement, pull API): {got:?}")),
        false => Ok(()),
    }
}

/// C13
pub fn limits(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = size(s, o);
    let mut g = Rng::new(s);
    let mut doc = ROOT.to_owned();
    children(&mut g, n, &mut doc);
    let (which, over) = (s.below(3), s.chance(1, 2));
    let k = over as usize;
    o.key(&[&n.to_string(), &which.to_string(), &k.to_string(), &g.0.to_string()]);
    o.sample(|| format!("{n} children, then limit {which} reached, over it: {over}"));
    match which {
        0 => doc.push_str(&format!("{}{}", "<zz>".repeat(31 + k), "</zz>".repeat(31 + k))),
        1 => {
            doc.push_str("<zz");
            (0..64 + k).for_each(|i| doc.push_str(&format!(" a{i}='v'")));
            doc.push_str("/>");
        }
        _ => {
            doc.push_str("<zz");
            (0..32 + k).for_each(|i| doc.push_str(&format!(" xmlns:n{i}='urn:n'")));
            doc.push_str("/>");
        }
    }
    children(&mut g, 50, &mut doc);
    doc.push_str("</r>");
    let got = [from_str::<Long>(&doc).is_ok(), from_str::<AnyElement<'_>>(&doc).is_ok(), Deserializer::new(&doc).and_then(|mut d| d.ignore()).is_ok()];
    match got == [!over; 3] {
        true => Ok(()),
        false => Err(format!("{n} children, then the limit of {}{}: read {got:?}", ["levels", "attributes", "declarations"][which as usize], if over { " exceeded" } else { " reached" })),
    }
}

/// C14
pub fn any(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = size(s, o);
    let mut g = Rng::new(s);
    o.key(&[&n.to_string(), &g.0.to_string()]);
    o.sample(|| format!("{n} children"));
    let mut doc = ROOT.to_owned();
    let (mut want, mut root) = (Vec::new(), String::new());
    for i in 0..n {
        let t = text(&mut g, i);
        match g.below(5) {
            0 => {
                put(&mut g, &mut doc, &t);
                root.push_str(&t);
            }
            1 => {
                doc.push_str(&format!("<n{i} p:a='{i}'>"));
                put(&mut g, &mut doc, &t);
                doc.push_str(&format!("</n{i}>"));
                want.push(("urn:r", format!("n{i}"), Some(("urn:p", i.to_string())), t, 0));
            }
            2 => {
                doc.push_str("<p:e/>");
                want.push(("urn:p", "e".into(), None, String::new(), 0));
            }
            3 => {
                doc.push_str("<q:e xmlns:q='urn:z' a=''><a/><b/></q:e>");
                want.push(("urn:z", "e".into(), Some(("", String::new())), String::new(), 2));
            }
            _ => {
                doc.push_str(&format!("<e xmlns=''>{i}</e>"));
                want.push(("", "e".into(), None, i.to_string(), 0));
            }
        }
    }
    doc.push_str("</r>");
    let got = from_str::<AnyElement<'_>>(&doc).map_err(|e| format!("{n} pieces: {e:?}"))?;
    let got = match s.chance(1, 2) {
        true => got.into_owned(),
        false => got,
    };
    if got.text.as_deref().unwrap_or("") != root {
        return Err(format!("{n} pieces: text of {} bytes instead of {}, or other text", got.text.map_or(0, |t| t.len()), root.len()));
    }
    if got.children.len() != want.len() {
        return Err(format!("{n} pieces: {} children instead of {}", got.children.len(), want.len()));
    }
    for (i, (c, (ns, name, attr, t, kids))) in got.children.iter().zip(&want).enumerate() {
        let a = attr.as_ref().map(|(ns, v)| (*ns, "a", v.as_str()));
        let attrs = c.attributes.iter().map(|a| (&*a.ns, &*a.name, &*a.value)).collect::<Vec<_>>();
        if &*c.ns != *ns || &*c.name != name || attrs != a.into_iter().collect::<Vec<_>>() || c.text.as_deref().unwrap_or("") != t || c.children.len() != *kids {
            return Err(format!("{n} pieces: child {i} is {c:?}"));
        }
    }
    Ok(())
}

/// C20
pub fn pull(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let n = size(s, o);
    let mut g = Rng::new(s);
    o.key(&[&n.to_string(), &g.0.to_string()]);
    o.sample(|| format!("{n} children"));
    let mut doc = ROOT.to_owned();
    for i in 0..n {
        doc.push_str(&format!("<n{i} a='{i}'>{}</n{i}>t{i}", ["", "t", "<a>t</a>", "<!-- c -->t<b/>u"][i % 4]));
    }
    doc.push_str("</r>");
    let mut d = Deserializer::new(&doc).map_err(|e| format!("{e:?}"))?;
    for i in 0..n {
        let at = |m: String| format!("{n} children, at child {i}: {m}");
        let e = match d.next() {
            Some(Ok(Node::Open(e))) => e,
            other => return Err(at(format!("{other:?} instead of its start"))),
        };
        let id = d.element_id(&e).map_err(|e| at(format!("{e:?}")))?;
        if id.name != format!("n{i}") || id.ns != "urn:r" {
            return Err(at(format!("is {id:?}")));
        }
        let mut nested = d.nested(e);
        match g.below(5) {
            0 => nested.ignore().map_err(|e| at(format!("{e:?}")))?,
            1 => match nested.next() {
                Some(Ok(Node::Attribute(a))) if a.local == "a" && a.value == i.to_string() => {
                    nested.ignore().map_err(|e| at(format!("{e:?}")))?;
                }
                other => return Err(at(format!("{other:?} instead of its attribute"))),
            },
            2 if i % 4 == 1 => match nested.take_str() {
                Ok(Some(t)) if t == "t" => nested.ignore().map_err(|e| at(format!("{e:?}")))?,
                other => return Err(at(format!("take_str: {other:?}"))),
            },
            _ => {
                let mut seen = String::new();
                while let Some(node) = nested.next() {
                    match node.map_err(|e| at(format!("{e:?}")))? {
                        Node::Attribute(_) => seen.push('@'),
                        Node::Text(t) => seen.push_str(&t),
                        Node::Open(e) => {
                            seen.push('<');
                            nested.nested(e).ignore().map_err(|e| at(format!("{e:?}")))?;
                        }
                        other => return Err(at(format!("{other:?}"))),
                    }
                }
                if nested.next().is_some() || seen != ["@", "@t", "@<", "@t<u"][i % 4] {
                    return Err(at(format!("nodes {seen:?}")));
                }
            }
        }
        match d.next() {
            Some(Ok(Node::Text(t))) if t == format!("t{i}") => {}
            other => return Err(at(format!("{other:?} instead of the text after it"))),
        }
    }
    match (d.next(), d.next()) {
        (None, None) => Ok(()),
        other => Err(format!("{n} children: {other:?} at the end")),
    }
}
