//! C11 no crash, C12 malformed documents.
use std::borrow::Cow;

use instant_xml::de::{Element, Node};
use instant_xml::{from_str, AnyElement, Deserializer};
use xmodel::render::{render, Style};
use xmodel::src::Src;
use xmodel::{gen, xmlref};

use super::tree::any_tree;
use crate::engine::{part, Check, Cx, Obs};
use crate::hand::{self, Nothing, Unit, POS};
use crate::util::*;
use xmodel::schema::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C11",
            level: "exploration",
            rule: "random, mutated and adversarial documents are read as generated types, AnyElement and scalars and pulled by random calls; a panic, an abort, an overflow of a 2 MiB stack, a result that does not come in 20 s or an endless stream of nodes is a violation; nontrivial: the document starts an element; distinct: by reader and document",
            assumptions: &["2 MiB of stack, the default of Rust threads"],
            parts: vec![
                part("random", 120_000, crash_random),
                part("mutate", 120_000, crash_mutate),
                part("pull", 120_000, crash_pull),
                part("big", 160, crash_big),
            ],
            known: vec![],
        },
        Check {
            id: "C12",
            level: "fault_enumeration",
            rule: "valid documents are cut at every byte or damaged structurally at a random place; nontrivial: every document the independent parser rejects; distinct: by type and document",
            assumptions: &["the independent parser in harness/xmodel/src/xmlref.rs"],
            parts: vec![
                part("truncate", 3_000, truncate),
                part("corrupt", 80_000, corrupt),
                part("ignored", 60_000, corrupt_ignored),
                part("any", 40_000, corrupt_any),
                part("long", 80, super::long::damaged),
            ],
            known: vec![("K12", same_name)],
        },
    ]
}

/// Two attributes or declarations of one name, and a name with an empty prefix
fn same_name() -> bool {
    ["<r x='1' x='2'/>", "<r xmlns:p='urn:a' xmlns:p='urn:b'/>", "<r xmlns='' xmlns=''/>", "<r><:a/></r>"]
        .iter()
        .all(|d| instant_xml::from_str::<crate::hand::Nothing>(d).is_ok() && instant_xml::from_str::<instant_xml::AnyElement<'_>>(d).is_ok())
}

fn all(_: &Family, _: usize, _: &support::Entry) -> bool {
    true
}

// ---- C11

const TOKENS: [&str; 64] = [
    "<", ">", "/", "</", "/>", "<a>", "</a>", "<a/>", "<a ", "a", "b", "=", "\"", "'", " ", "xmlns", "xmlns:", ":", "p:", "<p:a>", "</p:a>",
    "xmlns=\"u\"", "xmlns:p='u'", "xmlns:p=\"\"", "&", ";", "&amp;", "&lt", "&#", "&#x", "&#0;", "&#x110000;", "&#xD800;", "&#-1;", "&#99999999999;", "<!--", "-->",
    "<![CDATA[", "]]>", "<!DOCTYPE", "<!DOCTYPE a [", "<!ENTITY x \"y\">", "]>", "<?", "?>", "<?xml", "<?xml version=\"1.0\"?>", "é", "日", "\u{1F600}", "\u{0}", "\u{FEFF}",
    "\u{FFFD}", "\n", "\t", "\r", "-", "--", ".", "1", "<a b=\"c\">", "<a b='c'/>", "text", "\u{80}",
];

fn random_doc(s: &mut Src, names: &[String]) -> String {
    let mut d = String::new();
    if s.chance(1, 2) {
        d.push_str("<a>");
    }
    for _ in 0..s.small(60) {
        match s.below(8) {
            0 if !names.is_empty() => d.push_str(s.pick(names)),
            1 if !names.is_empty() => d.push_str(&format!("<{}>", s.pick(names))),
            2 if !names.is_empty() => d.push_str(&format!("</{}>", s.pick(names))),
            3 => d.push(gen::xml_char(s)),
            _ => d.push_str(s.pick(&TOKENS)),
        }
    }
    d
}

fn names_of(e: &xmodel::model::El, out: &mut Vec<String>) {
    out.push(e.name.clone());
    for a in &e.attrs {
        out.push(a.name.clone());
    }
    e.elems().for_each(|c| names_of(c, out));
}

/// Boundaries of characters
fn cut(s: &mut Src, d: &str) -> usize {
    let mut i = s.idx(d.len() + 1);
    while !d.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn mutate(s: &mut Src, mut d: String) -> String {
    for _ in 0..1 + s.small(8) {
        let i = cut(s, &d);
        match s.below(9) {
            0 => d.truncate(i),
            1 => d.insert_str(i, s.pick(&TOKENS)),
            2 => d.insert(i, gen::xml_char(s)),
            3 => {
                if let Some(c) = d[i..].chars().next() {
                    d.replace_range(i..i + c.len_utf8(), "");
                }
            }
            4 | 5 => {
                // delete or repeat a slice
                let j = (i + s.small(40)).min(d.len());
                let j = (0..=j).rev().find(|j| d.is_char_boundary(*j)).unwrap().max(i);
                let part = d[i..j].to_owned();
                match s.below(2) {
                    0 => d.replace_range(i..j, ""),
                    _ => {
                        let at = cut(s, &d);
                        d.insert_str(at, &part.repeat(1 + s.small(4)));
                    }
                }
            }
            6 => {
                if let Some(c) = d[i..].chars().next() {
                    d.replace_range(i..i + c.len_utf8(), s.pick(&TOKENS));
                }
            }
            7 => {
                // swap two markup characters
                let spots: Vec<usize> = d.bytes().enumerate().filter(|(_, b)| b"<>/\"'=&;:".contains(b)).map(|(i, _)| i).collect();
                if spots.len() >= 2 {
                    let (a, b) = (*s.pick(&spots), *s.pick(&spots));
                    let mut v = d.into_bytes();
                    v.swap(a, b);
                    d = String::from_utf8(v).unwrap();
                }
            }
            _ => d.push_str(s.pick(&TOKENS)),
        }
    }
    d
}

/// Reads with everything that can read any document; the results do not matter
fn read_any(cx: &Cx, ty: Option<Ty_<'_>>, s: &mut Src, d: &str) -> u64 {
    if let Some(ty) = ty {
        let _ = (ty.e.read)(d);
        let _ = (ty.e.read_borrows)(d);
        if s.chance(1, 8) {
            let _ = (ty.e.read_limits)(d, support::limits(s.idx(4), s.idx(6), s.idx(3)));
        }
    }
    let other = pick(cx, s, all);
    let _ = (other.e.read)(d);
    if let Ok(a) = from_str::<AnyElement<'_>>(d) {
        let _ = a.into_owned();
    }
    let _ = from_str::<Nothing>(d);
    let _ = from_str::<Unit>(d);
    let k = *s.pick(&xmodel::schema::SCALARS);
    let _ = hand::read_scalar(k, *s.pick(&POS), d);
    6
}

fn note(o: &mut Obs, who: &str, d: &str) {
    o.key(&[who, d]);
    o.sample(|| d.chars().take(600).collect());
    o.nontrivial = d.contains('<');
}

fn crash_random(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, all);
    let mut names = Vec::new();
    let v = ty.val(s);
    names_of(&ty.el(&v), &mut names);
    let mut d = random_doc(s, &names);
    if s.chance(1, 2) {
        // the right root
        let e = ty.el(&v);
        d = format!("<{} xmlns=\"{}\">{d}</{0}>", e.name, e.ns);
    }
    note(o, &ty.name(), &d);
    o.runs += read_any(cx, Some(ty), s, &d);
    Ok(())
}

fn crash_mutate(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, all);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    if s.chance(1, 3) {
        super::read::add_foreign(&ty, &mut el, s, 1);
    }
    let d = ty.render(&el, s, Style::FULL);
    let d = mutate(s, d);
    note(o, &ty.name(), &d);
    o.runs += read_any(cx, Some(ty), s, &d);
    Ok(())
}

struct Puller<'s> {
    s: &'s mut Src,
    left: usize,
    ops: usize,
}

const MAX_LEN: usize = 1 << 22;

impl Puller<'_> {
    fn go<'a>(&mut self, d: &mut Deserializer<'_, 'a>, depth: usize, kept: &mut Vec<Node<'a>>) -> Result<(), String> {
        let mut last: Option<Element<'a>> = None;
        while self.left > 0 {
            self.left -= 1;
            self.ops += 1;
            let _ = d.parent();
            let _ = d.namespace(self.s.pick(&["p", "", "xml", "xmlns", "q", "é"]));
            match self.s.below(16) {
                0..=8 => match d.next() {
                    Some(Ok(Node::Open(e))) => {
                        let _ = d.element_id(&e);
                        last = Some(e);
                        if depth < 60 && self.s.chance(3, 4) {
                            let mut n = d.nested(e);
                            self.go(&mut n, depth + 1, kept)?;
                        }
                    }
                    Some(Ok(Node::Attribute(a))) => {
                        let _ = d.attribute_id(&a);
                        if kept.len() < 8 {
                            kept.push(Node::AttributeValue(a.value.clone()));
                            kept.push(Node::Attribute(a));
                        }
                    }
                    Some(Ok(n)) => kept.push(n),
                    Some(Err(_)) => {
                        if self.s.chance(1, 2) {
                            return Ok(());
                        }
                    }
                    None => {
                        if self.s.chance(3, 4) {
                            return Ok(());
                        }
                    }
                },
                9 => drop(d.take_str()),
                10 => drop(d.ignore()),
                11 => {
                    let n = match (self.s.below(4), last) {
                        (0, _) => Node::Text(Cow::Borrowed("t")),
                        (1, Some(e)) => Node::Open(e),
                        (2, Some(_)) => Node::Close { prefix: None, local: d.parent().name },
                        _ => Node::AttributeValue(Cow::Borrowed("v")),
                    };
                    let n = match kept.is_empty() || self.s.chance(1, 2) {
                        true => n,
                        false => kept.remove(self.s.idx(kept.len())),
                    };
                    let mut f = d.for_node(n);
                    self.go(&mut f, depth + 1, kept)?;
                }
                12 => drop(d.deserialize::<AnyElement<'a>>()),
                13 => drop(d.deserialize::<Nothing>()),
                14 => {
                    if let (Some(e), true) = (last, depth < 60) {
                        let mut n = d.nested(e);
                        self.go(&mut n, depth + 1, kept)?;
                    }
                }
                _ => {
                    // to the end: there are not more nodes than characters
                    let mut n = 0;
                    while d.next().is_some() {
                        n += 1;
                        if n > MAX_LEN {
                            return Err("next() never returns None".into());
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn crash_pull(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let d = match s.below(4) {
        0 => random_doc(s, &[]),
        1 => render(None, &any_tree(s), s, Style::FULL),
        2 => {
            let d = render(None, &any_tree(s), s, Style::FULL);
            mutate(s, d)
        }
        _ => {
            let ty = pick(cx, s, all);
            let v = ty.val(s);
            let d = ty.render(&ty.el(&v), s, Style::FULL);
            mutate(s, d)
        }
    };
    o.nontrivial = d.contains('<');
    o.sample(|| d.clone());
    let Ok(mut de) = Deserializer::new(&d) else {
        o.key(&[&d]);
        return Ok(());
    };
    if s.chance(1, 6) {
        de = de.with_limits(support::limits(s.idx(5), s.idx(8), s.idx(4)));
    }
    let left = 10 + s.idx(200);
    let mut p = Puller { s, left, ops: 0 };
    let r = p.go(&mut de, 0, &mut Vec::new());
    o.runs += p.ops as u64;
    o.key(&[&d, &p.s.rec.len().to_string()]);
    // whatever happened, it comes to an end
    let mut n = 0;
    while de.next().is_some() {
        n += 1;
        if n > MAX_LEN {
            return Err(format!("next() never returns None\ndocument: {d}"));
        }
    }
    r.map_err(|m| format!("{m}\ndocument: {d}"))
}

fn crash_big(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, all);
    let v = ty.val(s);
    let el = ty.el(&v);
    let n = *s.pick(&[100usize, 1000, 10_000, 100_000, 400_000]);
    let (open, close) = match s.below(3) {
        0 => ("<a>".to_owned(), "</a>".to_owned()),
        1 => (format!("<{}>", el.name), format!("</{}>", el.name)),
        _ => ("<p:a xmlns:p='u'>".to_owned(), "</p:a>".to_owned()),
    };
    let inner = match s.below(16) {
        0 => format!("{}{}", open.repeat(n), close.repeat(n)),
        1 => open.repeat(n),
        2 => close.repeat(n),
        3 => "<a/>".repeat(n),
        4 => "<!--c-->".repeat(n),
        5 => "<![CDATA[x]]>".repeat(n),
        6 => "<![CDATA[]]><!---->".repeat(n),
        7 => "x<!--c-->".repeat(n),
        8 => "&amp;".repeat(n),
        9 => format!("&{};", "a".repeat(n)),
        10 => format!("<b{}/>", (0..n.min(20_000)).map(|i| format!(" a{i}='v'")).collect::<String>()),
        11 => format!("<b{}/>", (0..n.min(20_000)).map(|i| format!(" xmlns:a{i}='v'")).collect::<String>()),
        12 => format!("<{}/>", "é".repeat(n)),
        13 => format!("<b a='{}'/>", "&lt;é".repeat(n)),
        14 => format!("<{}:b/>", "p".repeat(n)),
        _ => format!("&#{};", "0".repeat(n)),
    };
    let d = match s.below(4) {
        0 => inner,
        1 => format!("<r>{inner}</r>"),
        2 => format!("<r><v>{inner}</v></r>"),
        _ => {
            let mut el = el;
            el.kids.clear();
            let shell = ty.render(&el, s, Style::PLAIN);
            match shell.rfind("</") {
                Some(i) => format!("{}{inner}{}", &shell[..i], &shell[i..]),
                None => shell,
            }
        }
    };
    o.key(&[&ty.name(), &d]);
    o.nontrivial = true;
    o.sample(|| format!("{} ... ({} bytes)", d.chars().take(200).collect::<String>(), d.len()));
    let start = std::time::Instant::now();
    o.runs += read_any(cx, Some(ty), s, &d);
    let mut n = 0;
    if let Ok(mut de) = Deserializer::new(&d) {
        while de.next().is_some() {
            n += 1;
            if n > MAX_LEN {
                return Err("next() never returns None".into());
            }
        }
    }
    let t = start.elapsed().as_secs_f64();
    o.tag(if t > 5.0 { "slow" } else { "fast" });
    Ok(())
}

// ---- C12

/// Start, end and length of the tags of a document this harness rendered
#[derive(Clone, Debug)]
struct Tag {
    at: usize,
    end: usize,
    close: bool,
    empty: bool,
}

fn tags(d: &str) -> Vec<Tag> {
    let b = d.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'<' {
            i += 1;
            continue;
        }
        let rest = &d[i..];
        if rest.starts_with("<!--") {
            i += rest[4..].find("-->").unwrap() + 7;
        } else if rest.starts_with("<![CDATA[") {
            i += rest.find("]]>").unwrap() + 3;
        } else if rest.starts_with("<?") {
            i += rest.find("?>").unwrap() + 2;
        } else if b[i] == b'<' {
            let at = i;
            let mut quote = 0u8;
            while i < b.len() && !(quote == 0 && b[i] == b'>') {
                match b[i] {
                    c if c == quote => quote = 0,
                    c @ (b'"' | b'\'') if quote == 0 => quote = c,
                    _ => {}
                }
                i += 1;
            }
            i += 1;
            out.push(Tag { at, end: i, close: b[at + 1] == b'/', empty: b[i - 2] == b'/' });
        } else {
            i += 1;
        }
    }
    out
}

/// Where character data of an element can go
fn inside(s: &mut Src, d: &str, ts: &[Tag]) -> usize {
    // right after a start tag or before an end tag
    let spots: Vec<usize> = ts
        .iter()
        .filter(|t| !t.empty)
        .map(|t| if t.close { t.at } else { t.end })
        .collect();
    match spots.is_empty() {
        true => d.len(),
        false => *s.pick(&spots),
    }
}

fn name_len(t: &str) -> usize {
    t.find([' ', '\t', '\n', '\r', '>', '/']).unwrap_or(t.len())
}

/// One structural fault; None if the document has no place for it
fn damage(s: &mut Src, d: &str) -> Option<(&'static str, String)> {
    let ts = tags(d);
    let ends: Vec<&Tag> = ts.iter().filter(|t| t.close).collect();
    let starts: Vec<&Tag> = ts.iter().filter(|t| !t.close).collect();
    let put = |i: usize, j: usize, with: &str| format!("{}{with}{}", &d[..i], &d[j..]);
    let last = ts.last()?.end;
    let first = ts.first()?.at;
    Some(match s.below(34) {
        0 => {
            let t = *s.pick(some(&ends)?);
            ("end tag removed", put(t.at, t.end, ""))
        }
        1 => {
            let t = *s.pick(some(&ends)?);
            ("end tag repeated", put(t.end, t.end, &d[t.at..t.end]))
        }
        2 => {
            let t = *s.pick(some(&starts)?);
            if t.empty {
                return None;
            }
            ("start tag removed", put(t.at, t.end, ""))
        }
        3 => {
            // another name
            let t = *s.pick(some(&ends)?);
            let name = &d[t.at + 2..t.end];
            let name = &name[..name_len(name)];
            let new = match s.below(8) {
                5.. => match name.rsplit_once(':') {
                    Some((p, l)) => format!("{p}:{}", super::read::near(s, l)),
                    None => super::read::near(s, name),
                },
                0 => format!("{name}x"),
                1 => {
                    let mut c = name.chars();
                    c.next();
                    let n = c.as_str().to_owned();
                    if n.is_empty() || n.starts_with(':') { format!("x{name}") } else { n }
                }
                2 => name.to_uppercase(),
                3 => format!("x{name}"),
                _ => name.chars().rev().collect(),
            };
            if new == name {
                return None;
            }
            ("end tag renamed", put(t.at + 2, t.at + 2 + name.len(), &new))
        }
        4 => {
            // another prefix, perhaps of the same namespace
            let t = *s.pick(some(&ends)?);
            let name = &d[t.at + 2..t.end];
            let name = &name[..name_len(name)];
            let new = match name.split_once(':') {
                Some((_, l)) if s.chance(1, 2) => l.to_owned(),
                Some((p, l)) => {
                    let q = *s.pick(&["p", "q", "ns1", "a.b", "P", "é", "xs"]);
                    if q == p {
                        return None;
                    }
                    format!("{q}:{l}")
                }
                None => format!("{}:{name}", s.pick(&["p", "q", "ns1", "a.b", "P", "é", "xs"])),
            };
            ("prefix of an end tag changed", put(t.at + 2, t.at + 2 + name.len(), &new))
        }
        5 => {
            // two end tags swapped
            let (a, b) = (*s.pick(some(&ends)?), *s.pick(some(&ends)?));
            if a.at >= b.at {
                return None;
            }
            let (x, y) = (&d[a.at..a.end], &d[b.at..b.end]);
            ("end tags swapped", format!("{}{y}{}{x}{}", &d[..a.at], &d[a.end..b.at], &d[b.end..]))
        }
        6 => {
            let i = inside(s, d, &ts);
            ("stray end tag", put(i, i, s.pick(&["</r>", "</a>", "</zz>", "</p:a>", "</v>", "</ >", "</>"])))
        }
        7 => ("end tag after the root", put(last, last, s.pick(&["</r>", "</a>", "</zz>", "</p:a>"]))),
        8 => ("end tag before the root", put(first, first, s.pick(&["</r>", "</a>", "</zz>"]))),
        9 => ("second root", put(last, last, s.pick(&["<a/>", "<r/>", "<a></a>", "<a>", "\n<a/>", "<!--c--><b/>"]))),
        10 => ("second root", put(last, last, &d[first..last])),
        11 => ("root before the root", put(first, first, s.pick(&["<a/>", "<a></a>", "<r/>", "<a/>\n"]))),
        12 => ("text after the root", format!("{}{}", &d[..last], s.pick(&["x", " x ", "&amp;", "<![CDATA[x]]>", "<!--c-->x", ">", "\"", "0", "é", "]]>", "<![CDATA[]]>"]))),
        13 => ("text after the root", format!("{d}{}", s.pick(&["x", "&#32;", "<![CDATA[ ]]>", "é", "-->", "<", "</"]))),
        14 => ("text before the root", put(first, first, s.pick(&["x", "&amp;", "<![CDATA[x]]>", ">", "0", "é"]))),
        15..=17 => {
            // attribute values
            let with: Vec<&&Tag> = starts.iter().filter(|t| d[t.at..t.end].contains('=')).collect();
            let t = *s.pick(some(&with)?);
            let tag = &d[t.at..t.end];
            let eqs = attr_spans(tag);
            let (eq, q0, q1) = *s.pick(some(&eqs)?);
            let new = match s.below(7) {
                0 => format!("{}{}{}", &tag[..q0], &tag[q0 + 1..q1], &tag[q1 + 1..]),
                1 => format!("{}{}", &tag[..eq + 1], &tag[q1 + 1..]),
                2 => format!("{}{}", &tag[..eq], &tag[q1 + 1..]),
                3 => format!("{}{}", &tag[..eq], &tag[eq + 1..]),
                4 => format!("{}{}", &tag[..q1], &tag[q1 + 1..]),
                5 => format!("{}{}", &tag[..q0], &tag[q0 + 1..]),
                _ => format!("{}={}", &tag[..eq], &tag[eq..]),
            };
            ("attribute value", put(t.at, t.end, &new))
        }
        18 => {
            let t = *s.pick(some(&starts)?);
            let end = t.end - if t.empty { 2 } else { 1 };
            ("attribute without value", put(end, end, s.pick(&[" zz", " zz=", " zz=v", " zz='", " =\"v\"", " zz zz2='v'", " 'v'", " zz:='v'"])))
        }
        19 => {
            let dtd = *s.pick(&["<!DOCTYPE r>", "<!DOCTYPE r []>", "<!DOCTYPE r [<!ENTITY e \"v\">]>", "<!DOCTYPE r SYSTEM \"r.dtd\">", "<!DOCTYPE r PUBLIC \"-\" \"r\">", "<!DOCTYPE r [ ]>"]);
            match s.below(4) {
                0 | 1 => ("DTD", put(first, first, dtd)),
                2 => ("DTD after the root", put(last, last, dtd)),
                _ => {
                    let i = inside(s, d, &ts);
                    ("DTD in content", put(i, i, dtd))
                }
            }
        }
        20 => {
            let i = inside(s, d, &ts);
            ("markup that does not end", put(i, i, s.pick(&["<!--", "<![CDATA[", "<", "<a", "<a b='", "</", "<?x", "<!", "<!x>", "<1>", "< a>", "<a <b>"])))
        }
        21 => {
            let t = *s.pick(some(&starts)?);
            match t.empty {
                true => ("empty element left open", put(t.end - 2, t.end, ">")),
                false => ("open element made empty", put(t.end - 1, t.end, "/>")),
            }
        }
        22 => {
            let t = s.pick(&ts);
            ("tag not ended", put(t.end - 1, t.end, ""))
        }
        23 => {
            let t = s.pick(&ts);
            ("tag not begun", put(t.at, t.at + 1, ""))
        }
        24 => {
            let t = *s.pick(some(&ends)?);
            ("attribute in an end tag", put(t.end - 1, t.end - 1, s.pick(&[" a='b'", " x", "/", " xmlns:p='u'"])))
        }
        25 => {
            let t = s.pick(&ts);
            let at = t.at + 1 + usize::from(t.close);
            ("space before a name", put(at, at, " "))
        }
        27 | 28 => {
            let mut i = s.idx(last + 1);
            while !d.is_char_boundary(i) {
                i -= 1;
            }
            ("forbidden character", put(i, i, s.pick(&["\u{1}", "\u{b}", "\u{1f}", "\u{fffe}", "\u{ffff}", "\u{8}", "\0"])))
        }
        29 => {
            let r = *s.pick(&["&foo;", "&", "&;", "&#0;", "&#xFFFE;", "&#1114112;", "&amp", "& ", "&#x;", "&LT;", "&#xD800;", "&nbsp;", "&#;", "&#-1;", "&#x 1;", "&&amp;"]);
            match s.chance(1, 2) {
                true => {
                    let i = inside(s, d, &ts);
                    ("reference in content", put(i, i, r))
                }
                false => {
                    let t = *s.pick(some(&starts)?);
                    let end = t.end - if t.empty { 2 } else { 1 };
                    ("reference in an attribute", put(end, end, &format!(" zz-z='{r}'")))
                }
            }
        }
        30 => {
            let i = inside(s, d, &ts);
            ("misplaced delimiter", put(i, i, s.pick(&["]]>", "<!-- a -- b -->", "<!--a--->", "<!---->]]>", "<!-->", "<!--->", "<![cdata[x]]>", "<![CDATA [x]]>", "<!-- a ->", "<!ELEMENT a>", "<![CDATA[]]>]]>"])))
        }
        31 => {
            let decl = *s.pick(&["<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>"]);
            match s.below(4) {
                0 => {
                    let i = inside(s, d, &ts);
                    ("XML declaration in content", put(i, i, decl))
                }
                1 => ("XML declaration after the root", put(last, last, decl)),
                2 => ("XML declaration before the root", put(first, first, &format!("<!--c-->{decl}"))),
                _ => ("two XML declarations", put(0, first, &format!("{decl}{decl}"))),
            }
        }
        32 => {
            let decl = *s.pick(&["<?xml?>", "<?xml ?>", "<?xml encoding='UTF-8'?>", "<?xml version='1.0' standalone='maybe'?>", "<?xml version=1.0?>", "<?xml version='1.0' x='y'?>", "<?xml version='1.0'>", "<?xml version='1.0' standalone='yes' encoding='UTF-8'?>", "<?xml version='1.0", "<?xml version='1.0' ?"]);
            ("bad XML declaration", put(0, first, decl))
        }
        33 => {
            // no space between two attributes
            let t = *s.pick(some(&starts)?);
            let tag = &d[t.at..t.end];
            let eqs = attr_spans(tag);
            let (_, _, q1) = *s.pick(some(&eqs)?);
            let rest = tag[q1 + 1..].trim_start();
            if rest.starts_with(['>', '/']) {
                return None;
            }
            ("no space between attributes", put(t.at + q1 + 1, t.end - rest.len(), ""))
        }
        _ => {
            // '<' in an attribute value
            let t = *s.pick(some(&starts)?);
            let eqs = attr_spans(&d[t.at..t.end]);
            let (_, q0, _) = *s.pick(some(&eqs)?);
            ("'<' in an attribute value", put(t.at + q0 + 1, t.at + q0 + 1, "<"))
        }
    })
}

fn some<T>(v: &[T]) -> Option<&[T]> {
    if v.is_empty() { None } else { Some(v) }
}

/// '=' and the quotes of the attributes of a tag
fn attr_spans(tag: &str) -> Vec<(usize, usize, usize)> {
    let b = tag.as_bytes();
    let mut out = Vec::new();
    let (mut eq, mut quote, mut q0) = (0, 0u8, 0);
    for (i, c) in b.iter().enumerate() {
        match (quote, *c) {
            (0, b'=') => eq = i,
            (0, b'"' | b'\'') => {
                quote = *c;
                q0 = i;
            }
            (q, c) if q == c && q != 0 => {
                out.push((eq, q0, i));
                quote = 0;
            }
            _ => {}
        }
    }
    out
}

/// Not well-formed; faults in the use of namespaces and repeated attributes do not count here
fn rejected(doc: &str) -> bool {
    match xmlref::parse(doc) {
        Ok(_) => false,
        Err(m) => {
            !["undeclared prefix", "duplicate attribute", "illegal declaration", "namespace prefix"].iter().any(|p| m.starts_with(p))
                && !m.contains("bound to no namespace")
        }
    }
}

fn readers(ty: &Ty_<'_>, doc: &str, what: &str) -> Result<(), String> {
    if let Ok(v) = (ty.e.read)(doc) {
        return Err(format!("{what}: accepted as {v:?}\ndocument: {doc}\n{}", ty.decls()));
    }
    if let Ok(v) = from_str::<AnyElement<'_>>(doc) {
        return Err(format!("{what}: captured as {v:?}\ndocument: {doc}"));
    }
    Ok(())
}

fn typed_doc<'a>(cx: &'a Cx, s: &mut Src) -> Option<(String, Ty_<'a>)> {
    let ty = pick(cx, s, all);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    if s.chance(1, 3) {
        super::read::add_foreign(&ty, &mut el, s, 1);
    }
    let st = if s.chance(1, 2) { Style::FULL } else { Style::PLAIN };
    let doc = ty.render(&el, s, st);
    // only documents that are read
    if (ty.e.read)(&doc).is_err() {
        return None;
    }
    Some((doc, ty))
}

fn truncate(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let Some((doc, ty)) = typed_doc(cx, s) else { return Ok(()) };
    o.key(&[&ty.name(), &doc]);
    o.sample(|| format!("every prefix of {doc}"));
    o.nontrivial = true;
    let end = xmlref::parse(&doc).map_err(|m| format!("HARNESS ERROR: {m}: {doc}"))?.span.1;
    // every position of a short document, and a part of those of a long one
    let step = doc.len() / 500 + 1;
    for i in (s.idx(step)..doc.len()).step_by(step).filter(|i| doc.is_char_boundary(*i)) {
        let d = &doc[..i];
        if !rejected(d) {
            // the rest is a comment or space
            continue;
        }
        o.runs += 3;
        readers(&ty, d, "truncated")?;
        if i < end && pull_all(d) {
            return Err(format!("truncated: consumed with next() and ignore() without an error\ndocument: {d}"));
        }
    }
    Ok(())
}

/// Whether the root element can be consumed without an error
fn pull_all(doc: &str) -> bool {
    match Deserializer::new(doc) {
        Ok(mut d) => d.ignore().is_ok(),
        Err(_) => false,
    }
}

fn fault(s: &mut Src, doc: &str, o: &mut Obs) -> Option<(&'static str, String)> {
    for _ in 0..4 {
        if let Some((what, d)) = damage(s, doc) {
            if rejected(&d) {
                o.tag(what);
                return Some((what, d));
            }
            o.tag(&format!("still well-formed: {what}"));
        }
    }
    None
}

fn corrupt(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let Some((doc, ty)) = typed_doc(cx, s) else { return Ok(()) };
    let Some((what, d)) = fault(s, &doc, o) else { return Ok(()) };
    o.key(&[&ty.name(), &d]);
    o.sample(|| format!("{what}: {d}"));
    o.nontrivial = true;
    o.runs += 2;
    readers(&ty, &d, what)
}

/// The fault is in content nobody reads
fn corrupt_ignored(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let inner = render(None, &any_tree(s), s, Style { prolog: false, ..Style::FULL });
    let (pre, post) = *s.pick(&[
        ("<r>", "</r>"),
        ("<r><v>1</v>", "</r>"),
        ("<r>", "<v>1</v></r>"),
        ("<r v='1'><x>", "</x></r>"),
        ("<r><y/>", "<y></y></r>"),
        ("<r v=\"2\"><v>3</v><x><y>", "</y>t</x></r>"),
    ]);
    let whole = s.chance(1, 3);
    let (what, d) = match whole {
        true => match fault(s, &format!("{pre}{inner}{post}"), o) {
            Some(x) => x,
            None => return Ok(()),
        },
        // only the part that is ignored
        false => {
            let mut x = None;
            for _ in 0..4 {
                if let Some((what, inner)) = damage(s, &inner) {
                    let d = format!("{pre}{inner}{post}");
                    if rejected(&d) {
                        x = Some((what, d));
                        break;
                    }
                }
            }
            match x {
                Some(x) => x,
                None => return Ok(()),
            }
        }
    };
    o.key(&[&d]);
    o.sample(|| format!("{what}: {d}"));
    o.nontrivial = true;
    o.runs += 12;
    let fail = |how: &str, got: &dyn std::fmt::Debug| Err(format!("{what}: read as {how}: {got:?}\ndocument: {d}"));
    if let Ok(v) = from_str::<Nothing>(&d) {
        return fail("a struct without fields", &v);
    }
    if let Ok(v) = from_str::<Unit>(&d) {
        return fail("a unit struct", &v);
    }
    for p in POS {
        if let Ok(v) = hand::read_scalar(ScK::I32, p, &d) {
            return fail(&format!("i32 in position {p:?}"), &v);
        }
        if let Ok(v) = hand::read_scalar(ScK::Str, p, &d) {
            return fail(&format!("String in position {p:?}"), &v);
        }
    }
    Ok(())
}

fn corrupt_any(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let doc = render(None, &any_tree(s), s, Style::FULL);
    let Some((what, d)) = fault(s, &doc, o) else { return Ok(()) };
    o.key(&[&d]);
    o.sample(|| format!("{what}: {d}"));
    o.nontrivial = true;
    o.runs += 1;
    if let Ok(v) = from_str::<AnyElement<'_>>(&d) {
        return Err(format!("{what}: captured as {v:?}\ndocument: {d}"));
    }
    Ok(())
}
