//! C04 references, C10 scalars, C15 borrowing.
use std::borrow::Cow;

use instant_xml::{from_str, AnyElement, Deserializer, Error};
use support::{Borrow, Conv, Sc, Val};
use xmodel::lexical;
use xmodel::model::{Cls, El, Nd};
use xmodel::render::Style;
use xmodel::schema::*;
use xmodel::src::Src;
use xmodel::val::AnyV;
use xmodel::xmlref::{self, PEl, PNode};
use xmodel::gen;

use crate::engine::{part, Check, Cx, Obs};
use crate::hand::*;
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C04",
            level: "exploration",
            rule: "sequences of literals, references, near-references, CDATA sections and comments are put into every text position; nontrivial: at least one '&'; distinct: by position and raw text",
            assumptions: &["the decoding rules of harness/xmodel/src/xmlref.rs"],
            parts: vec![part("decode", 250_000, decode), part("numbers", 250_000, numbers)],
            known: vec![],
        },
        Check {
            id: "C10",
            level: "exploration",
            rule: "values and texts near the lexical space of a scalar type, in every position; nontrivial: every text; distinct: by type, position and text",
            assumptions: &["the grammars of harness/xmodel/src/lexical.rs; floats: the standard library's own conversion; forms of dates outside the canonical ones are not judged"],
            parts: vec![part("write", 120_000, scalar_write), part("read", 250_000, scalar_read), part("dates", 120_000, date_read)],
            known: vec![],
        },
        Check {
            id: "C15",
            level: "exploration",
            rule: "documents whose strings are unique tokens; the position of every string in the document is known; nontrivial: at least one borrowed and one owned string; distinct: by type and document",
            assumptions: &["the reference model and renderer in harness/xmodel"],
            parts: vec![part("typed", 80_000, borrow_typed), part("any", 60_000, borrow_any), part("single", 60_000, borrow_single)],
            known: vec![],
        },
    ]
}

// ---- C04

#[derive(Clone, Debug)]
enum Seg {
    Chars(String),
    Cdata(String),
    Comment,
}

const NEAR: [&str; 60] = [
    "&amp;", "&lt;", "&gt;", "&quot;", "&apos;", "&#38;", "&#x26;", "&#60;", "&#x3c;", "&#x3C;", "&#xE9;", "&#233;", "&#x1F600;", "&#x10FFFF;",
    "&#1114111;", "&#9;", "&#xA;", "&#13;", "&#32;", "&#xD7FF;", "&#xE000;", "&#xFFFD;", "&#x10000;", "&#55295;", "&#57344;", "&#65533;", "&#00065;",
    // not references
    "&", "&;", "&#;", "&#x;", "&amp", "&foo;", "&AMP;", "&Lt;", "& amp;", "&amp ;", "&#38", "&#x26", "&#-38;", "&#+38;", "&#x+26;", "&#x-26;", "&#0;",
    "&#x0;", "&#8;", "&#xB;", "&#xFFFE;", "&#xFFFF;", "&#xD800;", "&#xDFFF;", "&#x110000;", "&#1114112;", "&#4294967334;", "&#xg;", "&#3a;", "&#x 26;", "&é;", "&apo;", "&quote;",
];

fn seg_chars(s: &mut Src, attr: bool) -> String {
    let mut out = String::new();
    for _ in 0..1 + s.idx(4) {
        match s.below(6) {
            0 | 1 => out.push_str(s.pick(&NEAR[..27])),
            2 => out.push_str(&reference(s)),
            3 => out.push_str(s.pick(&["", ";", "#", "x", "amp;", "a", "é", "日", "\u{1F600}", "&amp;amp;", "\n", " "])),
            _ => out.push_str(&gen::text(s)),
        }
    }
    // something that is not a reference
    if s.chance(1, 4) {
        let at: Vec<usize> = out.char_indices().map(|(i, _)| i).chain([out.len()]).collect();
        let i = *s.pick(&at);
        let n = *s.pick(&NEAR);
        out.insert_str(i, n);
    }
    let mut out: String = out.chars().filter(|c| *c != '<' && !(attr && *c == '"')).collect();
    while let Some(i) = out.find("]]>") {
        out.remove(i);
    }
    // without the literal form an '&' of the generated text is just one more near-reference; keep most texts valid
    if !s.chance(1, 3) && xmlref::unescape(&out).is_err() {
        out = out.replace('&', "&amp;");
    }
    out
}

/// A numeric reference to an interesting or random number
fn reference(s: &mut Src) -> String {
    let n = match s.below(5) {
        0 => *s.pick(&[0u64, 1, 8, 9, 0xA, 0xB, 0xC, 0xD, 0xE, 0x1F, 0x20, 0x7F, 0x80, 0xFF, 0x100, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0xFFFFFF, 0xFFFFFFF]),
        1 => s.below(0x80),
        2 => s.below(0x800),
        3 => s.below(0x1_0000),
        _ => s.below(0x11_0010),
    };
    let mut body = match s.below(3) {
        0 => format!("#{n}"),
        1 => format!("#x{n:x}"),
        _ => format!("#x{n:X}"),
    };
    if s.chance(1, 6) {
        let zeros = "0".repeat(1 + s.idx(4));
        let at = if body.starts_with("#x") { 2 } else { 1 };
        body.insert_str(at, &zeros);
    }
    format!("&{body};")
}

/// What the segments mean; `long` if a valid reference exceeds the documented length
struct Want {
    text: Option<String>,
    long: bool,
    upper: bool,
}

fn meaning(segs: &[Seg]) -> Want {
    let mut w = Want { text: Some(String::new()), long: false, upper: false };
    for seg in segs {
        match seg {
            Seg::Comment => {}
            Seg::Cdata(t) => {
                if let Some(x) = &mut w.text {
                    x.push_str(t);
                }
            }
            Seg::Chars(raw) => {
                w.upper |= raw.contains("&#X");
                for p in raw.split('&').skip(1) {
                    if let Some((name, _)) = p.split_once(';') {
                        w.long |= name.len() > 8 && name.starts_with('#');
                    }
                }
                match (xmlref::unescape(raw), &mut w.text) {
                    (Ok(t), Some(x)) => x.push_str(&t),
                    _ => w.text = None,
                }
            }
        }
    }
    w
}

fn raw(segs: &[Seg]) -> String {
    let mut out = String::new();
    for seg in segs {
        match seg {
            Seg::Chars(r) => out.push_str(r),
            Seg::Cdata(t) => {
                out.push_str("<![CDATA[");
                out.push_str(t);
                out.push_str("]]>");
            }
            Seg::Comment => out.push_str("<!-- &lt; &bad -->"),
        }
    }
    out
}

/// All the ways to read a text
fn decode_all(attr: bool, raw: &str) -> Vec<(&'static str, String, Result<String, Error>)> {
    let mut out: Vec<(&'static str, String, Result<String, Error>)> = Vec::new();
    let mut add = |n: &'static str, doc: String, f: &dyn Fn(&str) -> Result<String, Error>| {
        let r = f(&doc);
        out.push((n, doc, r));
    };
    let strip = |v: Result<Val, Error>| -> Result<String, Error> {
        fn get(v: Val) -> String {
            match v {
                Val::Sc(Sc::Str(s)) => s,
                Val::Opt(Some(v)) => get(*v),
                Val::Opt(None) => String::new(),
                Val::List(mut v) => get(v.remove(0)),
                v => panic!("{v:?}"),
            }
        }
        v.map(get)
    };
    for p in POS {
        if p.attr() == attr {
            let name = match p {
                Pos::El => "element",
                Pos::At => "attribute",
                Pos::Di => "direct",
                Pos::OpEl => "optional element",
                Pos::OpAt => "optional attribute",
                Pos::OpDi => "optional direct",
                Pos::Ls => "list item",
                Pos::Bx => "boxed",
                Pos::Tu => "tuple",
            };
            add(name, p.doc(&[raw]), &|d| strip(read_scalar(ScK::Str, p, d)));
        }
    }
    match attr {
        true => {
            add("borrowed attribute", Pos::At.doc(&[raw]), &|d| from_str::<BoAt<'_>>(d).map(|v| v.v.into_owned()));
            add("borrowed bytes attribute", Pos::At.doc(&[raw]), &|d| {
                from_str::<BoBytesAt<'_>>(d).map(|v| String::from_utf8(v.v.0.into_owned()).unwrap())
            });
            add("AnyElement attribute", Pos::At.doc(&[raw]), &|d| from_str::<AnyElement<'_>>(d).map(|v| v.attributes[0].value.to_string()));
            add("nested AnyElement attribute", format!("<x><r v=\"{raw}\"/></x>"), &|d| {
                from_str::<AnyElement<'_>>(d).map(|v| v.children[0].attributes[0].value.to_string())
            });
        }
        false => {
            add("borrowed element", Pos::El.doc(&[raw]), &|d| from_str::<BoEl<'_>>(d).map(|v| v.v.into_owned()));
            add("borrowed bytes", Pos::El.doc(&[raw]), &|d| {
                from_str::<BoBytes<'_>>(d).map(|v| String::from_utf8(v.v.0.into_owned()).unwrap())
            });
            add("AnyElement text", Pos::Di.doc(&[raw]), &|d| {
                from_str::<AnyElement<'_>>(d).map(|v| v.text.map(|t| t.into_owned()).unwrap_or_default())
            });
            add("take_str", Pos::Di.doc(&[raw]), &|d| {
                let mut d = Deserializer::new(d)?;
                let r = d.take_str()?.map(|t| t.into_owned()).unwrap_or_default();
                d.ignore()?;
                Ok(r)
            });
        }
    }
    out
}

fn judge(segs: &[Seg], attr: bool, o: &mut Obs) -> Result<(), String> {
    let r = raw(segs);
    let want = meaning(segs);
    if want.upper {
        return Ok(());
    }
    o.key(&[if attr { "attr" } else { "text" }, &r]);
    o.nontrivial = r.contains('&');
    o.sample(|| format!("{} {r:?}", if attr { "attribute" } else { "text" }));
    o.tag(match (&want.text, want.long) {
        (_, true) => "long reference",
        (Some(_), _) => "valid",
        (None, _) => "invalid",
    });
    for (how, doc, got) in decode_all(attr, &r) {
        o.runs += 1;
        match (&want.text, got) {
            (Some(w), Ok(g)) if *w == g => {}
            (Some(_), Err(_)) if want.long => {}
            (None, Err(_)) => {}
            (w, g) => return Err(format!("{how}: expected {}, got {g:?}\ndocument: {doc}", match w {
                Some(w) => format!("{w:?}"),
                None => "an error".into(),
            })),
        }
    }
    // where the text is skipped it still has to be valid
    let (a, b) = match attr {
        true => (format!("<r><zz v=\"{r}\"/></r>"), format!("<r zz=\"{r}\"/>")),
        false => (format!("<r><zz>{r}</zz></r>"), format!("<r>{r}</r>")),
    };
    for doc in [a, b] {
        let got = from_str::<Nothing>(&doc).map(|_| ());
        let unit = from_str::<Unit>(&doc).map(|_| ());
        if got.is_ok() != want.text.is_some() && !want.long {
            return Err(format!("skipped content: expected {}, got {got:?}\ndocument: {doc}", if want.text.is_some() { "success" } else { "an error" }));
        }
        if unit.is_ok() != got.is_ok() {
            return Err(format!("skipped content: a unit struct gives {unit:?}, an empty struct {got:?}\ndocument: {doc}"));
        }
    }
    Ok(())
}

fn decode(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let attr = s.chance(1, 2);
    let mut segs = Vec::new();
    for _ in 0..1 + s.idx(3) {
        segs.push(match s.below(6) {
            0 if !attr => {
                let mut t = gen::text(s);
                if s.chance(1, 3) {
                    t.push_str(s.pick(&["&amp;", "&", "<a>", "&#38;", "&#x;"]));
                }
                // "]]" before the closing "]]>" is fine, "]]>" is not
                while let Some(i) = t.find("]]>") {
                    t.remove(i);
                }
                Seg::Cdata(t)
            }
            1 if !attr => Seg::Comment,
            _ => Seg::Chars(seg_chars(s, attr)),
        });
    }
    // "]]" + ">" across neighbouring pieces would be "]]>"
    for i in 1..segs.len() {
        let ends = matches!(&segs[i - 1], Seg::Chars(a) if a.ends_with(']'));
        if let (true, Seg::Chars(b)) = (ends, &mut segs[i]) {
            b.insert(0, '.');
        }
        // pieces that only form a reference together
    }
    // join neighbouring character data: references may form across the boundary
    let mut joined: Vec<Seg> = Vec::new();
    for seg in segs {
        match (joined.last_mut(), seg) {
            (Some(Seg::Chars(a)), Seg::Chars(b)) => a.push_str(&b),
            (_, seg) => joined.push(seg),
        }
    }
    judge(&joined, attr, o)
}

/// One reference between two literals, systematically over the numbers
fn numbers(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let attr = s.chance(1, 2);
    let lit = |s: &mut Src| (*s.pick(&["", "a", "é", "日本", "\u{1F600}", ";", "x;", " ", "#"])).to_owned();
    let (a, b) = (lit(s), lit(s));
    // neighbourhoods of the boundaries, in order of the index
    let bounds: [u64; 12] = [0, 0x9, 0xD, 0x20, 0x80, 0x800, 0xD800, 0xE000, 0xFFFE, 0x10000, 0x110000, 0xFFFFF];
    let n = match s.below(2) {
        0 => bounds[(o.index % 12) as usize].saturating_add(s.below(9)).saturating_sub(4),
        _ => o.index.wrapping_mul(7) % 0x11_0100,
    };
    let r = match s.below(4) {
        0 => format!("&#{n};"),
        1 => format!("&#x{n:x};"),
        2 => format!("&#x{n:06X};"),
        _ => format!("&#{n:07};"),
    };
    judge(&[Seg::Chars(format!("{a}{r}{b}"))], attr, o)
}

// ---- C10

pub(super) fn escape(t: &str) -> String {
    let mut out = String::new();
    for c in t.chars() {
        match c {
            '&' => out.push_str("&amp;"),
            '<' => out.push_str("&lt;"),
            '>' => out.push_str("&gt;"),
            '"' => out.push_str("&quot;"),
            c => out.push(c),
        }
    }
    out
}

fn scalar_write(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let k = *s.pick(&SCALARS);
    let p = *s.pick(&POS);
    let n = if p == Pos::Ls { s.small(4) } else { 1 };
    let mut vals: Vec<Sc> = Vec::new();
    for _ in 0..n {
        let mut v = gen::scalar(s, k);
        // an empty string is not distinguishable from an absent text in this position
        if matches!(p, Pos::OpDi) && matches!(&v, Sc::Str(t) if t.is_empty()) {
            v = Sc::Str("x".into());
        }
        vals.push(v);
    }
    let v = p.val(vals.iter().cloned().map(Val::Sc).collect());
    let doc = write_scalar(k, p, &v).map_err(|e| format!("writing {v:?} ({k:?}, {p:?}) failed: {e:?}"))?;
    o.key(&[&format!("{k:?}{p:?}"), &doc]);
    o.nontrivial = true;
    o.tag(&format!("{k:?}"));
    o.sample(|| format!("{k:?} {p:?}: {doc}"));
    let el = xmlref::parse_output(&doc).map_err(|e| format!("{v:?} ({k:?}, {p:?}) is written as {doc}: {e}"))?;
    let texts: Vec<String> = match p.attr() {
        true => el.attrs.iter().map(|a| a.value.clone()).collect(),
        false => match p.elem() {
            true => el.elems().map(text).collect(),
            false => vec![text(&el)],
        },
    };
    let want: Vec<String> = vals.iter().map(|v| lexical::write(k, v)).collect();
    if texts != want {
        return Err(format!("{v:?} ({k:?}, {p:?}) is written as {doc}, expected {want:?}"));
    }
    match read_scalar(k, p, &doc) {
        Ok(r) if r == v => Ok(()),
        r => Err(format!("{v:?} ({k:?}, {p:?}) is read back as {r:?}\ndocument: {doc}")),
    }
}

fn text(e: &PEl) -> String {
    e.kids
        .iter()
        .map(|k| match k {
            PNode::T(t) => t.as_str(),
            PNode::E(_) => "",
        })
        .collect()
}

/// A text near the lexical space of the kind; None: not judged
fn near(s: &mut Src, k: ScK) -> Option<String> {
    let v = gen::scalar(s, k);
    let base = lexical::write(k, &v);
    let ws = |s: &mut Src| (*s.pick(&[" ", "\n", "\t", "  ", "\n\t ", ""])).to_owned();
    if matches!(k, ScK::Str | ScK::Cow | ScK::Disp) {
        return Some(gen::text(s));
    }
    if s.chance(1, 4) && !matches!(k, ScK::Char) {
        return junk(s, k, &base);
    }
    if let Some((lo, hi)) = lexical::int_bounds(k) {
        let off = 1 + s.below(4) as i128;
        let t = match s.below(12) {
            0 => (hi + off).to_string(),
            1 => (lo - off).to_string(),
            2 => format!("{}{base}", ws(s)),
            3 => format!("{base}{}", ws(s)),
            4 => format!("+{}", base.trim_start_matches('-')),
            5 => format!("0{base}").replace("0-", "-0"),
            6 => format!("{}{}", hi, s.below(10)),
            // wraps around to something small
            7 => (hi - lo + 1 + off).to_string(),
            8 => format!("-{base}").replace("--", "-"),
            9 => format!("{}{}", base, s.pick(&[".0", ".", "e0", "f", "u8", "_0", ",0", " 1", "\u{660}"])),
            10 => format!("{}", s.pick(&["", "+", "-", "--1", "+-1", "- 1", "0x10", "0b1", "1_000", "1,000", "\u{661}", "①", "nan", "true", "a"])),
            _ => format!("{}{base}{}", ws(s), ws(s)),
        };
        return Some(t);
    }
    Some(match k {
        ScK::Bool => (*s.pick(&["true", "false", "1", "0", "True", "TRUE", "False", "FALSE", "yes", "no", "on", "", "2", "00", "01", "t", "f", " true", "true ", "tru", "truee", "10", "-1", "+1", "\n0"])).to_owned(),
        ScK::Char => match s.below(4) {
            0 => base,
            1 => format!("{base}{}", gen::xml_char(s)),
            2 => (*s.pick(&["", "e\u{301}", "ab", "  ", " a", "a ", "\r\n", "&", "<", "\u{1F468}\u{200D}\u{1F469}"])).to_owned(),
            _ => gen::text(s),
        },
        ScK::F32 | ScK::F64 => match s.below(5) {
            0 => format!("{}{base}{}", ws(s), ws(s)),
            1 => (*s.pick(&[
                "inf", "-inf", "+inf", "infinity", "-Infinity", "NaN", "nan", "-nan", "INF", "1e5", "1E5", "1e+5", "1e-5", "1e400", "-1e400", "1e-400", "1e39", "1e38", ".5", "5.", "-.5", "+1.5", ".", "e5", "1e",
                "1e+", "", "-", "+", "1,5", "1.5.5", "0x1p3", "1_0", "1f", "--1", "1e5.5", "\u{661}", "0.1", "16777217", "9007199254740993", "340282356779733661637539395458142568447", "340282346638528859811704183484516925440", "1.17549435e-38", "0.00000000000000000000000000000000000000000000070064923216240854",
            ]))
            .to_owned(),
            2 => format!("{}.{}", s.below(1000), s.u64()),
            3 => format!("{}{}e{}{}", if s.chance(1, 2) { "-" } else { "" }, s.u64(), if s.chance(1, 2) { "-" } else { "" }, s.below(330)),
            _ => format!("{base}{}", s.pick(&["e0", "0", ".", "e1", "f", " 1"])),
        },
        ScK::Ip => match s.below(3) {
            0 => base,
            1 => format!("{base}{}", s.pick(&[" ", ".", ":", "/8", "%1", "]", "0", "\n", "."])),
            _ => (*s.pick(&[
                "1.2.3", "256.1.1.1", "1.2.3.4.5", "01.2.3.4", "1.2.3.04", "::", "::1", "1::", ":::", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::ffff:1.2.3.4", "::ffff:1.2.3.256", "[::1]", "localhost", "",
                " 1.2.3.4", "1.2.3.4 ", "1..3.4", "fe80::1%eth0", "::12345", "::g", "1::2::3", "0x1.2.3.4", "ABCD::", "-1.2.3.4", "1.2.3.4:80",
            ]))
            .to_owned(),
        },
        ScK::DtUtc | ScK::NDt | ScK::NDate => return date_form(s, k, &base),
        _ => base,
    })
}

fn junk(s: &mut Src, k: ScK, base: &str) -> Option<String> {
    // not judged: chrono accepts more than the canonical forms
    if matches!(k, ScK::DtUtc | ScK::NDt | ScK::NDate) {
        return Some(match s.below(4) {
            0 => String::new(),
            1 => format!("{base}x"),
            2 => base[..base.len() / 2].to_owned(),
            _ => format!("x{base}"),
        });
    }
    let mut cs: Vec<char> = base.chars().collect();
    let c = *s.pick(&['x', '/', '_', '\u{661}', '!', '\u{2212}']);
    let i = s.idx(cs.len() + 1);
    cs.insert(i, c);
    Some(cs.into_iter().collect())
}

fn date_form(s: &mut Src, k: ScK, base: &str) -> Option<String> {
    let mut t = base.trim_end_matches("+00:00").to_owned();
    // one field out of range, or in range by a hair
    let put = |t: &mut String, at: usize, v: &str| t.replace_range(at..at + v.len(), v);
    let n = if k == ScK::NDate { 4 } else { 8 };
    match s.below(n) {
        0 => {}
        1 => put(&mut t, 5, s.pick(&["00", "13", "02", "12", "99"])),
        2 => put(&mut t, 8, s.pick(&["00", "32", "31", "30", "29", "99"])),
        3 => {
            put(&mut t, 5, "02");
            put(&mut t, 8, s.pick(&["28", "29", "30"]));
            put(&mut t, 0, s.pick(&["2000", "1900", "2023", "2024", "2100", "0000", "0004", "9996"]));
        }
        4 => put(&mut t, 11, s.pick(&["24", "23", "00", "99"])),
        5 => put(&mut t, 14, s.pick(&["60", "59", "00", "99"])),
        6 => put(&mut t, 17, s.pick(&["61", "59", "00", "99"])),
        _ => {
            t.truncate(19);
            t.push_str(s.pick(&[".1", ".12", ".123", ".1234", ".000000001", ".999999999", ".100", ".0", ".50"]));
        }
    }
    if k == ScK::DtUtc {
        t.push_str(s.pick(&["+00:00", "Z", "Z", "+00:00", "+01:00", "-01:00", "+00:01", "-00:30", "+14:00", "-12:00", "", "+0", "+"]));
    }
    Some(t)
}

fn scalar_read(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let k = *s.pick(&SCALARS);
    let p = *s.pick(&POS);
    let n = if p == Pos::Ls { 1 + s.idx(3) } else { 1 };
    let mut texts = Vec::new();
    for _ in 0..n {
        match near(s, k) {
            Some(t) => texts.push(t),
            None => return Ok(()),
        }
    }
    let is_str = matches!(k, ScK::Str | ScK::Cow);
    // Some(text) that has to be read, None where there is no text at all
    let mut vals = Vec::new();
    let mut bad = false;
    let mut absent = false;
    for t in &texts {
        if t.is_empty() && !p.attr() && !matches!(p, Pos::Di | Pos::OpDi) && !is_str {
            absent = true;
            continue;
        }
        if t.is_empty() && p == Pos::OpDi {
            absent = true;
            continue;
        }
        match lexical::parse(k, t) {
            Some(v) => vals.push(Val::Sc(v)),
            None => bad = true,
        }
    }
    let raws: Vec<String> = texts.iter().map(|t| escape(t)).collect();
    let doc = p.doc(&raws.iter().map(|r| r.as_str()).collect::<Vec<_>>());
    o.key(&[&format!("{k:?}{p:?}"), &doc]);
    o.nontrivial = true;
    o.tag(&format!("{k:?} {}", if bad { "rejected" } else if absent { "absent" } else { "accepted" }));
    o.sample(|| format!("{k:?} {p:?}: {doc}"));
    let got = read_scalar(k, p, &doc);
    let ok = match (&got, bad, absent) {
        (Err(_), true, _) => true,
        // an empty element: no value, or an error
        (Err(_), false, true) => true,
        (Ok(g), false, true) => p.opt() && (*g == Val::Opt(None) || is_str && *g == Val::Opt(Some(Box::new(Val::str(""))))),
        (Ok(g), false, false) => *g == p.val(vals.clone()),
        _ => false,
    };
    match ok {
        true => Ok(()),
        false => Err(format!(
            "{k:?} in position {p:?}: expected {}, got {got:?}\ndocument: {doc}",
            match (bad, absent) {
                (true, _) => "an error".to_owned(),
                (_, true) => "no value".to_owned(),
                _ => format!("{:?}", p.val(vals)),
            }
        )),
    }
}

/// What chrono itself makes of a text, with the documented formats or its own parser
fn chrono_values(k: ScK, t: &str) -> Vec<Sc> {
    use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
    let nd = |d: NaiveDate| Sc::Date((d - NaiveDate::from_ymd_opt(1970, 1, 1).unwrap()).num_days());
    let ndt = |d: NaiveDateTime| Sc::Dt(d.and_utc().timestamp(), d.and_utc().timestamp_subsec_nanos());
    let dt = |d: DateTime<Utc>| Sc::Dt(d.timestamp(), d.timestamp_subsec_nanos());
    match k {
        ScK::NDate => [NaiveDate::parse_from_str(t, "%Y-%m-%d").ok(), t.parse::<NaiveDate>().ok()].into_iter().flatten().map(nd).collect(),
        ScK::NDt => [NaiveDateTime::parse_from_str(t, "%Y-%m-%dT%H:%M:%S%.f").ok(), t.parse::<NaiveDateTime>().ok()].into_iter().flatten().map(ndt).collect(),
        _ => [
            DateTime::parse_from_rfc3339(t).ok().map(|d| d.with_timezone(&Utc)),
            t.parse::<DateTime<Utc>>().ok(),
        ]
        .into_iter()
        .flatten()
        .map(dt)
        .collect(),
    }
}

/// Forms of dates beyond the canonical ones: what chrono rejects is rejected, what is accepted has chrono's value
fn date_read(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let k = *s.pick(&[ScK::NDate, ScK::NDt, ScK::DtUtc]);
    let p = *s.pick(&[Pos::El, Pos::At, Pos::Di, Pos::OpEl, Pos::OpAt, Pos::OpDi]);
    let base = lexical::write(k, &gen::scalar(s, k));
    let (d, rest) = base.split_at(10.min(base.len()));
    let t = match s.below(12) {
        // an ordinal date, a week date, the basic format, other orders and separators
        0 => format!("{}-{:03}{rest}", &d[..4], 1 + s.below(366)),
        1 => format!("{}-W{:02}-{}{rest}", &d[..4], 1 + s.below(53), 1 + s.below(7)),
        2 => base.replacen('-', "", 2),
        3 => base.replace(':', ""),
        4 => base.replacen('-', s.pick(&["/", ".", " ", "--", "\u{2212}", ":"]), 1 + s.idx(2)),
        5 => format!("{}-{}-{}{rest}", &d[8.min(d.len())..], d.get(5..7).unwrap_or("01"), &d[..4]),
        6 => format!("{}{rest}", &d[..7.min(d.len())]),
        7 => base.replacen('T', s.pick(&[" ", "t", "_", "", "  "]), 1),
        8 => format!("{}{base}", s.pick(&[" ", "+", "-", "0", "1", "\n", "+0", "-00"])),
        9 => format!("{base}{}", s.pick(&[" ", "Z", "+00:00", "T00:00:00", "z", " UTC", "+0000", "\n", ".5", "0", "[UTC]", "+00"])),
        10 => base.replacen("-0", "-", 1 + s.idx(2)),
        _ => {
            let mut cs: Vec<char> = base.chars().collect();
            for _ in 0..1 + s.idx(2) {
                let i = s.idx(cs.len());
                match s.below(3) {
                    0 => {
                        cs.remove(i);
                    }
                    1 => cs.insert(i, *s.pick(&['0', '1', '9', '-', ':', '.', ' ', '+', 'T', 'Z', 'W', 'x', ','])),
                    _ => cs[i] = *s.pick(&['0', '2', '9', '-', ':', '.', ' ', '+', 'T', 'Z', ',', '\u{661}']),
                }
                if cs.is_empty() {
                    cs.push('x');
                }
            }
            cs.into_iter().collect()
        }
    };
    // the canonical forms are judged by the part above
    if lexical::parse(k, &t).is_some() {
        return Ok(());
    }
    let want = chrono_values(k, &t);
    let doc = p.doc(&[&escape(&t)]);
    o.key(&[&format!("{k:?}{p:?}"), &doc]);
    o.nontrivial = true;
    o.tag(&format!("{k:?} {}", if want.is_empty() { "rejected" } else { "lenient" }));
    o.sample(|| format!("{k:?} {p:?}: {doc}"));
    match read_scalar(k, p, &doc) {
        Err(_) => Ok(()),
        Ok(g) if want.iter().any(|w| g == p.val(vec![Val::Sc(w.clone())])) => Ok(()),
        Ok(g) => Err(format!("{k:?} in position {p:?}: accepted as {g:?}, chrono: {want:?}\ndocument: {doc}")),
    }
}

// ---- C15

fn token(old: &str, n: &mut usize, s: &mut Src) -> String {
    *n += 1;
    if old.is_empty() {
        return String::new();
    }
    let mut t = format!("k{n}q");
    if s.chance(1, 3) {
        t.push_str(s.pick(&["&", "<", "é", " x", ">", "\"", "日"]));
        t.push('z');
    }
    t
}

/// Replaces every text by a token that occurs nowhere else
fn tokens(e: &mut El, n: &mut usize, s: &mut Src) {
    for a in &mut e.attrs {
        a.val = token(&a.val, n, s);
    }
    for k in &mut e.kids {
        match k {
            Nd::T(t) => *t = token(t, n, s),
            Nd::E(e) => tokens(e, n, s),
        }
    }
}

/// Replaces the strings of a value by unique tokens
fn token_val(f: &Family, t: &Ty, v: &mut Val, n: &mut usize, s: &mut Src) {
    match (t, v) {
        (Ty::Sc(ScK::Str | ScK::Cow), Val::Sc(Sc::Str(t))) => {
            *n += 1;
            if t.is_empty() {
                return;
            }
            *t = format!("k{n}q");
            if s.chance(1, 3) {
                t.push_str(s.pick(&["&", "<", "é", " x", ">", "\"", "日"]));
                t.push('z');
            }
        }
        (Ty::Opt(t), Val::Opt(Some(v))) => token_val(f, t, v, n, s),
        (Ty::Bx(t), v) => token_val(f, t, v, n, s),
        (Ty::Vec(t) | Ty::CowList(t), Val::List(vs)) => vs.iter_mut().for_each(|v| token_val(f, t, v, n, s)),
        (Ty::Ref(r), Val::Enum(i, Some(v))) => token_val(f, f.types[*r].variants[*i].ty.as_ref().unwrap(), v, n, s),
        (Ty::Ref(r), Val::Struct(vs)) => {
            for (fd, v) in f.types[*r].fields.iter().zip(vs) {
                token_val(f, &fd.ty, v, n, s);
            }
        }
        (Ty::Any, Val::Any(a)) => token_any(a, n, s),
        _ => {}
    }
}

fn token_any(a: &mut AnyV, n: &mut usize, s: &mut Src) {
    let mut set = |t: &mut String| {
        *n += 1;
        if !t.is_empty() {
            *t = format!("k{n}q");
            if s.chance(1, 3) {
                t.push_str(s.pick(&["&", "<", "é", " x", ">"]));
                t.push('z');
            }
        }
    };
    for (_, _, v) in &mut a.attrs {
        set(v);
    }
    if let Some(t) = &mut a.text {
        set(t);
    }
    for c in &mut a.children {
        token_any(c, n, s);
    }
}

/// The strings of a value that may be borrowed, in the order `Conv::borrows` visits them
fn cows(f: &Family, t: &Ty, v: &Val, must: bool, out: &mut Vec<(String, Must)>) {
    match (t, v) {
        (Ty::Sc(ScK::Cow), Val::Sc(Sc::Str(t))) => out.push((t.clone(), if must { Must::Borrow } else { Must::Own })),
        // the attribute only applies to the Cow itself
        (Ty::Opt(t), Val::Opt(Some(v))) => cows(f, t, v, false, out),
        (Ty::Bx(t), v) => cows(f, t, v, false, out),
        (Ty::Vec(t), Val::List(vs)) => vs.iter().for_each(|v| cows(f, t, v, false, out)),
        (Ty::Ref(r), Val::Struct(vs)) if f.types[*r].kind != Kind::Unit => {
            for (fd, v) in f.types[*r].fields.iter().zip(vs) {
                cows(f, &fd.ty, v, fd.borrow, out);
            }
        }
        (Ty::Any, Val::Any(a)) => cows_any(a, out),
        _ => {}
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Must {
    /// borrowed exactly if the text stands in the document
    Borrow,
    /// the type says nothing about it
    Own,
    /// names and namespaces: in the document or a constant
    Name,
}

fn cows_any(a: &AnyV, out: &mut Vec<(String, Must)>) {
    out.push((a.ns.clone(), Must::Name));
    out.push((a.name.clone(), Must::Name));
    for (ns, n, v) in &a.attrs {
        out.push((ns.clone(), Must::Name));
        out.push((n.clone(), Must::Name));
        out.push((v.clone(), Must::Borrow));
    }
    if let Some(t) = &a.text {
        out.push((t.clone(), Must::Borrow));
    }
    a.children.iter().for_each(|c| cows_any(c, out));
}

fn spans(doc: &str, want: &[(String, Must)], got: &[Borrow], o: &mut Obs) -> Result<(), String> {
    if want.len() != got.len() {
        return Err(format!("HARNESS ERROR: {} strings, {} places", want.len(), got.len()));
    }
    let start = doc.as_ptr() as usize;
    let (mut b, mut w) = (0, 0);
    for ((t, must), g) in want.iter().zip(got) {
        let inside = g.ptr >= start && g.ptr + g.len <= start + doc.len();
        if g.borrowed && g.len > 0 && !inside && !(*must == Must::Name && t == xmlref::XML_NS) && *must != Must::Own {
            return Err(format!("{t:?} is borrowed from outside of the input\ndocument: {doc}"));
        }
        if g.borrowed && inside && doc.as_bytes()[g.ptr - start..g.ptr - start + g.len] != *t.as_bytes() {
            return Err(format!("HARNESS ERROR: {t:?} does not equal its own bytes"));
        }
        match must {
            Must::Own => {}
            Must::Name => {
                if !g.borrowed && !t.is_empty() {
                    return Err(format!("the name or namespace {t:?} is owned\ndocument: {doc}"));
                }
            }
            Must::Borrow if t.is_empty() => {}
            Must::Borrow => {
                let mut at = doc.match_indices(t.as_str());
                match (at.next(), at.next(), g.borrowed) {
                    (Some((i, _)), None, true) if g.ptr == start + i => b += 1,
                    (Some((i, _)), None, true) => {
                        return Err(format!("{t:?} is borrowed at {}, it stands at {i}\ndocument: {doc}", g.ptr - start))
                    }
                    (Some(_), None, false) => return Err(format!("{t:?} needs no decoding but is owned\ndocument: {doc}")),
                    (Some(_), Some(_), _) => return Err(format!("HARNESS ERROR: {t:?} is not unique in {doc}")),
                    (None, _, true) => return Err(format!("{t:?} needs decoding but is borrowed\ndocument: {doc}")),
                    (None, _, false) => w += 1,
                }
            }
        }
    }
    o.nontrivial |= b > 0 && w > 0;
    Ok(())
}

fn borrow_typed(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, |f, t, _| f.types[t].lifetime || has_any(f, t));
    let mut v = ty.val(s);
    let mut n = 0;
    token_val(ty.f, &Ty::Ref(ty.t), &mut v, &mut n, s);
    let el = ty.el(&v);
    let st = match s.below(3) {
        0 => Style::PLAIN,
        1 => Style { refs: true, ..Style::PLAIN },
        _ => Style::FULL,
    };
    let doc = ty.render(&el, s, st);
    o.key(&[&ty.name(), &doc]);
    o.sample(|| format!("{}: {doc}", ty.name()));
    let (got, bs) = match (ty.e.read_borrows)(&doc) {
        Ok(r) => r,
        Err(e) => return Err(format!("reading failed: {e:?}\ndocument: {doc}\n{}", ty.decls())),
    };
    let want = ty.expect(&el).map_err(|e| format!("HARNESS ERROR: the model rejects: {e:?} {el:?}"))?;
    if got != want {
        return Err(format!("wrong value\nexpected {want:?}\nread     {got:?}\ndocument: {doc}\n{}", ty.decls()));
    }
    let mut list = Vec::new();
    cows(ty.f, &Ty::Ref(ty.t), &want, false, &mut list);
    spans(&doc, &list, &bs, o).map_err(|m| format!("{m}\n{}", ty.decls()))
}

fn borrow_any(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let mut el = foreign_tree(s, 3, &["urn:a".to_owned(), "urn:b".to_owned()]);
    let mut n = 0;
    tokens(&mut el, &mut n, s);
    el.normalise();
    let st = if s.chance(1, 3) { Style { refs: true, comments: true, ..Style::PLAIN } } else { Style::FULL };
    let doc = xmodel::render::render(None, &el, s, st);
    o.key(&[&doc]);
    o.sample(|| doc.clone());
    let got = match from_str::<AnyElement<'_>>(&doc) {
        Ok(r) => r,
        Err(e) => return Err(format!("reading failed: {e:?}\ndocument: {doc}")),
    };
    let want = xmodel::model::any(&el);
    if Val::Any(Box::new(want.clone())) != got.to_val() {
        return Err(format!("wrong value\nexpected {want:?}\nread     {:?}\ndocument: {doc}", got.to_val()));
    }
    let mut bs = Vec::new();
    got.borrows(&mut bs);
    let mut list = Vec::new();
    cows_any(&want, &mut list);
    // text around child elements is put together
    let mut i = 0;
    mixed(&el, &mut i, &mut list);
    spans(&doc, &list, &bs, o)?;
    names(&xmlref::parse(&doc).map_err(|e| format!("HARNESS ERROR: {e} {doc}"))?, &mut bs.iter(), &doc)?;
    let owned = got.clone().into_owned();
    let mut bs = Vec::new();
    owned.borrows(&mut bs);
    if let Some(b) = bs.iter().find(|b| b.borrowed) {
        return Err(format!("into_owned() leaves a borrowed string of {} bytes\ndocument: {doc}", b.len));
    }
    Ok(())
}

fn mixed(e: &El, i: &mut usize, list: &mut Vec<(String, Must)>) {
    *i += 2 + 3 * e.attrs.len();
    let texts = e.kids.iter().filter(|k| matches!(k, Nd::T(_))).count();
    if texts > 0 {
        if texts > 1 {
            list[*i].1 = Must::Own;
        }
        *i += 1;
    }
    for c in e.elems() {
        mixed(c, i, list);
    }
}

/// The names are those of this very tag
fn names<'b>(e: &PEl, bs: &mut impl Iterator<Item = &'b Borrow>, doc: &str) -> Result<(), String> {
    let start = doc.as_ptr() as usize;
    let _ns = bs.next().unwrap();
    let name = bs.next().unwrap();
    let at = start + e.span.0 + 1 + if e.prefix.is_empty() { 0 } else { e.prefix.len() + 1 };
    if name.ptr != at {
        return Err(format!("the name of <{}> does not refer to its start tag\ndocument: {doc}", e.local));
    }
    for a in &e.attrs {
        let _ns = bs.next().unwrap();
        let n = bs.next().unwrap();
        let _v = bs.next().unwrap();
        if !(start + e.span.0..start + e.content.0).contains(&n.ptr) {
            return Err(format!("the name of the attribute {} does not refer to its tag\ndocument: {doc}", a.local));
        }
    }
    if e.kids.iter().any(|k| matches!(k, PNode::T(_))) {
        bs.next();
    }
    for c in e.elems() {
        names(c, bs, doc)?;
    }
    Ok(())
}

/// Handwritten holders, also of bytes
fn borrow_single(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let attr = s.chance(1, 2);
    let mut t = gen::text(s);
    if s.chance(1, 3) {
        t = t.replace(['&', '<', '>', '"', '\'', '\r', '\n', '\t', ']'], "x");
    }
    t = format!("k1q{t}z");
    let mut e = El::new("", "r", Cls::Foreign);
    let st = match s.below(3) {
        0 => Style::PLAIN,
        1 => Style { refs: true, ..Style::PLAIN },
        _ => Style { refs: true, comments: true, ..Style::PLAIN },
    };
    match attr {
        true => e.attrs.push(xmodel::model::At { ns: String::new(), name: "v".into(), val: t.clone() }),
        false => {
            let mut v = El::new("", "v", Cls::Foreign);
            v.kids.push(Nd::T(t.clone()));
            e.kids.push(Nd::E(v));
        }
    }
    let doc = xmodel::render::render(None, &e, s, st);
    o.key(&[&doc]);
    o.sample(|| doc.clone());
    o.nontrivial = true;
    let at = |c: &Cow<'_, str>| Borrow { borrowed: matches!(c, Cow::Borrowed(_)), ptr: c.as_ptr() as usize, len: c.len() };
    let at_bytes = |c: &Cow<'_, [u8]>| Borrow { borrowed: matches!(c, Cow::Borrowed(_)), ptr: c.as_ptr() as usize, len: c.len() };
    let err = |e: Error| format!("reading failed: {e:?}\ndocument: {doc}");
    let mut got: Vec<(&str, Vec<u8>, Borrow)> = Vec::new();
    match attr {
        true => {
            let v = from_str::<BoAt<'_>>(&doc).map_err(err)?;
            got.push(("Cow<str>", v.v.as_bytes().to_vec(), at(&v.v)));
            if let Cow::Owned(_) = &v.v {
                // dropped with v: only its kind matters
            }
            let v = from_str::<BoBytesAt<'_>>(&doc).map_err(err)?;
            got.push(("Cow<[u8]>", v.v.0.to_vec(), at_bytes(&v.v.0)));
            let v = from_str::<At<String>>(&doc).map_err(err)?;
            if v.v != t {
                return Err(format!("String: read {:?}, expected {t:?}\ndocument: {doc}", v.v));
            }
        }
        false => {
            let v = from_str::<BoEl<'_>>(&doc).map_err(err)?;
            got.push(("Cow<str>", v.v.as_bytes().to_vec(), at(&v.v)));
            let v = from_str::<BoBytes<'_>>(&doc).map_err(err)?;
            got.push(("Cow<[u8]>", v.v.0.to_vec(), at_bytes(&v.v.0)));
        }
    }
    for (what, bytes, b) in got {
        if bytes != t.as_bytes() {
            return Err(format!("{what}: read {:?}, expected {t:?}\ndocument: {doc}", String::from_utf8_lossy(&bytes)));
        }
        spans(&doc, &[(t.clone(), Must::Borrow)], &[b], o).map_err(|m| format!("{what}: {m}"))?;
    }
    o.nontrivial = true;
    Ok(())
}
