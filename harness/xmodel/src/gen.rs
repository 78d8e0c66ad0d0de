//! Generators of values and of text.
use crate::lexical;
use crate::schema::*;
use crate::src::Src;
use crate::val::{AnyV, Sc, Val};

const WORDS: [&str; 29] = [
    "a", "", "b", " ", "x y", "&", "<", ">", "\"", "'", "]]>", "&amp;", "<a>", "&#38;", "é", "日本", "\u{1F600}", "\n", "\t", "--", "]]",
    "é&é", "<![CDATA[x]]>", "<!--c-->", "0", "true", "\r", "\r\n", " \t",
];

const EDGE: [char; 18] = [
    'a', '\u{7F}', '\u{80}', '\u{7FF}', '\u{800}', '\u{FFFD}', '\u{10000}', '\u{10FFFF}', '\u{D7FF}', '\u{E000}', '\u{9}', '\u{A}',
    '\u{D}', ' ', '\u{85}', '\u{2028}', '\u{FEFF}', '\u{A0}',
];

pub fn xml_char(s: &mut Src) -> char {
    match s.below(8) {
        0..=3 => (b'a' + s.below(26) as u8) as char,
        4 => *s.pick(&['&', '<', '>', '"', '\'', ';', '#', ']', '-', ':', '=', '/', '%', '{', '}']),
        5 => *s.pick(&EDGE),
        6 => char::from_u32(0x20 + s.below(0x5F) as u32).unwrap(),
        _ => {
            // bounded: a replay that ran out of choices yields zeros for ever
            for _ in 0..16 {
                let c = match s.below(3) {
                    0 => s.below(0x800),
                    1 => s.below(0x1_0000),
                    _ => s.below(0x11_0000),
                };
                if let Some(c) = char::from_u32(c as u32).filter(|c| crate::xmlref::xml_char(*c)) {
                    return c;
                }
            }
            'a'
        }
    }
}

/// A long string of XML characters, often of a length around a power of two
pub fn long_text(s: &mut Src) -> String {
    let n = match s.below(4) {
        0 if s.chance(1, 48) => *s.pick(&[8192, 32768, 65536, 70000]) + s.idx(4) - 2,
        0 => s.range(1, 200),
        1 => *s.pick(&[16, 32, 64, 128, 256, 512, 1024, 4096]) + s.idx(4) - 2,
        _ => s.range(1, 600),
    };
    let mut unit = String::new();
    for _ in 0..1 + s.small(6) {
        match s.below(4) {
            0 => unit.push_str(s.pick(&WORDS)),
            1 => unit.push('x'),
            _ => unit.push(xml_char(s)),
        }
    }
    if unit.is_empty() {
        unit.push('a');
    }
    let mut out: String = unit.chars().cycle().take(n).collect();
    out.push_str(s.pick(&WORDS));
    out
}

/// A string of XML characters
pub fn text(s: &mut Src) -> String {
    if s.chance(1, 64) {
        return long_text(s);
    }
    let n = s.small(24);
    let mut out = String::new();
    for _ in 0..n {
        if s.chance(1, 3) {
            out.push_str(s.pick(&WORDS));
        } else {
            out.push(xml_char(s));
        }
    }
    out
}

pub fn int(s: &mut Src, lo: i128, hi: i128) -> i128 {
    match s.below(8) {
        0 | 1 => (s.below(10) as i128).clamp(lo, hi),
        2 => lo,
        3 => hi,
        4 => (lo + s.below(3) as i128).clamp(lo, hi),
        5 => (hi - s.below(3) as i128).clamp(lo, hi),
        6 => {
            let sh = s.below(64);
            ((s.u64() >> sh) as i128).clamp(lo, hi)
        }
        _ => {
            let span = (hi - lo + 1) as u128;
            lo + (((s.u64() as u128) << 64 | s.u64() as u128) % span) as i128
        }
    }
}

pub fn scalar(s: &mut Src, k: ScK) -> Sc {
    if let Some((lo, hi)) = lexical::int_bounds(k) {
        return Sc::Int(int(s, lo, hi));
    }
    match k {
        ScK::Bool => Sc::Bool(s.chance(1, 2)),
        ScK::Char => Sc::Char(xml_char(s)),
        ScK::F32 => Sc::F32(lexical::norm32(match s.below(6) {
            0 => s.below(100) as f32,
            1 => *s.pick(&[0.0, -0.0, 1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::EPSILON, 1e-45, 0.1]),
            2 => s.below(1000) as f32 / 8.0,
            _ => f32::from_bits(s.u64() as u32),
        })),
        ScK::F64 => Sc::F64(lexical::norm64(match s.below(6) {
            0 => s.below(100) as f64,
            1 => *s.pick(&[0.0, -0.0, 1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::EPSILON, 5e-324, 0.1]),
            2 => s.below(1000) as f64 / 8.0,
            _ => f64::from_bits(s.u64()),
        })),
        ScK::Str | ScK::Cow => Sc::Str(text(s)),
        ScK::Disp => {
            let t = text(s);
            Sc::Str(match t.starts_with('!') {
                true => format!("d{t}"),
                false => t,
            })
        }
        ScK::Ip => Sc::Ip(match s.below(4) {
            0 => std::net::IpAddr::V4((s.u64() as u32).into()),
            1 => std::net::IpAddr::V6(((s.u64() as u128) << 64 | s.u64() as u128).into()),
            2 => std::net::IpAddr::V6((s.below(70000) as u128).into()),
            _ => std::net::IpAddr::V6((0xffff_0000_0000u128 | s.u64() as u32 as u128).into()),
        }),
        ScK::DtUtc | ScK::NDt => {
            let lo = lexical::days_from_civil(0, 1, 1) * 86400;
            let hi = lexical::days_from_civil(9999, 12, 31) * 86400 + 86399;
            let secs = match s.below(4) {
                0 => s.below(100_000) as i64,
                1 => lo + s.below(3) as i64,
                2 => hi - s.below(3) as i64,
                _ => lo + s.below((hi - lo + 1) as u64) as i64,
            };
            let nanos = match s.below(6) {
                0 | 1 => 0,
                2 => s.below(1000) as u32 * 1_000_000,
                3 => s.below(1_000_000) as u32 * 1000,
                4 => *s.pick(&[1, 999_999_999, 100_000_000, 1000, 999_999_000]),
                _ => s.below(1_000_000_000) as u32,
            };
            Sc::Dt(secs, nanos)
        }
        ScK::NDate => {
            let lo = lexical::days_from_civil(0, 1, 1);
            let hi = lexical::days_from_civil(9999, 12, 31);
            Sc::Date(match s.below(4) {
                0 => s.below(1000) as i64,
                1 => lo + s.below(3) as i64,
                2 => hi - s.below(3) as i64,
                _ => lo + s.below((hi - lo + 1) as u64) as i64,
            })
        }
        _ => unreachable!(),
    }
}

pub struct Budget {
    pub depth: usize,
    pub nodes: usize,
    /// prefer present options and non-empty lists
    pub deep: bool,
}

impl Default for Budget {
    fn default() -> Self {
        Budget { depth: 8, nodes: 120, deep: false }
    }
}

pub fn root_val(s: &mut Src, f: &Family, t: usize) -> Val {
    let mut b = match s.chance(1, 16) {
        // with all other elements below the default limit of 32 levels
        true => Budget { depth: 17, nodes: 150, deep: true },
        false => Budget::default(),
    };
    val(s, f, &Ty::Ref(t), &mut b)
}

pub fn val(s: &mut Src, f: &Family, t: &Ty, b: &mut Budget) -> Val {
    b.nodes = b.nodes.saturating_sub(1);
    match t {
        Ty::Sc(k) => Val::Sc(scalar(s, *k)),
        Ty::Opt(inner) => {
            // Some([]) and None are not distinguished: always present
            if matches!(**inner, Ty::Vec(_)) || (transparent(f, inner) && !f.required(inner)) {
                return Val::Opt(Some(Box::new(val(s, f, inner, b))));
            }
            if b.nodes == 0 || b.depth == 0 || !s.chance(if b.deep { 9 } else { 6 }, 10) {
                return Val::Opt(None);
            }
            let v = val(s, f, inner, b);
            // an option of a struct whose fields can all be absent is present as soon as it is read
            Val::Opt(Some(Box::new(v)))
        }
        Ty::Bx(inner) => val(s, f, inner, b),
        Ty::Vec(inner) | Ty::CowList(inner) => {
            let n = match b.nodes == 0 || b.depth == 0 {
                true => 0,
                false if b.nodes > 100 && s.chance(1, 48) => match s.chance(1, 12) {
                    true => *s.pick(&[127, 255, 300, 600]) + s.idx(4),
                    false => s.range(15, 90),
                },
                false => s.small(if b.nodes > 60 { 10 } else { 3 }).max(b.deep as usize),
            };
            Val::List((0..n).map(|_| val(s, f, inner, b)).collect())
        }
        Ty::Ref(r) => {
            let d = &f.types[*r];
            match d.kind {
                Kind::ScalarEnum => Val::Enum(s.idx(d.variants.len()), None),
                Kind::Forward => {
                    let i = s.idx(d.variants.len());
                    let saved = b.depth;
                    b.depth = b.depth.saturating_sub(1);
                    let v = val(s, f, d.variants[i].ty.as_ref().unwrap(), b);
                    b.depth = saved;
                    Val::Enum(i, Some(Box::new(v)))
                }
                _ => {
                    let saved = b.depth;
                    b.depth = b.depth.saturating_sub(1);
                    let vs = d
                        .fields
                        .iter()
                        .map(|fd| {
                            let v = val(s, f, &fd.ty, b);
                            match (fd.role, v) {
                                // the wire cannot tell these apart
                                (Role::Direct, Val::Opt(Some(v))) if crate::model::scalar_text(f, fd.ty.inner(), &v).as_deref() == Some("") => Val::Opt(None),
                                (_, v) => v,
                            }
                        })
                        .collect();
                    b.depth = saved;
                    Val::Struct(vs)
                }
            }
        }
        Ty::Any => Val::Any(Box::new(any(s, 2, true))),
    }
}

/// The content of an AnyElement; the outermost name is never one of a field
fn any(s: &mut Src, depth: usize, outer: bool) -> AnyV {
    let ns = match outer {
        true => "urn:any",
        false => *s.pick(&["urn:any", "", "urn:a", "urn:zz"]),
    };
    let mut v = AnyV {
        ns: ns.into(),
        name: (*s.pick(&["any", "x", "Foo", "é-1", "item"])).into(),
        attrs: Vec::new(),
        text: None,
        children: Vec::new(),
    };
    let many = s.chance(1, 40);
    for i in 0..if many { s.range(9, 40) } else { s.small(3) } {
        let ns = *s.pick(&["", "", "urn:any", "urn:b", crate::xmlref::XML_NS]);
        v.attrs.push((ns.into(), format!("{}{i}", s.pick(&["a", "id", "x-"])), text(s)));
    }
    if s.chance(1, 2) {
        v.text = Some(text(s)).filter(|t| !t.is_empty());
    }
    if depth > 0 {
        for _ in 0..if many && s.chance(1, 2) { s.range(9, 40) } else { s.small(3) } {
            v.children.push(any(s, depth - 1, false));
        }
    }
    v
}

fn transparent(f: &Family, t: &Ty) -> bool {
    matches!(t, Ty::Ref(r) if f.types[*r].kind == Kind::Transparent)
}
