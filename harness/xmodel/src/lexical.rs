//! Lexical forms of the scalar kinds, written without chrono.
use crate::schema::ScK;
use crate::val::Sc;

pub fn civil_from_days(z: i64) -> (i64, u32, u32) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146_096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (if m <= 2 { y + 1 } else { y }, m, d)
}

pub fn days_from_civil(y: i64, m: u32, d: u32) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

pub fn days_in_month(y: i64, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        _ => 28,
    }
}

fn frac(nanos: u32) -> String {
    match nanos {
        0 => String::new(),
        n if n % 1_000_000 == 0 => format!(".{:03}", n / 1_000_000),
        n if n % 1_000 == 0 => format!(".{:06}", n / 1_000),
        n => format!(".{n:09}"),
    }
}

pub fn datetime(secs: i64, nanos: u32) -> String {
    let (y, m, d) = civil_from_days(secs.div_euclid(86400));
    let s = secs.rem_euclid(86400);
    format!("{y:04}-{m:02}-{d:02}T{:02}:{:02}:{:02}{}", s / 3600, s / 60 % 60, s % 60, frac(nanos))
}

pub fn date(days: i64) -> String {
    let (y, m, d) = civil_from_days(days);
    format!("{y:04}-{m:02}-{d:02}")
}

/// How a value is written
pub fn write(k: ScK, v: &Sc) -> String {
    match v {
        Sc::Bool(b) => if *b { "true" } else { "false" }.to_owned(),
        Sc::Char(c) => c.to_string(),
        Sc::Int(i) => i.to_string(),
        Sc::F32(b) => f32::from_bits(*b).to_string(),
        Sc::F64(b) => f64::from_bits(*b).to_string(),
        Sc::Str(s) => s.clone(),
        Sc::Ip(ip) => ip.to_string(),
        Sc::Dt(s, n) => match k {
            ScK::DtUtc => format!("{}+00:00", datetime(*s, *n)),
            _ => datetime(*s, *n),
        },
        Sc::Date(d) => date(*d),
    }
}

pub fn int_bounds(k: ScK) -> Option<(i128, i128)> {
    Some(match k {
        ScK::I8 => (i8::MIN as i128, i8::MAX as i128),
        ScK::I16 => (i16::MIN as i128, i16::MAX as i128),
        ScK::I32 => (i32::MIN as i128, i32::MAX as i128),
        ScK::I64 | ScK::Isize => (i64::MIN as i128, i64::MAX as i128),
        ScK::U8 => (0, u8::MAX as i128),
        ScK::U16 => (0, u16::MAX as i128),
        ScK::U32 => (0, u32::MAX as i128),
        ScK::U64 | ScK::Usize => (0, u64::MAX as i128),
        _ => return None,
    })
}

fn digits(s: &str, n: usize) -> Option<i64> {
    (s.len() == n && s.bytes().all(|b| b.is_ascii_digit())).then(|| s.parse().unwrap())
}

fn parse_date(s: &str) -> Option<i64> {
    let p: Vec<&str> = s.split('-').collect();
    if p.len() != 3 {
        return None;
    }
    let (y, m, d) = (digits(p[0], 4)?, digits(p[1], 2)? as u32, digits(p[2], 2)? as u32);
    (1..=12).contains(&m).then_some(())?;
    (1..=days_in_month(y, m)).contains(&d).then(|| days_from_civil(y, m, d))
}

fn parse_datetime(s: &str) -> Option<(i64, u32)> {
    let (d, t) = s.split_once('T')?;
    let days = parse_date(d)?;
    let (t, f) = match t.split_once('.') {
        Some((t, f)) => (t, Some(f)),
        None => (t, None),
    };
    let p: Vec<&str> = t.split(':').collect();
    if p.len() != 3 {
        return None;
    }
    let (h, m, s) = (digits(p[0], 2)?, digits(p[1], 2)?, digits(p[2], 2)?);
    if h > 23 || m > 59 || s > 59 {
        return None;
    }
    let nanos = match f {
        None => 0,
        Some(f) if (1..=9).contains(&f.len()) => {
            digits(f, f.len())? as u32 * 10u32.pow(9 - f.len() as u32)
        }
        Some(_) => return None,
    };
    Some((days * 86400 + h * 3600 + m * 60 + s, nanos))
}

/// The value `text` denotes for kind `k`; only complete for the forms the generators produce.
pub fn parse(k: ScK, text: &str) -> Option<Sc> {
    if let Some((lo, hi)) = int_bounds(k) {
        let t = text.trim_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r'));
        let (neg, d) = match (t.strip_prefix('-'), t.strip_prefix('+')) {
            (Some(d), _) => (true, d),
            (_, Some(d)) => (false, d),
            _ => (false, t),
        };
        if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) || (neg && lo == 0) {
            return None;
        }
        let d = d.trim_start_matches('0');
        if d.len() > 30 {
            return None;
        }
        let v: i128 = if d.is_empty() { 0 } else { d.parse().ok()? };
        let v = if neg { -v } else { v };
        return (lo..=hi).contains(&v).then_some(Sc::Int(v));
    }
    match k {
        ScK::Bool => match text {
            "true" | "1" => Some(Sc::Bool(true)),
            "false" | "0" => Some(Sc::Bool(false)),
            _ => None,
        },
        ScK::Char => {
            let mut cs = text.chars();
            match (cs.next(), cs.next()) {
                (Some(c), None) => Some(Sc::Char(c)),
                _ => None,
            }
        }
        ScK::F32 => text.trim().parse::<f32>().ok().map(|f| Sc::F32(norm32(f))),
        ScK::F64 => text.trim().parse::<f64>().ok().map(|f| Sc::F64(norm64(f))),
        ScK::Str | ScK::Cow => Some(Sc::Str(text.to_owned())),
        ScK::Disp => (!text.starts_with('!')).then(|| Sc::Str(text.to_owned())),
        ScK::Ip => text.parse().ok().map(Sc::Ip),
        ScK::DtUtc => {
            let t = text.strip_suffix("+00:00").or_else(|| text.strip_suffix('Z'))?;
            parse_datetime(t).map(|(s, n)| Sc::Dt(s, n))
        }
        ScK::NDt => parse_datetime(text).map(|(s, n)| Sc::Dt(s, n)),
        ScK::NDate => parse_date(text).map(Sc::Date),
        _ => unreachable!(),
    }
}

pub fn norm32(f: f32) -> u32 {
    if f.is_nan() { 0x7fc0_0000 } else { f.to_bits() }
}
pub fn norm64(f: f64) -> u64 {
    if f.is_nan() { 0x7ff8_0000_0000_0000 } else { f.to_bits() }
}
