//! C25 errors name their cause
use instant_xml::Error;
use xmodel::model::{Cls, DErr, El, Nd};
use xmodel::names::unraw;
use xmodel::render::Style;
use xmodel::schema::*;
use xmodel::src::Src;

use crate::engine::{part, Check, Cx, Obs};
use crate::util::*;

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C25",
        level: "exploration",
        rule: "a valid document gets exactly one fault: a value removed, repeated or replaced by an impossible text, a reference broken, the root renamed; nontrivial: reading fails with the error that names the place; distinct: by type and document",
        assumptions: &[
            "the reference model in harness/xmodel says where the fault is",
            "with several faults any of them may be reported; only single faults are generated",
        ],
        parts: vec![
            part("missing", 40_000, missing),
            part("repeated", 30_000, repeated),
            part("value", 30_000, value),
            part("reference", 30_000, reference),
            part("prefix", 20_000, super::read::undeclared),
            part("root", 10_000, root),
        ],
        known: vec![],
    }]
}

fn any(_: &Family, _: usize, _: &support::Entry) -> bool {
    true
}

/// Raw identifiers may be named with or without `r#`
fn same(got: &str, want: &str) -> bool {
    got.split("::").map(unraw).eq(want.split("::").map(unraw))
}

fn check(ty: &Ty_<'_>, el: &El, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let want = ty.expect(el);
    let st = if s.chance(1, 4) { Style { ns: true, markup: true, ..Style::PLAIN } } else { Style::PLAIN };
    let doc = ty.render(el, s, st);
    o.key(&[&ty.name(), &doc]);
    let fail = |m: String| Err(format!("{m}\ndocument: {doc}\n{}", ty.decls()));
    let got = (ty.e.read)(&doc);
    match (&want, &got) {
        (Ok(_), Ok(_)) => {
            o.tag("still valid");
            return Ok(());
        }
        (Err(DErr::Missing(w)), Err(Error::MissingValue(g))) if same(g, w) => o.tag("missing"),
        (Err(DErr::Dup(w)), Err(Error::DuplicateValue(g))) if same(g, w) => o.tag("repeated"),
        (Err(DErr::Missing(w)), _) => return fail(format!("expected MissingValue({w:?}), got {got:?}")),
        (Err(DErr::Dup(w)), _) => return fail(format!("expected DuplicateValue({w:?}), got {got:?}")),
        (Err(DErr::Value(Some(t))), Err(Error::UnexpectedValue(m))) if m.contains(t.as_str()) => o.tag("value"),
        (Err(DErr::Value(Some(t))), _) => return fail(format!("expected an UnexpectedValue error that gives the text {t:?}, got {got:?}")),
        _ => {
            o.tag("other");
            return Ok(());
        }
    }
    // the message for people has what the error carries
    let (Err(e), text) = (&got, got.as_ref().err().map(|e| e.to_string()).unwrap_or_default()) else { return Ok(()) };
    let inner = match e {
        Error::MissingValue(f) | Error::DuplicateValue(f) => f,
        Error::UnexpectedValue(m) => m.as_str(),
        _ => "",
    };
    if !text.contains(inner) {
        return fail(format!("the message {text:?} does not contain {inner:?}"));
    }
    o.nontrivial = true;
    o.sample(|| format!("{text} <- {doc}"));
    Ok(())
}

fn missing(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    // what can go; required values are few, so try some
    for _ in 0..8 {
        let mut cand = el.clone();
        let paths = cand.paths();
        let path = s.pick(&paths).clone();
        let e = cand.at_mut(&path);
        let n = e.attrs.len();
        if n > 0 && (path.is_empty() || s.chance(1, 2)) {
            let i = s.idx(n);
            e.attrs.remove(i);
        } else if matches!(&e.kids[..], [Nd::T(_)]) && s.chance(1, 2) {
            // nothing between the tags
            e.kids.clear();
        } else if let Some((last, up)) = path.split_last() {
            let p = cand.at_mut(up);
            // in a tuple struct the others would move up
            if matches!(p.cls, Cls::Type(t) if ty.f.types[t].kind == Kind::Tuple) {
                continue;
            }
            p.kids.remove(*last);
            p.normalise();
        }
        if ty.expect(&cand).is_err() {
            el = cand;
            break;
        }
    }
    check(&ty, &el, s, o)
}

fn repeated(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    for _ in 0..8 {
        let mut cand = el.clone();
        let paths = cand.paths();
        let path = s.pick(&paths).clone();
        let Some((last, up)) = path.split_last() else { continue };
        let copy = cand.at(&path).clone();
        let p = cand.at_mut(up);
        if matches!(p.cls, Cls::Type(t) if ty.f.types[t].kind == Kind::Tuple) {
            continue;
        }
        let at = if s.chance(1, 2) { last + 1 } else { p.kids.len() };
        p.kids.insert(at, Nd::E(copy));
        if cand.depth() <= 30 && ty.expect(&cand).is_err() {
            el = cand;
            break;
        }
    }
    check(&ty, &el, s, o)
}

/// A text that is a value of few types
fn junk(s: &mut Src) -> String {
    let word = *s.pick(&["zz", "-", "1e", "0x1", "1.2.3.4.5", "truer", "99999999999999999999999", "\u{661}", "q\"<&", "a  b   c", "1 2", "\u{a0}x", "A\tb", "x\u{3000}"]);
    format!("{word}{}", if s.chance(1, 2) { s.below(1000).to_string() } else { String::new() })
}

fn value(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    for _ in 0..8 {
        let mut cand = el.clone();
        let paths = cand.paths();
        let path = s.pick(&paths).clone();
        let e = cand.at_mut(&path);
        if !e.attrs.is_empty() && s.chance(1, 2) {
            let i = s.idx(e.attrs.len());
            e.attrs[i].val = junk(s);
        } else if matches!(&e.kids[..], [Nd::T(_)]) {
            e.kids = vec![Nd::T(junk(s))];
        } else {
            continue;
        }
        if ty.expect(&cand).is_err() {
            el = cand;
            break;
        }
    }
    check(&ty, &el, s, o)
}

/// A broken reference in a text: the error gives the reference as far as it was read
fn reference(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    let mut spots: Vec<(Vec<usize>, Option<usize>)> = Vec::new();
    for p in el.paths() {
        let e = el.at(&p);
        let named = matches!(e.cls, Cls::Type(t) if ty.f.types[t].kind == Kind::Named);
        for i in 0..e.attrs.len() {
            if named {
                spots.push((p.clone(), Some(i)));
            }
        }
        if matches!(&e.kids[..], [Nd::T(_)]) && !matches!(e.cls, Cls::Foreign) {
            spots.push((p.clone(), None));
        }
    }
    if spots.is_empty() {
        return Ok(());
    }
    let (path, attr) = spots[s.idx(spots.len())].clone();
    const MARK: &str = "QzzQ";
    let e = el.at_mut(&path);
    match attr {
        Some(i) => e.attrs[i].val = MARK.to_owned(),
        None => e.kids = vec![Nd::T(MARK.to_owned())],
    }
    let names = ["nbsp", "unknown", "AMP", "amp1", "#", "#x", "#xD800", "#0", "#x110000", "#12a", "#xG", "lt ", "", "Amp", "copy", "#-1", "é", "quote", "#x1F6001"];
    let name = (*s.pick(&names)).to_owned();
    let closed = s.chance(3, 4);
    let lead = *s.pick(&["", "a", "é ", "x&amp;y", "&#65;"]);
    let text = format!("{lead}&{name}{}", if closed { ";" } else { "" });
    let doc = ty.render(&el, s, Style::PLAIN);
    if doc.matches(MARK).count() != 1 {
        return Ok(());
    }
    let doc = doc.replace(MARK, &text);
    o.key(&[&ty.name(), &doc]);
    let fail = |m: String| Err(format!("{m}\ndocument: {doc}\n{}", ty.decls()));
    match (ty.e.read)(&doc) {
        Ok(_) => {
            // the text is not read
            o.tag("still valid");
            Ok(())
        }
        Err(e @ Error::InvalidEntity(_)) => {
            let Error::InvalidEntity(got) = &e else { unreachable!() };
            if got != &name {
                return fail(format!("expected InvalidEntity({name:?}), got {got:?}"));
            }
            if !e.to_string().contains(got.as_str()) {
                return fail(format!("the message {:?} does not contain {got:?}", e.to_string()));
            }
            o.tag("named");
            o.nontrivial = true;
            o.sample(|| format!("{e} <- {doc}"));
            Ok(())
        }
        Err(e) => fail(format!("expected InvalidEntity({name:?}), got {e:?}")),
    }
}

/// Another root element: the error names it
fn root(cx: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    let ty = pick(cx, s, any);
    let v = ty.val(s);
    let mut el = ty.el(&v);
    match s.below(3) {
        0 => el.ns = "urn:other/root".to_owned(),
        1 => el.name = format!("other-{}", s.below(1000)),
        _ => {
            el.ns = "urn:other/root".to_owned();
            el.name = format!("other-{}", s.below(1000));
        }
    }
    if !matches!(ty.expect(&el), Err(DErr::Root)) {
        return Ok(());
    }
    let doc = ty.render(&el, s, Style::PLAIN);
    o.key(&[&ty.name(), &doc]);
    match (ty.e.read)(&doc) {
        Err(Error::UnexpectedValue(m))
            if (!el.name.is_ascii() || m.contains(&el.name)) && (!el.ns.is_ascii() || m.contains(&el.ns)) =>
        {
            o.nontrivial = true;
            o.sample(|| format!("{m} <- {doc}"));
            Ok(())
        }
        r => Err(format!(
            "expected an UnexpectedValue error naming the root element {:?} in namespace {:?}, got {r:?}\ndocument: {doc}\n{}",
            el.name,
            el.ns,
            ty.decls()
        )),
    }
}
