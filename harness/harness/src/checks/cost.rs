//! C26 cost in proportion to the document.
use std::alloc::{GlobalAlloc, Layout, System};
use std::borrow::Cow;
use std::cell::Cell;
use std::fmt;
use std::time::{Duration, Instant};

use instant_xml::de::Node;
use instant_xml::{from_str, to_writer, AnyElement, Deserializer, Error, FromXml, ToXml};
use xmodel::src::Src;

use crate::engine::{part, Check, Cx, Obs};

/// Counts the bytes the current thread requests
pub struct Counting;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

fn add(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        System.realloc(p, l, n)
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C26",
        level: "exploration",
        rule: "documents and values made of a generated piece, repeated n and 4n times; nontrivial: every piece; distinct: by type, place and piece",
        assumptions: &["cost is the number of bytes requested from the allocator, the number of writes, and for the longest documents the time"],
        parts: vec![part("read", 700, read), part("read_long", 24, read_long), part("write", 700, write), part("write_long", 24, write_long)],
        known: vec![],
    }]
}

#[derive(Clone, Debug, Default, PartialEq, ToXml, FromXml)]
#[xml(rename = "r", ns("", p = "urn:p"))]
struct Lists {
    #[xml(attribute)]
    a: Option<String>,
    v: Vec<String>,
    #[xml(ns("urn:p"))]
    w: Vec<u32>,
    #[xml(ns("urn:q"))]
    q: Vec<bool>,
    s: Option<String>,
    x: Vec<Own>,
}

const OWN: &str = "urn:o";

#[derive(Clone, Debug, Default, PartialEq, ToXml, FromXml)]
#[xml(rename = "x", ns("urn:p", o = OWN))]
struct Own {
    #[xml(attribute, ns(OWN))]
    a: Option<String>,
    #[xml(direct)]
    t: String,
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "r")]
struct Any<'a> {
    #[xml(borrow)]
    e: Vec<AnyElement<'a>>,
}

#[derive(Clone, Debug, Default, PartialEq, ToXml, FromXml)]
#[xml(rename = "r")]
struct Direct {
    #[xml(attribute)]
    a: Option<String>,
    #[xml(direct)]
    t: String,
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "r")]
struct Borrowed<'a> {
    #[xml(attribute, borrow)]
    a: Option<Cow<'a, str>>,
    #[xml(borrow)]
    s: Cow<'a, str>,
}

#[derive(Clone, Debug, PartialEq, FromXml)]
#[xml(rename = "r")]
struct Slice {
    v: Cow<'static, [String]>,
    x: Vec<Choice>,
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(forward)]
enum Choice {
    Own(Own),
    Tree(Tree),
}

#[derive(Clone, Debug, Default, PartialEq, ToXml, FromXml)]
#[xml(rename = "r")]
struct Tree {
    n: Vec<i64>,
    kids: Vec<Tree>,
    b: Option<Box<Tree>>,
}

#[derive(Clone, Debug, PartialEq, ToXml, FromXml)]
#[xml(rename = "r")]
struct Unit;

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Any,
    Lists,
    AnyList,
    Direct,
    Borrowed,
    Slice,
    Tree,
    Unit,
    Pull,
    Ignore,
}

const HOW: [How; 10] =
    [How::Any, How::Lists, How::AnyList, How::Direct, How::Borrowed, How::Slice, How::Tree, How::Unit, How::Pull, How::Ignore];

/// Whether it was read; and what it costs
fn run(how: How, doc: &str) -> (bool, u64, Duration) {
    fn ok<T>(r: Result<T, Error>) -> (bool, u64) {
        let n = BYTES.get();
        (r.is_ok(), n)
    }
    fn pull(mut d: Deserializer<'_, '_>) -> Result<(), Error> {
        loop {
            match d.next() {
                Some(Ok(Node::Open(e))) => pull(d.nested(e))?,
                Some(Ok(_)) => {}
                Some(Err(e)) => return Err(e),
                None => return Ok(()),
            }
        }
    }
    let start = Instant::now();
    let before = BYTES.get();
    let (ok, after) = match how {
        How::Any => ok(from_str::<AnyElement<'_>>(doc)),
        How::Lists => ok(from_str::<Lists>(doc)),
        How::AnyList => ok(from_str::<Any<'_>>(doc)),
        How::Direct => ok(from_str::<Direct>(doc)),
        How::Borrowed => ok(from_str::<Borrowed<'_>>(doc)),
        How::Slice => ok(from_str::<Slice>(doc)),
        How::Tree => ok(from_str::<Tree>(doc)),
        How::Unit => ok(from_str::<Unit>(doc)),
        How::Pull => ok(Deserializer::new(doc).and_then(pull)),
        How::Ignore => ok(Deserializer::new(doc).and_then(|mut d| d.ignore())),
    };
    (ok, after - before, start.elapsed())
}

/// Stands for the number of the repetition
const NUMBER: char = '\u{E000}';

fn word(s: &mut Src, attr: bool) -> String {
    let mut out = String::new();
    for _ in 0..1 + s.idx(3) {
        match s.below(7) {
            6 => out.push(NUMBER),
            0 => out.push_str(s.pick(&["&amp;", "&#65;", "&lt;", "&#x1F600;", "&quot;"])),
            1 => out.push_str(s.pick(&["é", "日本", "\u{1F600}", "\n", "  "])),
            2 if !attr => out.push_str(s.pick(&["<!--c-->", "<!-- - -->", "<![CDATA[]]>", "<![CDATA[<&>]]>", "<![CDATA[x]]>"])),
            3 => out.push_str(&"t".repeat(s.idx(60))),
            _ => out.push_str(s.pick(&["a", "text", ".", "0", "some words"])),
        }
    }
    out
}

fn element(s: &mut Src, depth: usize) -> String {
    let name = *s.pick(&["v", "p:w", "n", "e", "zz", "kids", "r", "q:q", "p:x", "b", "zz\u{E000}"]);
    let mut out = format!("<{name}");
    for i in 0..s.small(4) {
        out.push_str(&format!(" {}{i}=\"{}\"", s.pick(&["a", "p:b", "xml:c"]), word(s, true)));
    }
    if s.chance(1, 5) {
        out.push_str(s.pick(&[" xmlns=\"urn:d\"", " xmlns:d=\"urn:d\"", " xmlns:p=\"urn:p2\"", " xmlns:d=\"urn:\u{E000}\"", " a\u{E000}=\"v\""]));
    }
    if s.chance(1, 5) {
        return out + "/>";
    }
    out.push('>');
    match (name, s.below(3)) {
        ("p:w" | "n", 0) => out.push(NUMBER),
        ("p:w" | "n", _) => out.push_str(&s.below(1000).to_string()),
        ("q:q", _) => out.push_str("true"),
        (_, 0) if depth > 0 => {
            for _ in 0..1 + s.idx(2) {
                out.push_str(&element(s, depth - 1));
            }
        }
        _ => out.push_str(&word(s, false)),
    }
    out + "</" + name + ">"
}

/// A document with something repeated: everything but the repetitions, and what is repeated
struct Pieces {
    place: &'static str,
    head: String,
    piece: String,
    tail: String,
}

impl Pieces {
    fn doc(&self, len: usize) -> String {
        let n = len / self.piece.len();
        let mut out = self.head.clone();
        for i in 0..n {
            let mut parts = self.piece.split(NUMBER);
            out.push_str(parts.next().unwrap_or(""));
            for part in parts {
                out.push_str(&format!("{i:06}{part}"));
            }
        }
        out + &self.tail
    }
}

const NS: &str = "xmlns:p=\"urn:p\" xmlns:q=\"urn:q\"";

fn pieces(s: &mut Src, how: How) -> Pieces {
    let (place, head, piece, tail): (_, String, _, String) = match s.below(8) {
        0 => ("attribute", format!("<r {NS} a=\""), word(s, true), "\"><s></s></r>".into()),
        1 => ("text", format!("<r {NS}>"), word(s, false), "</r>".into()),
        2 => ("text of a child", format!("<r {NS}><s>"), word(s, false), "</s></r>".into()),
        3 => {
            let n = s.idx(28);
            ("deep", format!("<r {NS}>{}", "<zz>".repeat(n)), element(s, 1), format!("{}</r>", "</zz>".repeat(n)))
        }
        4 => {
            let n = s.idx(24);
            let name = *s.pick(&["b", "kids", "v"]);
            ("deep known", format!("<r {NS}>{}", format!("<{name}>").repeat(n)), element(s, 1), format!("{}</r>", format!("</{name}>").repeat(n)))
        }
        5 => match s.below(2) {
            0 => ("before the root", String::new(), (*s.pick(&["<!-- c -->", "<!---->", "\n"])).to_owned(), format!("<r {NS}><s>t</s></r>")),
            _ => ("after the root", format!("<r {NS}><s>t</s></r>"), (*s.pick(&["<!-- c -->", "<?pi d?>", "\n"])).to_owned(), String::new()),
        },
        _ => {
            let mut p = String::new();
            for _ in 0..1 + s.idx(3) {
                // one kind of item that the type knows
                match (how, s.below(4)) {
                    (How::Lists | How::Slice, 0) => p.push_str(&format!("<v>{}</v>", word(s, false))),
                    (How::Lists, 1) => p.push_str("<p:w>17</p:w>"),
                    (How::Lists | How::Slice, 2) => p.push_str("<p:x>t</p:x>"),
                    (How::Tree, 0) => p.push_str("<n>-5</n>"),
                    (How::Tree, 1) => p.push_str("<r><n>1</n></r>"),
                    (_, 3) => p.push_str(s.pick(&["<!-- c -->", "\n  ", "<zz/>"])),
                    _ => p.push_str(&element(s, 2)),
                }
            }
            ("children", format!("<r {NS}>"), p, "</r>".into())
        }
    };
    let piece = if piece.is_empty() { "x".to_owned() } else { piece };
    Pieces { place, head, piece, tail }
}

/// 4n repetitions cost about four times as much as n
fn in_proportion(small: u64, large: u64, lens: (usize, usize)) -> bool {
    // what the text itself may cost, so that documents that cost next to nothing are not judged by noise
    let (a, b) = (small as f64 + 2.0 * lens.0 as f64, large as f64 + 2.0 * lens.1 as f64);
    b / lens.1 as f64 <= 2.2 * a / lens.0 as f64
}

fn read_sizes(s: &mut Src, o: &mut Obs, len: usize, timed: bool) -> Result<(), String> {
    let how = *s.pick(&HOW);
    let p = pieces(s, how);
    let (small, large) = (p.doc(len), p.doc(4 * len));
    o.key(&[&format!("{how:?}"), p.place, &p.piece]);
    o.nontrivial = true;
    o.sample(|| format!("{how:?}, {}: {} ({:?})* {}", p.place, p.head, p.piece, p.tail));
    let (ok, a, t) = run(how, &small);
    let (ok4, b, t4) = run(how, &large);
    o.runs += 2;
    o.tag(&format!("{} {}", p.place, if ok { "read" } else { "error" }));
    let text = || format!("{how:?}, {}: {} ({:?})* {}", p.place, p.head, p.piece, p.tail);
    if ok != ok4 {
        return Err(format!("{} repetitions: read = {ok}, 4 times as many: {ok4}\n{}", len / p.piece.len(), text()));
    }
    let per_byte = |cost: u64, len: usize| (cost as f64 + 2.0 * len as f64) / len as f64;
    let q = per_byte(b, large.len()) / per_byte(a, small.len());
    o.tag(&format!("memory per byte, long to short: {q:.1}"));
    if !in_proportion(a, b, (small.len(), large.len())) {
        return Err(format!("{} bytes request {a} bytes of memory, {} bytes request {b}\n{}", small.len(), large.len(), text()));
    }
    if timed {
        let mut best = (t, t4);
        for _ in 0..4 {
            if !too_slow(best) {
                return Ok(());
            }
            best = (best.0.min(run(how, &small).2), best.1.min(run(how, &large).2));
        }
        if too_slow(best) {
            return Err(format!("{} bytes take {:?}, {} bytes take {:?}\n{}", small.len(), best.0, large.len(), best.1, text()));
        }
    }
    Ok(())
}

/// Far from four times as long, and far from what it should take
fn too_slow((t, t4): (Duration, Duration)) -> bool {
    t4 > Duration::from_millis(1500) && t4 > t * 9
}

fn read(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    read_sizes(s, o, 12_000, false)
}

fn read_long(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    read_sizes(s, o, 250_000, true)
}

/// Counts what it gets
#[derive(Default)]
struct Out {
    len: usize,
    calls: u64,
}

impl fmt::Write for Out {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        self.len += t.len();
        self.calls += 1;
        Ok(())
    }
}

struct Cost {
    len: usize,
    calls: u64,
    bytes: u64,
    time: Duration,
}

fn out<T: ToXml + ?Sized>(v: &T) -> Result<Cost, String> {
    let mut o = Out::default();
    let start = Instant::now();
    let before = BYTES.get();
    to_writer(v, &mut o).map_err(|e| format!("{e:?}"))?;
    let bytes = BYTES.get() - before;
    Ok(Cost { len: o.len, calls: o.calls, bytes, time: start.elapsed() })
}

/// A value with something repeated n times
fn value(shape: u64, t: &str, n: usize) -> Result<Cost, String> {
    let own = || Own { a: Some(t.to_owned()), t: t.to_owned() };
    match shape {
        0 => out(&Lists { a: Some(t.repeat(n)), ..Lists::default() }),
        1 => out(&Lists { v: (0..n).map(|i| format!("{t}{i:05}")).collect(), ..Lists::default() }),
        2 => out(&Lists { w: (0..n as u32).map(|i| 10_000 + i % 10_000).collect(), q: vec![true; n], ..Lists::default() }),
        3 => out(&Lists { s: Some(t.repeat(n)), ..Lists::default() }),
        4 => out(&Lists { x: vec![own(); n], ..Lists::default() }),
        5 => out(&Direct { a: None, t: t.repeat(n) }),
        6 => out(&Tree { n: vec![-1; n], kids: vec![Tree { n: vec![1], ..Tree::default() }; n], b: None }),
        7 => {
            let mut v = Tree { n: vec![-1; n], ..Tree::default() };
            for _ in 0..20 {
                v = Tree { b: Some(Box::new(v)), ..Tree::default() };
            }
            out(&v)
        }
        8 => out(&vec![Choice::Own(own()); n]),
        _ => out(&vec![Choice::Tree(Tree::default()); n][..]),
    }
}

fn write_sizes(s: &mut Src, o: &mut Obs, len: usize, timed: bool) -> Result<(), String> {
    let shape = s.below(10);
    let mut t = String::new();
    for _ in 0..1 + s.idx(4) {
        t.push_str(s.pick(&["a", "<", "&", "\"", "'", ">", "\r", "\n", "\t", "é", "\u{1F600}", "some words", "t"]));
    }
    let n = len / (t.len() + 12);
    o.key(&[&shape.to_string(), &t]);
    o.nontrivial = true;
    o.sample(|| format!("shape {shape}, {t:?}"));
    let (a, b) = (value(shape, &t, n)?, value(shape, &t, 4 * n)?);
    o.runs += 2;
    o.tag(&format!("shape {shape}"));
    for (what, x, y) in [("bytes of memory", a.bytes, b.bytes), ("writes", a.calls, b.calls)] {
        if !in_proportion(x, y, (a.len, b.len)) {
            return Err(format!("{} bytes of output need {x} {what}, {} bytes need {y}\nshape {shape}, {n} times {t:?}", a.len, b.len));
        }
    }
    if timed {
        let mut best = (a.time, b.time);
        for _ in 0..4 {
            if !too_slow(best) {
                return Ok(());
            }
            best = (best.0.min(value(shape, &t, n)?.time), best.1.min(value(shape, &t, 4 * n)?.time));
        }
        if too_slow(best) {
            return Err(format!("{} bytes of output take {:?}, {} bytes take {:?}\nshape {shape}, {n} times {t:?}", a.len, best.0, b.len, best.1));
        }
    }
    Ok(())
}

fn write(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    write_sizes(s, o, 12_000, false)
}

fn write_long(_: &Cx, s: &mut Src, o: &mut Obs) -> Result<(), String> {
    write_sizes(s, o, 250_000, true)
}
