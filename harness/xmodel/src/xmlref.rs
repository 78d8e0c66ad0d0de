//! A strict, independent XML 1.0 + Namespaces parser (no DTD). `parse` leaves line ends and
//! white space in attribute values as they are, like the library under test; `parse_output`
//! normalises them like any other processor, so that what is written is read with their eyes.
use crate::names::{name_char, name_start};

#[derive(Clone, Debug)]
pub struct PAttr {
    pub prefix: String,
    pub local: String,
    pub ns: String,
    pub value: String,
    pub raw: String,
}

#[derive(Clone, Debug)]
pub struct PEl {
    pub prefix: String,
    pub local: String,
    pub ns: String,
    /// declarations in order: (prefix or "", uri)
    pub decls: Vec<(String, String)>,
    pub attrs: Vec<PAttr>,
    pub kids: Vec<PNode>,
    /// written as <a/>
    pub empty_form: bool,
    pub span: (usize, usize),
    pub content: (usize, usize),
}

#[derive(Clone, Debug)]
pub enum PNode {
    E(PEl),
    T(String),
}

impl PEl {
    pub fn elems(&self) -> impl Iterator<Item = &PEl> {
        self.kids.iter().filter_map(|k| match k {
            PNode::E(e) => Some(e),
            PNode::T(_) => None,
        })
    }
}

pub fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
}

struct P<'a> {
    s: &'a str,
    i: usize,
    scope: Vec<(String, String)>,
    /// normalise line ends and white space in attribute values
    normalise: bool,
}

type R<T> = Result<T, String>;

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";

/// Parses a document consisting of one element (with prolog, comments, PIs around it)
pub fn parse(s: &str) -> R<PEl> {
    document(s, false)
}

/// Like `parse`, with the normalisation every XML processor does
pub fn parse_output(s: &str) -> R<PEl> {
    document(s, true)
}

fn document(s: &str, normalise: bool) -> R<PEl> {
    let mut p = P { s, i: 0, scope: vec![("xml".into(), XML_NS.into())], normalise };
    if let Some(c) = s.chars().find(|c| !xml_char(*c)) {
        return Err(format!("character {c:?} not allowed in XML"));
    }
    if p.rest().starts_with('\u{FEFF}') {
        p.i += 3;
    }
    if p.rest().starts_with("<?xml") && p.rest()[5..].starts_with([' ', '\t', '\n', '\r', '?']) {
        p.declaration()?;
    }
    p.misc()?;
    let root = p.element()?;
    p.misc()?;
    if p.i != s.len() {
        return Err(format!("content after the root element at {}", p.i));
    }
    Ok(root)
}

/// Parses text or attribute content on its own
pub fn unescape(s: &str) -> R<String> {
    let mut p = P { s, i: 0, scope: Vec::new(), normalise: false };
    let mut out = String::new();
    while p.i < s.len() {
        p.char_into(&mut out, false)?;
    }
    Ok(out)
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, lit: &str) -> bool {
        let ok = self.rest().starts_with(lit);
        if ok {
            self.i += lit.len();
        }
        ok
    }
    fn expect(&mut self, lit: &str) -> R<()> {
        match self.eat(lit) {
            true => Ok(()),
            false => Err(format!("expected {lit:?} at {}: {:?}", self.i, self.rest().chars().take(20).collect::<String>())),
        }
    }
    fn ws(&mut self) -> bool {
        let start = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.i += 1;
        }
        self.i > start
    }
    fn ncname(&mut self) -> R<String> {
        let start = self.i;
        match self.peek() {
            Some(c) if name_start(c) => self.i += c.len_utf8(),
            _ => return Err(format!("expected a name at {}", self.i)),
        }
        while let Some(c) = self.peek() {
            if !name_char(c) {
                break;
            }
            self.i += c.len_utf8();
        }
        Ok(self.s[start..self.i].to_owned())
    }
    fn qname(&mut self) -> R<(String, String)> {
        let a = self.ncname()?;
        match self.eat(":") {
            true => Ok((a, self.ncname()?)),
            false => Ok((String::new(), a)),
        }
    }
    fn comment(&mut self) -> R<()> {
        // after <!--
        match self.rest().find("--") {
            Some(n) => {
                self.i += n + 2;
                self.expect(">")
            }
            None => Err("unterminated comment".into()),
        }
    }
    /// At <?
    fn pi(&mut self) -> R<()> {
        self.expect("<?")?;
        let target = self.ncname()?;
        if target.eq_ignore_ascii_case("xml") {
            return Err("XML declaration where none may be".into());
        }
        match self.rest().find("?>") {
            Some(0) => self.i += 2,
            Some(n) if self.rest().starts_with([' ', '\t', '\n', '\r']) => self.i += n + 2,
            _ => return Err("bad processing instruction".into()),
        }
        Ok(())
    }
    /// At the XML declaration
    fn declaration(&mut self) -> R<()> {
        self.expect("<?xml")?;
        for name in ["version", "encoding", "standalone"] {
            let before = self.i;
            self.ws();
            if !self.eat(name) {
                match name {
                    "version" => return Err("no version in the XML declaration".into()),
                    _ => self.i = before,
                }
                continue;
            }
            if self.i == before + name.len() {
                return Err("no space in the XML declaration".into());
            }
            self.ws();
            self.expect("=")?;
            self.ws();
            let q = self.peek().filter(|c| "'\"".contains(*c)).ok_or("no quote in the XML declaration")?;
            self.i += 1;
            let n = self.rest().find(q).ok_or("unterminated XML declaration")?;
            let v = &self.rest()[..n];
            let ok = match name {
                "version" => v.strip_prefix("1.").is_some_and(|d| !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())),
                "encoding" => v.starts_with(|c: char| c.is_ascii_alphabetic()) && v.bytes().all(|b| b.is_ascii_alphanumeric() || b"._-".contains(&b)),
                _ => v == "yes" || v == "no",
            };
            if !ok {
                return Err(format!("bad {name} in the XML declaration"));
            }
            self.i += n + 1;
        }
        self.ws();
        self.expect("?>")
    }
    fn misc(&mut self) -> R<()> {
        loop {
            self.ws();
            if self.eat("<!--") {
                self.comment()?;
            } else if self.rest().starts_with("<?") {
                self.pi()?;
            } else {
                return Ok(());
            }
        }
    }
    /// One character or reference
    fn char_into(&mut self, out: &mut String, attribute: bool) -> R<()> {
        let c = self.peek().ok_or("end of input")?;
        if self.normalise && (c == '\r' || attribute && matches!(c, '\t' | '\n')) {
            self.i += if self.rest().starts_with("\r\n") { 2 } else { 1 };
            out.push(if attribute { ' ' } else { '\n' });
            return Ok(());
        }
        if c != '&' {
            out.push(c);
            self.i += c.len_utf8();
            return Ok(());
        }
        let n = self.rest().find(';').ok_or("& without ;")?;
        let name = &self.rest()[1..n];
        let ch = match name {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let (digits, radix) = match (name.strip_prefix("#x"), name.strip_prefix('#')) {
                    (Some(h), _) => (h, 16),
                    (_, Some(d)) => (d, 10),
                    _ => return Err(format!("unknown entity {name:?}")),
                };
                if digits.is_empty() || !digits.chars().all(|c| c.is_digit(radix) && c.is_ascii()) {
                    return Err(format!("bad character reference {name:?}"));
                }
                let mut v: u64 = 0;
                for c in digits.chars() {
                    v = (v * radix as u64 + c.to_digit(radix).unwrap() as u64).min(0x1000_0000);
                }
                char::from_u32(v as u32)
                    .filter(|c| v < 0x1000_0000 && xml_char(*c))
                    .ok_or_else(|| format!("reference to an illegal character {name:?}"))?
            }
        };
        out.push(ch);
        self.i += n + 1;
        Ok(())
    }

    fn resolve(&self, prefix: &str) -> R<String> {
        match self.scope.iter().rev().find(|(p, _)| p == prefix) {
            Some((_, u)) => Ok(u.clone()),
            None if prefix.is_empty() => Ok(String::new()),
            None => Err(format!("undeclared prefix {prefix:?}")),
        }
    }

    fn element(&mut self) -> R<PEl> {
        let start = self.i;
        self.expect("<")?;
        let (prefix, local) = self.qname()?;
        let mut e = PEl {
            prefix,
            local,
            ns: String::new(),
            decls: Vec::new(),
            attrs: Vec::new(),
            kids: Vec::new(),
            empty_form: false,
            span: (start, 0),
            content: (0, 0),
        };
        loop {
            let spaced = self.ws();
            if self.eat("/>") {
                e.empty_form = true;
                break;
            }
            if self.eat(">") {
                break;
            }
            if !spaced {
                return Err(format!("expected whitespace before the attribute at {}", self.i));
            }
            let (prefix, local) = self.qname()?;
            self.ws();
            self.expect("=")?;
            self.ws();
            let quote = match self.peek() {
                Some(q @ ('"' | '\'')) => q,
                _ => return Err(format!("attribute value must be quoted at {}", self.i)),
            };
            self.i += 1;
            let vstart = self.i;
            let mut value = String::new();
            loop {
                match self.peek() {
                    None => return Err("unterminated attribute value".into()),
                    Some('<') => return Err("'<' in an attribute value".into()),
                    Some(c) if c == quote => break,
                    _ => self.char_into(&mut value, true)?,
                }
            }
            let raw = self.s[vstart..self.i].to_owned();
            self.i += 1;
            if prefix.is_empty() && local == "xmlns" {
                e.decls.push((String::new(), value));
            } else if prefix == "xmlns" {
                if value.is_empty() {
                    return Err(format!("prefix {local:?} bound to no namespace"));
                }
                if local == "xmlns" || (local == "xml") != (value == XML_NS) {
                    return Err(format!("illegal declaration of {local:?}"));
                }
                e.decls.push((local, value));
            } else {
                e.attrs.push(PAttr { prefix, local, ns: String::new(), value, raw });
            }
        }
        for (i, (p, _)) in e.decls.iter().enumerate() {
            if e.decls[..i].iter().any(|(q, _)| q == p) {
                return Err(format!("namespace prefix {p:?} declared twice on <{}>", e.local));
            }
        }
        let mark = self.scope.len();
        self.scope.extend(e.decls.iter().cloned());
        e.ns = self.resolve(&e.prefix)?;
        for i in 0..e.attrs.len() {
            let p = &e.attrs[i].prefix;
            e.attrs[i].ns = if p.is_empty() { String::new() } else { self.resolve(p)? };
            let (before, rest) = e.attrs.split_at(i);
            if before.iter().any(|b| b.ns == rest[0].ns && b.local == rest[0].local) {
                return Err(format!("duplicate attribute {:?} on <{}>", rest[0].local, e.local));
            }
        }
        e.content.0 = self.i;
        e.content.1 = self.i;
        if !e.empty_form {
            let mut text = String::new();
            loop {
                let rest = self.rest();
                if rest.is_empty() {
                    return Err(format!("<{}> is not closed", e.local));
                } else if self.eat("<!--") {
                    self.comment()?;
                } else if self.eat("<![CDATA[") {
                    let n = self.rest().find("]]>").ok_or("unterminated CDATA section")?;
                    let section = &self.rest()[..n];
                    match self.normalise {
                        true => text.push_str(&section.replace("\r\n", "\n").replace('\r', "\n")),
                        false => text.push_str(section),
                    }
                    self.i += n + 3;
                } else if rest.starts_with("</") {
                    e.content.1 = self.i;
                    self.i += 2;
                    let (p, l) = self.qname()?;
                    if p != e.prefix || l != e.local {
                        return Err(format!("end tag {p:?}:{l:?} does not match {:?}:{:?}", e.prefix, e.local));
                    }
                    self.ws();
                    self.expect(">")?;
                    break;
                } else if rest.starts_with("<?") {
                    self.pi()?;
                } else if rest.starts_with('<') {
                    if !text.is_empty() {
                        e.kids.push(PNode::T(std::mem::take(&mut text)));
                    }
                    e.kids.push(PNode::E(self.element()?));
                } else if rest.starts_with("]]>") {
                    return Err("']]>' in character data".into());
                } else {
                    self.char_into(&mut text, false)?;
                }
            }
            if !text.is_empty() {
                e.kids.push(PNode::T(text));
            }
        }
        e.span.1 = self.i;
        self.scope.truncate(mark);
        Ok(e)
    }
}

use crate::model::{At, Cls, El, Nd};

impl PEl {
    pub fn to_el(&self) -> El {
        let mut e = El::new(&self.ns, &self.local, Cls::Foreign);
        e.attrs = self
            .attrs
            .iter()
            .map(|a| At { ns: a.ns.clone(), name: a.local.clone(), val: a.value.clone() })
            .collect();
        e.kids = self
            .kids
            .iter()
            .map(|k| match k {
                PNode::E(e) => Nd::E(e.to_el()),
                PNode::T(t) => Nd::T(t.clone()),
            })
            .collect();
        e
    }
}

/// First difference between what was expected and what a document contains; attribute order does
/// not matter
pub fn diff(want: &El, got: &El, path: &str) -> Option<String> {
    let here = format!("{path}/{}", want.name);
    if (&want.ns, &want.name) != (&got.ns, &got.name) {
        return Some(format!("{here}: expected element {{{}}}{}, found {{{}}}{}", want.ns, want.name, got.ns, got.name));
    }
    let sort = |e: &El| {
        let mut v: Vec<(String, String, String)> =
            e.attrs.iter().map(|a| (a.ns.clone(), a.name.clone(), a.val.clone())).collect();
        v.sort();
        v
    };
    let (a, b) = (sort(want), sort(got));
    if a != b {
        return Some(format!("{here}: expected attributes {a:?}, found {b:?}"));
    }
    for i in 0..want.kids.len().max(got.kids.len()) {
        match (want.kids.get(i), got.kids.get(i)) {
            (Some(Nd::E(a)), Some(Nd::E(b))) => {
                if let Some(d) = diff(a, b, &here) {
                    return Some(d);
                }
            }
            (Some(Nd::T(a)), Some(Nd::T(b))) if a == b => {}
            (a, b) => {
                let show = |n: Option<&Nd>| match n {
                    None => "nothing".to_owned(),
                    Some(Nd::T(t)) => format!("text {t:?}"),
                    Some(Nd::E(e)) => format!("element {{{}}}{}", e.ns, e.name),
                };
                return Some(format!("{here}: expected {} as child {i}, found {}", show(a), show(b)));
            }
        }
    }
    None
}
