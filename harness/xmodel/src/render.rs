//! Writes a tree as a document, in a style decided by the choice source.
use crate::model::{Cls, El, Nd};
use crate::schema::Family;
use crate::src::Src;
use crate::xmlref::XML_NS;

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// vary prefixes and declarations
    pub ns: bool,
    /// characters as references, CDATA sections
    pub refs: bool,
    /// comments
    pub comments: bool,
    /// whitespace between elements where the type ignores it
    pub space: bool,
    /// quotes, empty-element form, spaces inside tags
    pub markup: bool,
    /// XML declaration, comments around the root
    pub prolog: bool,
}

impl Style {
    pub const PLAIN: Style = Style { ns: false, refs: false, comments: false, space: false, markup: false, prolog: false };
    pub const FULL: Style = Style { ns: true, refs: true, comments: true, space: true, markup: true, prolog: true };
}

const PREFIXES: [&str; 7] = ["p", "q", "ns1", "a.b", "P", "é", "xs"];
const COMMENTS: [&str; 8] = ["<!---->", "<!-- c -->", "<!-- <a>&b;</a> -->", "<!--]]>-->", "<!-- é日 -->", "<!--\n-->", "<!-- - x -->", "<!--\"'-->"];
const SPACES: [&str; 6] = [" ", "\n", "\n  ", "\t", "  ", " \n\t "];

struct R<'a, 's> {
    fam: Option<&'a Family>,
    s: &'s mut Src,
    st: Style,
    out: String,
    env: Vec<(String, String)>,
    uris: Vec<String>,
    /// all declarations at the root, used from far below
    hoist: bool,
}

pub fn render(fam: Option<&Family>, root: &El, s: &mut Src, st: Style) -> String {
    let mut uris = Vec::new();
    collect(root, &mut uris);
    if uris.is_empty() {
        uris.push(String::new());
    }
    let hoist = st.ns && s.chance(1, 8);
    let mut r = R { fam, s, st, out: String::new(), env: Vec::new(), uris, hoist };
    if st.prolog {
        if r.s.chance(1, 3) {
            r.declaration();
        }
        r.around();
    }
    r.el(root);
    if st.prolog {
        r.around();
    }
    r.out
}

fn collect(e: &El, uris: &mut Vec<String>) {
    if !uris.contains(&e.ns) && e.ns != XML_NS {
        uris.push(e.ns.clone());
    }
    for a in &e.attrs {
        if !uris.contains(&a.ns) && a.ns != XML_NS {
            uris.push(a.ns.clone());
        }
    }
    for c in e.elems() {
        collect(c, uris);
    }
}

impl R<'_, '_> {
    fn declaration(&mut self) {
        let parts: &[&str] = self.s.pick(&[
            &["version", "=", "\"1.0\""][..],
            &["version", "=", "'1.0'", " encoding", "=", "'UTF-8'"],
            &["version", "=", "\"1.0\"", " encoding", "=", "\"utf-8\"", " standalone", "=", "\"yes\""],
            &["version", "=", "'1.0'", " standalone", "=", "'no'"],
            // the text is decoded already, whatever it was
            &["version", "=", "'1.0'", " encoding", "=", "\"Utf-8\""],
            &["version", "=", "\"1.0\"", " encoding", "=", "'ISO-8859-1'", " standalone", "=", "'yes'"],
            &["version", "=", "\"1.1\"", " encoding", "=", "\"UTF-16\""],
        ]);
        // the tokenizer takes the declaration for a processing instruction after another white space (K8)
        self.out.push_str("<?xml ");
        for p in parts {
            if self.st.markup && self.s.chance(1, 8) {
                self.space();
            }
            self.out.push_str(p);
        }
        if self.s.chance(1, 4) {
            self.space();
        }
        self.out.push_str("?>");
    }

    fn around(&mut self) {
        for _ in 0..self.s.small(3) {
            match self.s.below(2) {
                0 => self.space(),
                _ => self.a_comment(),
            }
        }
    }

    /// White space, a lot of it now and then
    fn space(&mut self) {
        let w = *self.s.pick(&SPACES);
        let n = if self.s.chance(1, 24) { self.s.range(2, 150) } else { 1 };
        for _ in 0..n {
            self.out.push_str(w);
        }
    }

    fn a_comment(&mut self) {
        if self.s.chance(1, 3) {
            let mut body = crate::gen::text(self.s);
            if self.s.chance(1, 2) {
                let c = (b'!' + self.s.below(94) as u8) as char;
                body.insert(0, c);
            }
            while body.contains("--") {
                body = body.replace("--", "- ");
            }
            self.out.push_str("<!--");
            self.out.push_str(body.trim_end_matches('-'));
            self.out.push_str("-->");
            return;
        }
        let c = *self.s.pick(&COMMENTS);
        match self.s.chance(1, 24) {
            true => {
                let n = self.s.range(1, 300);
                let body: String = "long comment <b a='&c'> é ]]> ".chars().cycle().take(n).collect();
                self.out.push_str("<!--");
                self.out.push_str(&body);
                self.out.push_str("-->");
            }
            false => self.out.push_str(c),
        }
    }

    fn lookup(&self, p: &str) -> Option<&str> {
        match self.env.iter().rev().find(|(q, _)| q == p) {
            Some((_, u)) => Some(u),
            None if p.is_empty() => Some(""),
            None => None,
        }
    }

    /// Prefixes currently meaning `uri`
    fn bound(&self, uri: &str, attr: bool) -> Vec<String> {
        let mut out = Vec::new();
        let mut seen: Vec<&str> = Vec::new();
        for (p, u) in self.env.iter().rev() {
            if seen.contains(&p.as_str()) {
                continue;
            }
            seen.push(p);
            if u == uri && !(attr && p.is_empty()) {
                out.push(p.clone());
            }
        }
        if uri.is_empty() && !attr && !seen.contains(&"") {
            out.push(String::new());
        }
        out
    }

    fn qualify(&mut self, uri: &str, attr: bool, locked: &mut Vec<String>, decls: &mut Vec<(String, String)>) -> String {
        if attr && uri.is_empty() {
            return String::new();
        }
        if uri == XML_NS {
            return "xml".into();
        }
        let bound = self.bound(uri, attr);
        let reuse = !bound.is_empty() && (!self.st.ns || !self.s.chance(1, if self.hoist { 48 } else { 4 }));
        if reuse {
            let p = match self.st.ns {
                true => self.s.pick(&bound).clone(),
                false => bound[0].clone(),
            };
            if !locked.contains(&p) {
                locked.push(p.clone());
            }
            return p;
        }
        // declare one
        let mut cands: Vec<String> = Vec::new();
        if !attr && !locked.contains(&String::new()) {
            cands.push(String::new());
        }
        if !uri.is_empty() {
            for p in PREFIXES {
                if !locked.iter().any(|l| l == p) {
                    cands.push(p.to_owned());
                }
            }
            for n in 0..40 {
                let p = format!("g{n}");
                if cands.len() < 2 && !locked.contains(&p) {
                    cands.push(p);
                }
            }
        }
        let p = match (cands.is_empty(), self.st.ns) {
            (true, _) => {
                // the default namespace is in use by the element itself: only possible if it is already right
                return bound.first().cloned().unwrap_or_default();
            }
            (false, true) => self.s.pick(&cands).clone(),
            (false, false) => cands[0].clone(),
        };
        locked.push(p.clone());
        self.env.push((p.clone(), uri.to_owned()));
        decls.push((p.clone(), uri.to_owned()));
        p
    }

    fn sp(&mut self) {
        if self.st.markup && self.s.chance(1, 12) {
            self.space();
        }
    }

    fn comment(&mut self) {
        if self.st.comments && self.s.chance(1, 8) {
            self.a_comment();
        }
    }

    fn el(&mut self, e: &El) {
        let mark = self.env.len();
        let mut locked = Vec::new();
        let mut decls = Vec::new();
        let ep = self.qualify(&e.ns, false, &mut locked, &mut decls);
        let aps: Vec<String> =
            e.attrs.iter().map(|a| self.qualify(&a.ns, true, &mut locked, &mut decls)).collect();
        if self.hoist && mark == 0 {
            for u in self.uris.clone() {
                if u.is_empty() || decls.len() > 24 {
                    continue;
                }
                let p = (*self.s.pick(&PREFIXES)).to_owned();
                let p = if locked.contains(&p) { format!("h{}", decls.len()) } else { p };
                locked.push(p.clone());
                self.env.push((p.clone(), u.clone()));
                decls.push((p, u));
            }
        }
        if self.st.ns && self.s.chance(1, if self.hoist { 32 } else { 6 }) {
            // declarations nobody needs here
            for _ in 0..1 + self.s.idx(2) {
                let p = match self.s.below(4) {
                    0 => String::new(),
                    _ => (*self.s.pick(&PREFIXES)).to_owned(),
                };
                let mut u = match self.s.below(3) {
                    0 => "urn:unused".to_owned(),
                    _ => self.s.pick(&self.uris.clone()).clone(),
                };
                if u.is_empty() && !p.is_empty() {
                    u = "urn:unused2".into();
                }
                if !locked.contains(&p) {
                    locked.push(p.clone());
                    self.env.push((p.clone(), u.clone()));
                    decls.push((p, u));
                }
            }
        }
        if self.st.ns && self.s.chance(1, 64) {
            // many more, within the limit
            let n = self.s.range(1, 26usize.saturating_sub(decls.len()).max(1));
            for i in 0..n {
                let p = format!("u{i}");
                let u = match self.s.below(3) {
                    0 => format!("urn:unused:{i}"),
                    _ => self.s.pick(&self.uris.clone()).clone(),
                };
                if !u.is_empty() && !locked.contains(&p) {
                    locked.push(p.clone());
                    self.env.push((p.clone(), u.clone()));
                    decls.push((p, u));
                }
            }
        }
        let q = |p: &str, n: &str| if p.is_empty() { n.to_owned() } else { format!("{p}:{n}") };
        let name = q(&ep, &e.name);
        // attributes keep their order, declarations go anywhere
        let mut items: Vec<(String, String, bool)> = e
            .attrs
            .iter()
            .zip(&aps)
            .map(|(a, p)| (q(p, &a.name), a.val.clone(), true))
            .collect();
        for (p, u) in &decls {
            let n = if p.is_empty() { "xmlns".to_owned() } else { format!("xmlns:{p}") };
            let at = if self.st.ns { self.s.idx(items.len() + 1) } else { 0 };
            items.insert(at, (n, u.clone(), false));
        }
        self.out.push('<');
        self.out.push_str(&name);
        for (n, v, attr) in &items {
            self.out.push(' ');
            self.sp();
            self.out.push_str(n);
            self.sp();
            self.out.push('=');
            self.sp();
            let quote = if self.st.markup && self.s.chance(1, 3) { '\'' } else { '"' };
            self.out.push(quote);
            match attr {
                true => self.chars(v, Some(quote)),
                false => self.out.push_str(v),
            }
            self.out.push(quote);
        }
        self.sp();
        if e.kids.is_empty() && self.st.markup && self.s.chance(1, 2) {
            self.out.push_str("/>");
            self.env.truncate(mark);
            return;
        }
        self.out.push('>');
        let space = self.st.space
            && match (e.cls, self.fam) {
                (Cls::Type(t), Some(f)) => f.space_ok(t),
                _ => false,
            }
            && !e.kids.iter().any(|k| matches!(k, Nd::T(_)));
        for k in &e.kids {
            self.gap(space);
            match k {
                Nd::E(c) => self.el(c),
                Nd::T(t) => self.content(t),
            }
        }
        self.gap(space);
        self.out.push_str("</");
        self.out.push_str(&name);
        self.sp();
        self.out.push('>');
        self.env.truncate(mark);
    }

    fn gap(&mut self, space: bool) {
        if space && self.s.chance(1, 4) {
            self.space();
        }
        self.comment();
        if space && self.s.chance(1, 8) {
            self.space();
        }
    }

    /// Element text: pieces of character data, CDATA sections and comments
    fn content(&mut self, t: &str) {
        if !self.st.refs && !self.st.comments {
            return self.chars(t, None);
        }
        let cs: Vec<char> = t.chars().collect();
        let mut i = 0;
        let mut first = true;
        while i < cs.len() {
            let take = match self.s.below(3) {
                0 => cs.len() - i,
                _ => 1 + self.s.idx((cs.len() - i).min(6)),
            };
            let piece: String = cs[i..i + take].iter().collect();
            i += take;
            if !first && self.st.comments && self.s.chance(1, 3) {
                self.a_comment();
            }
            first = false;
            let cdata_ok = !piece.contains("]]>") && !piece.contains('\r') && !piece.ends_with(']');
            if self.st.refs && cdata_ok && self.s.chance(1, 4) {
                self.out.push_str("<![CDATA[");
                self.out.push_str(&piece);
                self.out.push_str("]]>");
                if self.s.chance(1, 10) {
                    self.out.push_str("<![CDATA[]]>");
                }
            } else {
                self.chars(&piece, None);
            }
        }
    }

    fn chars(&mut self, t: &str, quote: Option<char>) {
        for c in t.chars() {
            let must = match c {
                '<' | '&' | '\r' => true,
                '\n' | '\t' => quote.is_some(),
                '"' | '\'' => quote == Some(c),
                // never write ]]> in character data
                '>' => quote.is_none() && self.out.ends_with("]]"),
                _ => false,
            };
            if !must && !(self.st.refs && self.s.chance(1, 16)) {
                self.out.push(c);
                continue;
            }
            let named = match c {
                '<' => Some("&lt;"),
                '>' => Some("&gt;"),
                '&' => Some("&amp;"),
                '"' => Some("&quot;"),
                '\'' => Some("&apos;"),
                _ => None,
            };
            let how = if self.st.refs { self.s.below(4) } else { 0 };
            let code = c as u32;
            match (how, named) {
                (0 | 1, Some(n)) => self.out.push_str(n),
                (0..=2, _) if code < 10_000_000 => match self.st.refs && self.s.chance(1, 4) {
                    true if code < 1_000_000 => self.out.push_str(&format!("&#0{code};")),
                    _ => self.out.push_str(&format!("&#{code};")),
                },
                _ => match self.s.below(3) {
                    0 => self.out.push_str(&format!("&#x{code:x};")),
                    1 => self.out.push_str(&format!("&#x{code:X};")),
                    _ => self.out.push_str(&format!("&#x{code:04x};")),
                },
            }
        }
    }

    #[allow(dead_code)]
    fn resolves(&self, p: &str, uri: &str) -> bool {
        self.lookup(p) == Some(uri)
    }
}
