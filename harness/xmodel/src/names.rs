//! Renaming rules, written from the documentation (serde's rules), not from the macro's code.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Case {
    None,
    Lower,
    Upper,
    Pascal,
    Camel,
    Snake,
    ScreamingSnake,
    Kebab,
    ScreamingKebab,
}

pub const CASES: [(Case, &str); 8] = [
    (Case::Lower, "lowercase"),
    (Case::Upper, "UPPERCASE"),
    (Case::Pascal, "PascalCase"),
    (Case::Camel, "camelCase"),
    (Case::Snake, "snake_case"),
    (Case::ScreamingSnake, "SCREAMING_SNAKE_CASE"),
    (Case::Kebab, "kebab-case"),
    (Case::ScreamingKebab, "SCREAMING-KEBAB-CASE"),
];

pub fn unraw(ident: &str) -> &str {
    ident.strip_prefix("r#").unwrap_or(ident)
}

fn first<F: Fn(char) -> char>(s: &str, f: F) -> String {
    let mut cs = s.chars();
    match cs.next() {
        Some(c) => std::iter::once(f(c)).chain(cs).collect(),
        None => String::new(),
    }
}

/// Fields are written in snake_case in Rust: words are separated by underscores
pub fn field(case: Case, ident: &str) -> String {
    let id = unraw(ident);
    let words = || id.split('_').filter(|w| !w.is_empty());
    match case {
        Case::None | Case::Lower | Case::Snake => id.to_owned(),
        Case::Upper | Case::ScreamingSnake => id.chars().map(|c| c.to_ascii_uppercase()).collect(),
        Case::Pascal => words().map(|w| first(w, |c| c.to_ascii_uppercase())).collect(),
        Case::Camel => {
            let p: String = words().map(|w| first(w, |c| c.to_ascii_uppercase())).collect();
            first(&p, |c| c.to_ascii_lowercase())
        }
        Case::Kebab => id.chars().map(|c| if c == '_' { '-' } else { c }).collect(),
        Case::ScreamingKebab => id
            .chars()
            .map(|c| if c == '_' { '-' } else { c.to_ascii_uppercase() })
            .collect(),
    }
}

/// Variants are written in PascalCase in Rust: every uppercase letter starts a word
pub fn variant(case: Case, ident: &str) -> String {
    let id = unraw(ident);
    let snake = || {
        let mut out = String::new();
        for (n, c) in id.chars().enumerate() {
            if c.is_uppercase() && n > 0 {
                out.push('_');
            }
            out.push(c.to_ascii_lowercase());
        }
        out
    };
    match case {
        Case::None | Case::Pascal => id.to_owned(),
        Case::Lower => id.chars().map(|c| c.to_ascii_lowercase()).collect(),
        Case::Upper => id.chars().map(|c| c.to_ascii_uppercase()).collect(),
        Case::Camel => first(id, |c| c.to_ascii_lowercase()),
        Case::Snake => snake(),
        Case::ScreamingSnake => snake().chars().map(|c| c.to_ascii_uppercase()).collect(),
        Case::Kebab => snake().chars().map(|c| if c == '_' { '-' } else { c }).collect(),
        Case::ScreamingKebab => snake()
            .chars()
            .map(|c| if c == '_' { '-' } else { c.to_ascii_uppercase() })
            .collect(),
    }
}

pub fn name_start(c: char) -> bool {
    matches!(c, 'A'..='Z' | '_' | 'a'..='z' | '\u{C0}'..='\u{D6}' | '\u{D8}'..='\u{F6}' | '\u{F8}'..='\u{2FF}'
        | '\u{370}'..='\u{37D}' | '\u{37F}'..='\u{1FFF}' | '\u{200C}'..='\u{200D}' | '\u{2070}'..='\u{218F}'
        | '\u{2C00}'..='\u{2FEF}' | '\u{3001}'..='\u{D7FF}' | '\u{F900}'..='\u{FDCF}' | '\u{FDF0}'..='\u{FFFD}'
        | '\u{10000}'..='\u{EFFFF}')
}

pub fn name_char(c: char) -> bool {
    name_start(c)
        || matches!(c, '-' | '.' | '0'..='9' | '\u{B7}' | '\u{0300}'..='\u{036F}' | '\u{203F}'..='\u{2040}')
}

/// NCName
pub fn is_ncname(s: &str) -> bool {
    let mut cs = s.chars();
    matches!(cs.next(), Some(c) if name_start(c)) && cs.all(name_char)
}
