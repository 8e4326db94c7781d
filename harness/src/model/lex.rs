//! Model of the lexical level: bytes -> tokens with lines.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Num {
    Real(f64),
    Int(i64),
}

#[derive(Clone, PartialEq, Debug)]
pub enum T {
    LP,
    RP,
    Dash,
    /// operator, by its spelling
    Op(&'static str),
    /// keyword, by its canonical spelling
    Kw(&'static str),
    /// requirement, by its spelling (without ':')
    Req(&'static str),
    Id(String),
    Num(Num),
    Eof,
    /// malformed token
    Bad { kind: &'static str, lexeme: String },
}

#[derive(Clone, PartialEq, Debug)]
pub struct Tok {
    pub t: T,
    pub line: u32,
}

pub const REQS: [(&str, &str); 8] = [
    ("negative-preconditions", "NegativePreconditions"),
    ("strips", "STRIPS"),
    ("hierarchy", "Hierarchy"),
    ("equality", "Equality"),
    ("method-preconditions", "MethodPreconditions"),
    ("typing", "TypedObjects"),
    ("universal-preconditions", "UniversalPreconditions"),
    ("probabilistic-effects", "ProbabilisticEffects"),
];
/// (spelling after ':', canonical name)
pub const KWS: [(&str, &str); 25] = [
    ("requirements", "requirements"),
    ("objects", "objects"),
    ("types", "types"),
    ("constants", "constants"),
    ("predicates", "predicates"),
    ("functions", "functions"),
    ("init", "init"),
    ("htn", "htn"),
    ("task", "task"),
    ("action", "action"),
    ("parameters", "parameters"),
    ("method", "method"),
    ("precondition", "precondition"),
    ("effect", "effect"),
    ("subtasks", "subtasks"),
    ("tasks", "subtasks"),
    ("ordered-subtasks", "ordered-subtasks"),
    ("ordered-tasks", "ordered-subtasks"),
    ("ordering", "ordering"),
    ("order", "ordering"),
    ("constraints", "constraints"),
    ("goal", "goal"),
    ("domain", "domain"),
    ("problem", "problem"),
    // never matched after ':'; the bare word is the keyword
    ("\u{0}define", "define"),
];
pub const OPS: [&str; 8] = [
    "and", "or", "oneof", "not", "forall", "exists", "imply", "probabilistic",
];

fn is_space(b: u8) -> bool {
    b == b' ' || b == b'\t' || b == b'\n' || b == b'\r'
}
fn ends_word(b: u8) -> bool {
    is_space(b) || b == b'(' || b == b')' || b == b';'
}

/// Tokens up to and including the first malformed one or the end of the file.
/// None if a token contains characters that are not ASCII (unspecified); one that is not UTF-8 is malformed.
pub fn lex(src: &[u8]) -> Option<Vec<Tok>> {
    let mut toks = vec![];
    let mut i = 0;
    let mut line = 1u32;
    loop {
        while i < src.len() {
            if src[i] == b';' {
                while i < src.len() && src[i] != b'\n' {
                    i += 1;
                }
            } else if is_space(src[i]) {
                if src[i] == b'\n' {
                    line += 1;
                }
                i += 1;
            } else {
                break;
            }
        }
        if i == src.len() {
            toks.push(Tok { t: T::Eof, line });
            return Some(toks);
        }
        let c = src[i];
        let word_at = |from: usize| {
            let mut e = from;
            while e < src.len() && !ends_word(src[e]) {
                e += 1;
            }
            &src[from..e]
        };
        let legal = |w: &[u8]| w.iter().all(|b| b.is_ascii_alphanumeric() || *b == b'_' || *b == b'-');
        // only malformed words are not ASCII
        let text = |w: &[u8]| String::from_utf8_lossy(w).to_string();
        let bad = |kind, lexeme: String| T::Bad { kind, lexeme };
        let t = match c {
            b'(' => {
                i += 1;
                T::LP
            }
            b')' => {
                i += 1;
                T::RP
            }
            b'-' => {
                i += 1;
                T::Dash
            }
            b'=' => {
                i += 1;
                T::Op("=")
            }
            b'<' | b'>' => {
                let two = i + 1 < src.len() && src[i + 1] == b'=';
                i += if two { 2 } else { 1 };
                T::Op(match (c, two) {
                    (b'<', false) => "<",
                    (b'<', true) => "<=",
                    (_, false) => ">",
                    (_, true) => ">=",
                })
            }
            b'?' => {
                let w = word_at(i + 1);
                if !w.is_ascii() && std::str::from_utf8(w).is_ok() {
                    return None;
                }
                i += 1 + w.len();
                if !legal(w) {
                    bad("identifier", text(w))
                } else if w.is_empty() {
                    bad("identifier", "?".into())
                } else {
                    T::Id(text(w))
                }
            }
            b':' => {
                let w = word_at(i + 1);
                if !w.is_ascii() && std::str::from_utf8(w).is_ok() {
                    return None;
                }
                i += 1 + w.len();
                if !legal(w) {
                    bad("identifier", text(w))
                } else {
                    let w = text(w);
                    if let Some(r) = REQS.iter().find(|r| r.0 == w) {
                        T::Req(r.0)
                    } else if let Some(k) = KWS.iter().find(|k| k.0 == w) {
                        T::Kw(k.1)
                    } else {
                        bad("keyword", w)
                    }
                }
            }
            b'0'..=b'9' => {
                let s = i;
                while i < src.len() && src[i].is_ascii_digit() {
                    i += 1;
                }
                if i < src.len() && src[i] == b'.' {
                    i += 1;
                    let frac = i;
                    while i < src.len() && src[i].is_ascii_digit() {
                        i += 1;
                    }
                    let w = text(&src[s..i]);
                    match w.parse::<f64>() {
                        Ok(v) if i > frac && v.is_finite() => T::Num(Num::Real(v)),
                        _ => bad("real", w),
                    }
                } else {
                    let w = text(&src[s..i]);
                    match w.parse::<i64>() {
                        Ok(v) => T::Num(Num::Int(v)),
                        Err(_) => bad("identifier", w),
                    }
                }
            }
            _ => {
                let w = word_at(i);
                if !w.is_ascii() && std::str::from_utf8(w).is_ok() {
                    return None;
                }
                i += w.len();
                if !legal(w) {
                    bad("identifier", text(w))
                } else {
                    let w = text(w);
                    match w.as_str() {
                        "define" => T::Kw("define"),
                        "domain" => T::Kw("domain"),
                        "problem" => T::Kw("problem"),
                        _ => match OPS.iter().find(|o| **o == w) {
                            Some(o) => T::Op(o),
                            None => T::Id(w),
                        },
                    }
                }
            }
        };
        let stop = matches!(t, T::Bad { .. });
        toks.push(Tok { t, line });
        if stop {
            return Some(toks);
        }
    }
}

/// How a syntax error names the token it found.
pub fn display(t: &T) -> String {
    match t {
        T::LP => "(".into(),
        T::RP => ")".into(),
        T::Dash => "-".into(),
        T::Op(o) => o.to_string(),
        T::Kw("subtasks") => "Keyword :(sub)tasks".into(),
        T::Kw("ordered-subtasks") => "Keyword :ordered-(sub)tasks".into(),
        T::Kw(k) => format!("Keyword :{}", k),
        T::Req(r) => format!("Requirement :{}", r),
        T::Id(x) => format!("Identifier {}", x),
        T::Num(Num::Int(n)) => format!("Number {}", n),
        T::Num(Num::Real(n)) => format!("Number {}", n),
        T::Eof => "End of file".into(),
        T::Bad { lexeme, .. } => lexeme.clone(),
    }
}
