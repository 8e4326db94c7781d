//! What the reference model says about a pair of files, and the per-property comparisons.
use crate::model::grammar::{self, Doc, Domain, Problem};
use crate::model::lex::{self, Tok};
use crate::model::sem::{self, Truth, SE};
use crate::subject::{self, Out};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Stage {
    Domain,
    Problem,
}
pub enum Exp {
    /// first token that cannot stand there
    Bad(Stage, Tok),
    /// grammatical, but with semantic defects (nothing is said of the later stages)
    Sem(Stage, Truth),
    Ok,
}
pub struct Expect {
    pub exp: Exp,
    pub dom: Option<Domain>,
    pub prob: Option<Problem>,
    /// a name clash that the properties leave open
    pub ambiguous: bool,
}

/// a domain (or problem) file by the model; Err: the offending token
pub fn read(src: &[u8], stage: Stage) -> Option<Result<Doc, Tok>> {
    let toks = lex::lex(src)?;
    Some(match grammar::parse(&toks) {
        Err(i) => Err(toks[i].clone()),
        Ok(Doc::P(_)) if stage == Stage::Domain => Err(toks[3].clone()),
        Ok(Doc::D(_)) if stage == Stage::Problem => Err(toks[3].clone()),
        Ok(d) => Ok(d),
    })
}

/// None: outside of the specified part (non-ASCII names)
pub fn expect(d: &[u8], p: Option<&[u8]>) -> Option<Expect> {
    let mut e = Expect { exp: Exp::Ok, dom: None, prob: None, ambiguous: false };
    let dom = match read(d, Stage::Domain)? {
        Err(t) => {
            e.exp = Exp::Bad(Stage::Domain, t);
            return Some(e);
        }
        Ok(Doc::D(x)) => x,
        _ => unreachable!(),
    };
    let t = sem::domain(&dom);
    e.ambiguous |= t.ambiguous;
    if !t.errs.is_empty() {
        e.exp = Exp::Sem(Stage::Domain, t);
        e.dom = Some(dom);
        return Some(e);
    }
    if let Some(p) = p {
        let prob = match read(p, Stage::Problem)? {
            Err(t) => {
                e.exp = Exp::Bad(Stage::Problem, t);
                e.dom = Some(dom);
                return Some(e);
            }
            Ok(Doc::P(x)) => x,
            _ => unreachable!(),
        };
        let t = sem::problem(&dom, &prob);
        e.ambiguous |= t.ambiguous;
        if !t.errs.is_empty() {
            e.exp = Exp::Sem(Stage::Problem, t);
        }
        e.prob = Some(prob);
    }
    e.dom = Some(dom);
    Some(e)
}

/// Ok(None): the case says nothing about the property
pub type Verdict = Result<Option<String>, String>;

#[derive(Clone, Copy, PartialEq)]
pub enum Level {
    /// kind and symbol
    Symbol,
    /// kind, symbol, lines, numbers, types
    Fact,
}

pub const UNDEF: [&str; 6] = ["UndefPredicate", "UndefType", "UndefTask", "UndefSubtask", "UndefParameter", "UndefObject"];
pub const DUP: [&str; 7] = ["DupRequirement", "DupObject", "DupPredicate", "DupTask", "DupAction", "DupMethod", "DupParameter"];
pub const USE: [&str; 4] = ["PredArity", "TaskArity", "PredType", "TaskType"];

fn facts(errs: &[SE]) -> String {
    errs.iter().map(|e| format!("{} {} line {} {} {} {}", e.kind, e.sym, e.line, if e.line2 > 0 { format!("and {}", e.line2) } else { String::new() }, e.exp, e.found)).collect::<Vec<_>>().join("; ")
}

/// Defects of the given kinds lead to rejection (as such a defect, if nothing else is wrong), and
/// such a rejection names a defect that is there.
pub fn defects(kinds: &[&str], level: Level, d: &[u8], p: Option<&[u8]>) -> Verdict {
    let ex = match expect(d, p) {
        Some(e) if !e.ambiguous => e,
        _ => return Ok(None),
    };
    let empty = vec![];
    let errs = match &ex.exp {
        Exp::Bad(..) => return Ok(None),
        Exp::Sem(_, t) => &t.errs,
        Exp::Ok => &empty,
    };
    let out = subject::verify(&d.to_vec(), p.map(|p| p.to_vec()).as_ref());
    let ours = errs.iter().filter(|e| kinds.contains(&e.kind)).count();
    match &out {
        Out::Ok(_) if ours > 0 => Err(format!("accepted although: {}", facts(errs))),
        Out::Ok(_) => Ok(Some("accepted".into())),
        Out::Sem(e, msg) if kinds.contains(&e.kind) => {
            let fits = errs.iter().any(|m| match level {
                Level::Symbol => e.same_kind_and_symbol(m),
                Level::Fact => e.same_fact(m),
            });
            if fits {
                Ok(Some(e.kind.to_string()))
            } else {
                Err(format!("rejected with '{}' ({}), but the defects are: [{}]", msg, facts(&[e.clone()]), facts(errs)))
            }
        }
        o if ours > 0 && ours == errs.len() => Err(format!("rejected with {} '{}', but the defects are: [{}]", o.label(), o.msg(), facts(errs))),
        _ => Ok(Some("rejected for something else".into())),
    }
}

/// every semantic error reported is a fact of the text, and the message says so
pub fn truthful(d: &[u8], p: Option<&[u8]>) -> Verdict {
    let ex = match expect(d, p) {
        Some(e) if !e.ambiguous => e,
        _ => return Ok(None),
    };
    let empty = vec![];
    let errs = match &ex.exp {
        Exp::Bad(..) => return Ok(None),
        Exp::Sem(_, t) => &t.errs,
        Exp::Ok => &empty,
    };
    let out = subject::verify(&d.to_vec(), p.map(|p| p.to_vec()).as_ref());
    match &out {
        Out::Sem(e, msg) => {
            if !errs.iter().any(|m| e.same_fact(m)) {
                return Err(format!("reported {} ({}), but the defects are: [{}]", msg, facts(&[e.clone()]), facts(errs)));
            }
            let mut parts = vec![e.sym.clone(), e.exp.trim_start_matches('\'').into(), e.found.trim_start_matches('\'').into()];
            if e.line > 0 {
                parts.push(format!("line {}", e.line));
            }
            if e.line2 > 0 {
                parts.push(format!("line {}", e.line2));
            }
            for x in parts {
                if !msg.contains(&x) {
                    return Err(format!("message '{}' does not say '{}' of {}", msg, x, facts(&[e.clone()])));
                }
            }
            says(e, msg)?;
            Ok(Some(e.kind.to_string()))
        }
        o => Ok(Some(o.label())),
    }
}

/// the message tells expected from found, and names the right kind of thing
fn says(e: &SE, msg: &str) -> Result<(), String> {
    let m = msg.to_lowercase();
    let word = match e.kind {
        "DupObject" | "UndefObject" => "object",
        "DupRequirement" => "requirement",
        "DupPredicate" | "UndefPredicate" | "PredArity" => "predicate",
        "DupAction" => "action",
        "DupTask" | "UndefTask" | "UndefSubtask" | "TaskArity" | "CyclicOrder" => "task",
        "DupMethod" => "method",
        "DupParameter" | "UndefParameter" => "parameter",
        "UndefType" | "CyclicType" | "PredType" | "TaskType" => "type",
        _ => "",
    };
    if !m.contains(word) {
        return Err(format!("message '{}' of a {} error does not say '{}'", msg, e.kind, word));
    }
    if e.kind.ends_with("Arity") || e.kind.starts_with("Dup") && e.line > 0 {
        // the declared number (first line) comes before the found one (second line)
        let (a, b) = if e.line2 > 0 { (format!("line {}", e.line), format!("line {}", e.line2)) } else { (format!("takes {} ", e.exp), format!("{} are given", e.found)) };
        let _ = (&a, &b);
        if let (Some(i), Some(j)) = (msg.find(&a), msg.rfind(&b)) {
            if i > j {
                return Err(format!("message '{}' swaps '{}' and '{}'", msg, a, b));
            }
        }
    }
    Ok(())
}

/// full agreement of verify with the model on acceptance (semantic level)
pub fn decides(d: &[u8], p: Option<&[u8]>, level: Level) -> Verdict {
    let ex = match expect(d, p) {
        Some(e) if !e.ambiguous => e,
        _ => return Ok(None),
    };
    let out = subject::verify(&d.to_vec(), p.map(|p| p.to_vec()).as_ref());
    match (&ex.exp, &out) {
        (Exp::Bad(..), _) => Ok(None),
        (Exp::Ok, Out::Ok(_)) => Ok(Some("accepted".into())),
        (Exp::Ok, o) => Err(format!("valid, but rejected with {} '{}'", o.label(), o.msg())),
        (Exp::Sem(_, t), Out::Sem(e, msg)) => {
            let fits = t.errs.iter().any(|m| match level {
                Level::Symbol => e.same_kind_and_symbol(m),
                Level::Fact => e.same_fact(m),
            });
            if fits {
                Ok(Some(e.kind.to_string()))
            } else {
                Err(format!("rejected with '{}' ({}), but the defects are: [{}]", msg, facts(&[e.clone()]), facts(&t.errs)))
            }
        }
        (Exp::Sem(_, t), o) => Err(format!("{} '{}', but the defects are: [{}]", o.label(), o.msg(), facts(&t.errs))),
    }
}
