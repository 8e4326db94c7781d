//! C01-C05: the file format.
use crate::docs::*;
use crate::engine::*;
use crate::model::grammar::{self, Doc};
use crate::model::lex;
use crate::oracle::{self, Stage, Verdict};
use crate::subject::{self, Out};

pub const FULL: &[&str] = &[
    "(", ")", "-", "=", "<", "<=", ">", ">=", "and", "or", "oneof", "not", "forall", "exists", "imply", "probabilistic",
    "define", "domain", "problem", ":domain", ":problem", ":requirements", ":types", ":constants", ":objects", ":predicates",
    ":functions", ":task", ":method", ":action", ":parameters", ":precondition", ":effect", ":subtasks", ":tasks",
    ":ordered-subtasks", ":ordered-tasks", ":ordering", ":order", ":constraints", ":htn", ":init", ":goal",
    ":typing", ":strips", ":equality", ":hierarchy", ":method-preconditions", ":negative-preconditions",
    ":universal-preconditions", ":probabilistic-effects",
    "x", "?x", "when", "1", "0.5", "7x", ":foo", ":", "?", "a@b", "?a@b", "1.", "99999999999999999999", ":define", "Define", "AND",
];
pub const CORE: &[&str] = &[
    "(", ")", "-", "=", "<", "and", "not", "forall", "probabilistic", "x", "?x", "1", ":parameters", ":precondition", ":effect",
    ":subtasks", ":ordered-subtasks", ":ordering", ":constraints", ":typing", ":task", ":foo", "domain",
];
pub const TINY: &[&str] = &["(", ")", "-", "and", "not", "x", "1", ":subtasks", ":ordering", ":effect", ":init", ":bad"];

pub fn valid_domain() -> Vec<u8> {
    lay(&words(D_RICH))
}

fn c03(c: &Case) -> Verdict {
    // the parser alone, through to_json (which makes no semantic checks), and verify on top of it
    let stage = if c.p.is_some() { Stage::Problem } else { Stage::Domain };
    let src = c.p.as_ref().unwrap_or(&c.d);
    let model = match oracle::read(src, stage) {
        Some(m) => m,
        None => return Ok(None),
    };
    for (api, out) in [("to_json", subject::to_json(&c.d, c.p.as_ref()).without_ok()), ("verify", subject::verify(&c.d, c.p.as_ref()).without_ok())] {
        let parsed = !matches!(out, Out::Lex { .. } | Out::Syn { .. });
        match (&model, parsed) {
            (Ok(_), false) => return Err(format!("grammatical, but {} rejects it: {}", api, out.msg())),
            (Err(t), true) => return Err(format!("not grammatical at '{}' in line {}, but {} takes it ({} {})", lex::display(&t.t), t.line, api, out.label(), out.msg())),
            _ => {}
        }
    }
    Ok(Some(if model.is_ok() { "grammatical" } else { "not grammatical" }.into()))
}

/// a rule for one file at a time, on a domain and (as far as it is looked at) a problem
fn both(c: &Case, rule: &dyn Fn(&Case) -> Verdict) -> Verdict {
    let x = rule(&Case::dom(c.d.clone()))?;
    if c.p.is_some() && matches!(oracle::expect(&c.d, None), Some(e) if matches!(e.exp, oracle::Exp::Ok)) {
        return Ok(rule(c)?.or(x));
    }
    Ok(x)
}

fn c04(c: &Case) -> Verdict {
    let stage = if c.p.is_some() { Stage::Problem } else { Stage::Domain };
    let src = c.p.as_ref().unwrap_or(&c.d);
    let tok = match oracle::read(src, stage) {
        Some(Err(t)) => t,
        _ => return Ok(None),
    };
    for out in [subject::to_json(&c.d, c.p.as_ref()).without_ok(), subject::verify(&c.d, c.p.as_ref()).without_ok()] {
        subject::names_token(&out, &tok)?;
    }
    if stage == Stage::Domain {
        subject::names_token(&subject::metadata(&c.d), &tok)?;
    }
    Ok(Some(match &tok.t {
        lex::T::Bad { kind, .. } => format!("malformed {}", kind),
        t => format!("unexpected {}", lex::display(t).split(' ').next().unwrap()),
    }))
}

pub fn json_of(c: &Case) -> Option<serde_json::Value> {
    let d = match oracle::read(&c.d, Stage::Domain)? {
        Ok(Doc::D(d)) => d,
        _ => return None,
    };
    let mut root = serde_json::json!({ "domain": grammar::domain_j(&d) });
    if let Some(p) = &c.p {
        match oracle::read(p, Stage::Problem)? {
            Ok(Doc::P(p)) => root["problem"] = grammar::problem_j(&p),
            _ => return None,
        }
    }
    Some(root)
}

fn first_difference(path: String, a: &serde_json::Value, b: &serde_json::Value) -> Option<String> {
    use serde_json::Value as V;
    match (a, b) {
        (V::Object(x), V::Object(y)) => {
            for k in x.keys().chain(y.keys().filter(|k| !x.contains_key(*k))) {
                match (x.get(k), y.get(k)) {
                    (Some(p), Some(q)) => {
                        if let Some(d) = first_difference(format!("{}.{}", path, k), p, q) {
                            return Some(d);
                        }
                    }
                    (p, q) => return Some(format!("{}.{}: expected {:?}, got {:?}", path, k, p, q)),
                }
            }
            None
        }
        (V::Array(x), V::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().find_map(|(i, (p, q))| first_difference(format!("{}[{}]", path, i), p, q)),
        _ if a == b => None,
        _ => Some(format!("{}: expected {}, got {}", path, a, b)),
    }
}

/// JSON of any depth
pub fn parse_json(s: &str) -> Result<serde_json::Value, String> {
    let mut de = serde_json::Deserializer::from_str(s);
    de.disable_recursion_limit();
    let v = <serde_json::Value as serde::Deserialize>::deserialize(&mut de).map_err(|e| format!("output is not JSON: {}", e))?;
    de.end().map_err(|e| format!("output is not JSON: {}", e))?;
    Ok(v)
}

fn c05(c: &Case) -> Verdict {
    let want = match json_of(c) {
        Some(v) => v,
        None => return Ok(None),
    };
    match subject::to_json(&c.d, c.p.as_ref()) {
        Out::Ok(s) => {
            let got: serde_json::Value = parse_json(&s)?;
            match first_difference(String::new(), &want, &got) {
                Some(d) => Err(d),
                None => Ok(Some("same tree".into())),
            }
        }
        o => Err(format!("grammatical, but no JSON: {}", o.msg())),
    }
}

fn c01(c: &Case) -> Verdict {
    // a panic unwinds into the engine, an abort or a hang is seen by the parent process
    let j = subject::to_json(&c.d, c.p.as_ref());
    let v = subject::verify(&c.d, c.p.as_ref());
    let m = subject::metadata2(&c.d, c.p.as_ref());
    for (ok, msg) in [(j.is_ok(), j.msg()), (v.is_ok(), v.msg()), (m.is_ok(), m.msg())] {
        if !ok && msg.is_empty() {
            return Err("an error without a message".into());
        }
    }
    Ok(Some(format!("json {}, verify {}, metadata {}", j.label(), v.label(), m.label())))
}

/// up to two edits of a token sequence
pub fn pick_edits<'e>(c: &mut Chooser, edits: &'e [Edit], max: usize) -> Vec<&'e Edit> {
    let mut out = vec![];
    let mut from = 0;
    for _ in 0..max {
        let i = c.pick(edits.len() - from + 1);
        if i == 0 {
            break;
        }
        out.push(&edits[from + i - 1]);
        from += i;
        if from == edits.len() {
            break;
        }
    }
    out
}

fn edited(ctx: &mut Ctx, name: &str, base: &str, problem: bool, edits: impl Fn(&[String]) -> Vec<Edit>, n: usize, judge: &dyn Fn(&Case) -> Verdict) {
    let w = words(base);
    let es = edits(&w);
    let vd = valid_domain();
    space(
        ctx,
        name,
        0,
        |c| {
            let e = pick_edits(c, &es, n);
            let (w, vd) = (&w, &vd);
            Some(move || {
                let x = lay(&apply(w, &e));
                if problem {
                    Case { d: vd.clone(), p: Some(x) }
                } else {
                    Case::dom(x)
                }
            })
        },
        judge,
    );
}

/// (name, is problem, text before the hole, text after it)
pub const CONTEXTS: &[(&str, bool, &str, &str)] = &[
    ("file", false, "", ""),
    ("after define", false, "( define", ""),
    ("header", false, "( define (", "x ) )"),
    ("name", false, "( define ( domain", ") )"),
    ("domain body", false, "( define ( domain d )", ")"),
    ("section", false, "( define ( domain d ) (", ") )"),
    ("end of domain", false, "( define ( domain d ) )", ""),
    ("types", false, "( define ( domain d ) ( :types", ") )"),
    ("predicate", false, "( define ( domain d ) ( :predicates ( p", ") ) )"),
    ("predicates", false, "( define ( domain d ) ( :predicates", ") )"),
    ("requirements", false, "( define ( domain d ) ( :requirements", ") )"),
    ("task", false, "( define ( domain d ) ( :task t", ") )"),
    ("task parameters", false, "( define ( domain d ) ( :task t :parameters (", ") ) )"),
    ("action", false, "( define ( domain d ) ( :action a", ") )"),
    ("action body", false, "( define ( domain d ) ( :action a :parameters ( )", ") )"),
    ("formula", false, "( define ( domain d ) ( :action a :parameters ( ) :effect", ") )"),
    ("in formula", false, "( define ( domain d ) ( :action a :parameters ( ) :effect (", ") ) )"),
    ("in and", false, "( define ( domain d ) ( :action a :parameters ( ) :precondition ( and", ") ) )"),
    ("in not", false, "( define ( domain d ) ( :action a :parameters ( ) :precondition ( not", ") ) )"),
    ("in forall", false, "( define ( domain d ) ( :action a :parameters ( ) :precondition ( forall", ") ) )"),
    ("in probabilistic", false, "( define ( domain d ) ( :action a :parameters ( ) :effect ( probabilistic", ") ) )"),
    ("in equality", false, "( define ( domain d ) ( :action a :parameters ( ) :effect ( =", ") ) )"),
    ("method", false, "( define ( domain d ) ( :method m", ") )"),
    ("method task", false, "( define ( domain d ) ( :method m :parameters ( ) :task", ":subtasks ( ) ) )"),
    ("method body", false, "( define ( domain d ) ( :method m :parameters ( ) :task ( t )", ") )"),
    ("method net", false, "( define ( domain d ) ( :method m :parameters ( ) :task ( t ) :subtasks", ") )"),
    ("in subtasks", false, "( define ( domain d ) ( :method m :parameters ( ) :task ( t ) :subtasks (", ") ) )"),
    ("in subtasks and", false, "( define ( domain d ) ( :method m :parameters ( ) :task ( t ) :ordered-subtasks ( and", ") ) )"),
    ("after subtasks", false, "( define ( domain d ) ( :method m :parameters ( ) :task ( t ) :subtasks ( )", ") )"),
    ("after ordered", false, "( define ( domain d ) ( :method m :parameters ( ) :task ( t ) :ordered-subtasks ( )", ") )"),
    ("in ordering", false, "( define ( domain d ) ( :method m :parameters ( ) :task ( t ) :subtasks ( ) :ordering (", ") ) )"),
    ("in constraints", false, "( define ( domain d ) ( :method m :parameters ( ) :task ( t ) :subtasks ( ) :constraints (", ") ) )"),
    ("problem body", true, "( define ( problem p ) ( :domain d )", ")"),
    ("problem header", true, "( define ( problem p )", ")"),
    ("problem section", true, "( define ( problem p ) ( :domain d ) (", ") )"),
    ("objects", true, "( define ( problem p ) ( :domain d ) ( :objects", ") )"),
    ("init", true, "( define ( problem p ) ( :domain d ) ( :init", ") )"),
    ("init fact", true, "( define ( problem p ) ( :domain d ) ( :init ( p", ") ) )"),
    ("goal", true, "( define ( problem p ) ( :domain d ) ( :goal", ") )"),
    ("htn", true, "( define ( problem p ) ( :domain d ) ( :htn", ") )"),
    ("htn net", true, "( define ( problem p ) ( :domain d ) ( :htn :parameters ( ) :subtasks", ") )"),
    ("in htn subtasks", true, "( define ( problem p ) ( :domain d ) ( :htn :subtasks (", ") ) )"),
    ("in htn ordered and", true, "( define ( problem p ) ( :domain d ) ( :htn :ordered-subtasks ( and", ") ) )"),
    ("in htn subtasks and", true, "( define ( problem p ) ( :domain d ) ( :htn :tasks ( and", ") ) )"),
    ("after htn subtasks", true, "( define ( problem p ) ( :domain d ) ( :htn :subtasks ( )", ") )"),
    ("after htn ordered", true, "( define ( problem p ) ( :domain d ) ( :htn :ordered-subtasks ( )", ") )"),
    ("in htn ordering", true, "( define ( problem p ) ( :domain d ) ( :htn :subtasks ( ) :ordering (", ") ) )"),
    ("in htn constraints", true, "( define ( problem p ) ( :domain d ) ( :htn :subtasks ( ) :constraints (", ") ) )"),
    ("end of problem", true, "( define ( problem p ) ( :domain d ) )", ""),
];

fn in_contexts(ctx: &mut Ctx, name: &str, alphabet: &[&str], len: usize, judge: &dyn Fn(&Case) -> Verdict) {
    let vd = valid_domain();
    for (cn, problem, pre, post) in CONTEXTS {
        let (pre, post) = (words(pre), words(post));
        space(
            ctx,
            &format!("{} in '{}'", name, cn),
            0,
            |c| {
                let n = c.pick(len + 1);
                let hole: Vec<&str> = (0..n).map(|_| *c.of(alphabet)).collect();
                let (pre, post, vd) = (&pre, &post, &vd);
                Some(move || {
                    let mut w: Vec<&str> = pre.iter().map(|s| s.as_str()).collect();
                    w.extend(hole);
                    w.extend(post.iter().map(|s| s.as_str()));
                    if *problem {
                        Case { d: vd.clone(), p: Some(lay(&w)) }
                    } else {
                        Case::dom(lay(&w))
                    }
                })
            },
            judge,
        );
    }
}

/// words that differ a little from the reserved ones, wherever a word can stand
pub fn near_words() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let mut reserved: Vec<String> = lex::OPS.iter().map(|s| s.to_string()).collect();
    for k in ["define", "domain", "problem"] {
        reserved.push(k.into());
    }
    let colon: Vec<&str> = lex::KWS.iter().map(|k| k.0).chain(lex::REQS.iter().map(|r| r.0)).filter(|k| !k.starts_with('\0')).collect();
    for (w, colon) in reserved.iter().map(|w| (w.as_str(), false)).chain(colon.iter().map(|w| (*w, true))) {
        let mut forms = vec![w.to_string(), w.to_uppercase()];
        for i in 0..w.len() {
            forms.push(format!("{}{}", &w[..i], &w[i + 1..]));
            forms.push(format!("{}{}{}", &w[..i], w[i..i + 1].to_uppercase(), &w[i + 1..]));
            forms.push(format!("{}{}{}", &w[..i], "_", &w[i + 1..]));
        }
        for x in ["s", "-", "_", "1", "x", ":", "?", "=", "<"] {
            forms.push(format!("{}{}", w, x));
            forms.push(format!("{}{}", x, w));
        }
        for f in forms {
            if colon {
                v.push(format!(":{}", f));
                v.push(f.clone());
            } else {
                v.push(f.clone());
                v.push(format!(":{}", f));
            }
            v.push(format!("?{}", f));
        }
    }
    for x in ["a", "A9", "a-b", "a_b", "_a", "-a", "9a", "9", "9.5", "9.5.5", "9-5", "0", "00", "007", "0.0", "1.x", ".5", "1e5", "a.b", "a,b", "a'b", "a\"", "#t", "@", "~", "+", "*", "/", "|", "[", "]", "{", "}", "!", "$", "%", "&", "^", "`", "\\", "??x", "?:x", ":?x", "::types", "a?b", "a:b", "a=b", "a<b", "=a", "<a", "<=a", ">=", ">a", "=="] {
        v.push(x.into());
    }
    v.sort();
    v.dedup();
    v.retain(|w| !w.is_empty());
    v
}

/// every byte (and at a few places every two bytes) between the bytes of small documents
fn every_byte(ctx: &mut Ctx, judge: &dyn Fn(&Case) -> Verdict) {
    let vd = valid_domain();
    let docs: Vec<(bool, &str)> = [D_SMALL[0], D_SMALL[3], D_SMALL[6]].iter().map(|d| (false, *d)).chain([(true, P_SMALL[0]), (true, P_SMALL[1])]).collect();
    space(
        ctx,
        "every byte at every place of small documents",
        0,
        |c| {
            let (problem, text) = *c.of(&docs);
            let at = c.pick(text.len() + 1);
            let over = c.flag();
            let b = c.pick(256) as u8;
            if over && at == text.len() {
                return None;
            }
            let vd = &vd;
            Some(move || {
                let mut x = text.as_bytes().to_vec();
                if over {
                    x[at] = b;
                } else {
                    x.insert(at, b);
                }
                if problem {
                    Case { d: vd.clone(), p: Some(x) }
                } else {
                    Case::dom(x)
                }
            })
        },
        judge,
    );
    let places: &[(&str, &str)] = &[("(define (domain d) (:types x", "y z))"), ("(define (domain d) (:types ", " z))"), ("(define (domain d) (:types ?", " z))")];
    space(
        ctx,
        "every two bytes at a few places",
        0,
        |c| {
            let (pre, post) = *c.of(places);
            let (x, y) = (c.pick(256) as u8, c.pick(256) as u8);
            Some(move || Case::dom([pre.as_bytes(), &[x, y], post.as_bytes()].concat()))
        },
        judge,
    );
}

fn near(ctx: &mut Ctx, name: &str, judge: &dyn Fn(&Case) -> Verdict) {
    let vd = valid_domain();
    let near = near_words();
    // positions of the rich documents, one for each kind of neighbourhood
    for (problem, base) in [(false, D_RICH), (true, P_RICH)] {
        let w = words(base);
        let positions: Vec<usize> = (0..w.len()).filter(|i| w[*i] != "(" && w[*i] != ")").collect();
        space(
            ctx,
            &format!("{} ({})", name, if problem { "problem" } else { "domain" }),
            0,
            |c| {
                let i = c.pick(positions.len());
                let x = c.pick(near.len());
                let (w, vd, near, positions) = (&w, &vd, &near, &positions);
                Some(move || {
                    let mut w: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
                    let at = positions[i];
                    w[at] = &near[x];
                    if problem {
                        Case { d: vd.clone(), p: Some(lay(&w)) }
                    } else {
                        Case::dom(lay(&w))
                    }
                })
            },
            judge,
        );
    }
}

/// families that grow in one direction
type Fam = (&'static str, bool, fn(usize) -> String);
const FAMS: &[Fam] = &[
    ("types", false, |n| format!("(define (domain d) (:types {}))", (0..n).map(|i| format!("t{} ", i)).collect::<String>())),
    ("typed", false, |n| format!("(define (domain d) (:types {}))", (0..n).map(|i| format!("t{} - u{} ", i, i % 7)).collect::<String>())),
    ("constants", false, |n| format!("(define (domain d) (:constants {}))", (0..n).map(|i| format!("k{} ", i)).collect::<String>())),
    ("predicates", false, |n| format!("(define (domain d) (:predicates {}))", (0..n).map(|i| format!("(p{} ?x{}) ", i, i)).collect::<String>())),
    ("arity", false, |n| format!("(define (domain d) (:predicates (p {})))", (0..n).map(|i| format!("?x{} ", i)).collect::<String>())),
    ("requirements", false, |n| format!("(define (domain d) (:requirements {}))", (0..n).map(|i| format!(":{} ", lex::REQS[i % 8].0)).collect::<String>())),
    ("actions", false, |n| format!("(define (domain d) {})", (0..n).map(|i| format!("(:action a{} :parameters (?x)) ", i)).collect::<String>())),
    ("tasks", false, |n| format!("(define (domain d) {})", (0..n).map(|i| format!("(:task a{} :parameters ()) ", i)).collect::<String>())),
    ("methods", false, |n| format!("(define (domain d) (:task t :parameters ()) {})", (0..n).map(|i| format!("(:method a{} :parameters () :task (t) :subtasks ()) ", i)).collect::<String>())),
    ("subtasks", false, |n| format!("(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :subtasks (and {})))", (0..n).map(|i| format!("(i{} (t)) ", i)).collect::<String>())),
    ("ordered", false, |n| format!("(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :ordered-subtasks (and {})))", "(t)".repeat(n))),
    ("orderings", false, |n| format!("(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :subtasks (and) :ordering (and {})))", (0..n).map(|i| format!("(< i{} i{}) ", i, i + 1)).collect::<String>())),
    ("constraints", false, |n| format!("(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :subtasks (and) :constraints (and {})))", (0..n).map(|i| format!("(= i{} i{}) ", i, i + 1)).collect::<String>())),
    ("conjunction", false, |n| format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect (and {})))", "(q)".repeat(n))),
    ("nested and", false, |n| format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect {}(q){}))", "(and ".repeat(n), ")".repeat(n))),
    ("nested or", false, |n| format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect {}(q){}))", "(or ".repeat(n), ")".repeat(n))),
    ("nested not", false, |n| format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect {}(q){}))", "(not ".repeat(n), ")".repeat(n))),
    ("nested forall", false, |n| format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect {}(q){}))", "(forall (?x) ".repeat(n), ")".repeat(n))),
    ("nested exists", false, |n| format!("(define (domain d) (:predicates (q)) (:action a :parameters () :precondition {}(q){}))", "(exists () ".repeat(n), ")".repeat(n))),
    ("nested oneof", false, |n| format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect {}(q){}))", "(oneof ".repeat(n), ")".repeat(n))),
    ("nested probabilistic", false, |n| format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect {}(q){}))", "(probabilistic 0.5 ".repeat(n), ")".repeat(n))),
    ("long name", false, |n| format!("(define (domain d) (:types t{}))", "x".repeat(n))),
    ("sections", false, |n| format!("(define (domain d) {})", "(:types) (:constants) (:predicates) (:functions) (:requirements)".repeat(n))),
    ("objects", true, |n| format!("(define (problem d) (:domain d) (:objects {}))", (0..n).map(|i| format!("k{} ", i)).collect::<String>())),
    ("init", true, |n| format!("(define (problem d) (:domain d) (:init {}))", (0..n).map(|i| format!("(q{}) ", i)).collect::<String>())),
    ("goal", true, |n| format!("(define (problem d) (:domain d) (:goal {}(q){}))", "(not ".repeat(n), ")".repeat(n))),
    ("htn", true, |n| format!("(define (problem d) (:domain d) (:htn :subtasks (and {})))", (0..n).map(|i| format!("(i{} (t{})) ", i, i)).collect::<String>())),
    ("htn parameters", true, |n| format!("(define (problem d) (:domain d) (:htn :parameters ({}) :subtasks ()))", (0..n).map(|i| format!("?x{} - t{} ", i, i)).collect::<String>())),
    ("surplus parentheses", false, |n| format!("(define (domain d)){}", ")".repeat(n))),
    ("open parentheses", false, |n| "(".repeat(n)),
    ("unclosed", false, |n| format!("(define (domain d) (:action a :parameters () :effect {}", "(and ".repeat(n))),
    ("functions", false, |n| format!("(define (domain d) (:functions {}))", (0..n).map(|i| format!("(f{} ?x - a) ", i)).collect::<String>())),
    ("task parameters", false, |n| format!("(define (domain d) (:task t :parameters ({})))", (0..n).map(|i| format!("?x{} - a{} ", i, i)).collect::<String>())),
    ("method parameters", false, |n| format!("(define (domain d) (:task t :parameters ()) (:method m :parameters ({}) :task (t) :subtasks ()))", (0..n).map(|i| format!("?x{} ", i)).collect::<String>())),
    ("action parameters", false, |n| format!("(define (domain d) (:action a :parameters ({}) :effect ()))", (0..n).map(|i| format!("?x{} - a ", i)).collect::<String>())),
    ("arguments", false, |n| format!("(define (domain d) (:action a :parameters () :precondition (p {})))", (0..n).map(|i| format!("?x{} ", i)).collect::<String>())),
    ("task arguments", false, |n| format!("(define (domain d) (:method m :parameters () :task (t {}) :subtasks ()))", (0..n).map(|i| format!("?x{} ", i)).collect::<String>())),
    ("subtask arguments", false, |n| format!("(define (domain d) (:method m :parameters () :task (t) :subtasks (and (i (t {})))))", (0..n).map(|i| format!("?x{} ", i)).collect::<String>())),
    ("quantified", false, |n| format!("(define (domain d) (:action a :parameters () :precondition (forall ({}) (q))))", (0..n).map(|i| format!("?x{} - a ", i)).collect::<String>())),
    ("branches", false, |n| format!("(define (domain d) (:action a :parameters () :effect (probabilistic {})))", (0..n).map(|i| format!("0.{} (q{}) ", i, i)).collect::<String>())),
    ("alternatives", false, |n| format!("(define (domain d) (:action a :parameters () :effect (oneof {})))", "(q)".repeat(n))),
    ("disjunction", false, |n| format!("(define (domain d) (:action a :parameters () :precondition (or {})))", "(not (q))".repeat(n))),
    ("ordering blocks", false, |n| format!("(define (domain d) (:method m :parameters () :task (t) :subtasks () {}))", (0..n).map(|i| format!(":ordering (< i{} i{}) ", i, i + 1)).collect::<String>())),
    ("negated constraints", false, |n| format!("(define (domain d) (:method m :parameters () :task (t) :subtasks () :constraints (and {})))", "(not (= a b))".repeat(n))),
    ("problem requirements", true, |n| format!("(define (problem d) (:domain d) (:requirements {}))", (0..n).map(|i| format!(":{} ", lex::REQS[i % 8].0)).collect::<String>())),
    ("typed objects", true, |n| format!("(define (problem d) (:domain d) (:objects {}))", (0..n).map(|i| format!("k{} - a ", i)).collect::<String>())),
    ("fact", true, |n| format!("(define (problem d) (:domain d) (:init (p {})))", (0..n).map(|i| format!("k{} ", i)).collect::<String>())),
    ("htn ordered", true, |n| format!("(define (problem d) (:domain d) (:htn :ordered-subtasks (and {})))", "(t)".repeat(n))),
    ("htn orderings", true, |n| format!("(define (problem d) (:domain d) (:htn :subtasks () :ordering (and {})))", (0..n).map(|i| format!("(< i{} i{}) ", i, i + 1)).collect::<String>())),
    ("htn constraints", true, |n| format!("(define (problem d) (:domain d) (:htn :subtasks () :constraints (and {})))", (0..n).map(|i| format!("(= i{} i{}) ", i, i + 1)).collect::<String>())),
    ("htn arguments", true, |n| format!("(define (problem d) (:domain d) (:htn :tasks (and (i (t {})))))", (0..n).map(|i| format!("k{} ", i)).collect::<String>())),
    ("problem sections", true, |n| format!("(define (problem d) (:domain d) {})", "(:objects a) (:init (q))".repeat(n))),
    ("goals", true, |n| format!("(define (problem d) (:domain d) (:goal (and {})))", "(q)".repeat(n))),
];

pub fn pumped(ctx: &mut Ctx, name: &str, max: usize, judge: &dyn Fn(&Case) -> Verdict) {
    let vd = valid_domain();
    let fams = FAMS;
    space(
        ctx,
        name,
        0,
        |c| {
            let (_, problem, f) = c.of(fams);
            let n = c.pick(max + 1);
            let vd = &vd;
            Some(move || {
                let x = lay(&words(&f(n)));
                if *problem {
                    Case { d: vd.clone(), p: Some(x) }
                } else {
                    Case::dom(x)
                }
            })
        },
        judge,
    );
}

/// lists of every kind and several lengths, cut off or changed in one token
fn changed_lists(ctx: &mut Ctx, judge: &dyn Fn(&Case) -> Verdict) {
    let vd = valid_domain();
    let sizes: &[usize] = ctx.bound(&[0, 1, 2, 3, 4, 5, 8, 9, 17, 33], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 256, 257]);
    let alphabet = ctx.bound(TINY, CORE);
    let all: Vec<(&str, bool, Words, Vec<usize>)> = FAMS
        .iter()
        .flat_map(|(n, p, f)| sizes.iter().map(move |k| (*n, *p, words(&f(*k)))))
        .map(|(n, p, w)| {
            let at = if w.len() <= 40 { (8.min(w.len())..=w.len()).collect() } else { (8..16).chain(w.len() - 12..=w.len()).collect() };
            (n, p, w, at)
        })
        .collect();
    space(
        ctx,
        "lists of every kind, cut off or with one token changed",
        0,
        |c| {
            let (_, problem, w, at) = &all[c.pick(all.len())];
            let i = *c.of(at);
            let op = c.pick(2 + 2 * alphabet.len());
            let vd = &vd;
            Some(move || {
                let mut x: Vec<&str> = w.iter().map(|s| s.as_str()).collect();
                match op {
                    0 => x.truncate(i),
                    1 => {
                        if i < x.len() {
                            x.remove(i);
                        }
                    }
                    o if o < 2 + alphabet.len() => x.insert(i, alphabet[o - 2]),
                    o => {
                        if i < x.len() {
                            x[i] = alphabet[o - 2 - alphabet.len()];
                        }
                    }
                }
                if *problem {
                    Case { d: vd.clone(), p: Some(lay(&x)) }
                } else {
                    Case::dom(lay(&x))
                }
            })
        },
        judge,
    );
}

/// the grammar spaces shared by C03, C04 and C05
fn grammar_spaces(ctx: &mut Ctx, judge: &dyn Fn(&Case) -> Verdict) {
    edited(ctx, "rich domain, any single token edit", D_RICH, false, |w| token_edits(w, FULL), 1, judge);
    edited(ctx, "rich problem, any single token edit", P_RICH, true, |w| token_edits(w, FULL), 1, judge);
    near(ctx, "words close to reserved ones", judge);
    pumped(ctx, "pumped families", ctx.bound(140, 400), judge);
    changed_lists(ctx, judge);
    in_contexts(ctx, "all token strings", TINY, ctx.bound(3, 4), judge);
    in_contexts(ctx, "all token strings over the full alphabet", FULL, ctx.bound(1, 2), judge);
    for (i, d) in D_SMALL.iter().enumerate() {
        edited(ctx, &format!("small domain {}, any two token edits", i), d, false, |w| token_edits(w, ctx_alpha(ctx_flag())), 2, judge);
    }
    for (i, d) in P_SMALL.iter().enumerate() {
        edited(ctx, &format!("small problem {}, any two token edits", i), d, true, |w| token_edits(w, ctx_alpha(ctx_flag())), 2, judge);
    }
}
fn ctx_flag() -> bool {
    std::env::var("MC_THOROUGH").map(|v| v == "1").unwrap_or(false)
}
fn ctx_alpha(thorough: bool) -> &'static [&'static str] {
    if thorough {
        CORE
    } else {
        &["(", ")", "-", "and", "x", ":subtasks", ":constraints"]
    }
}

pub fn run_c03(ctx: &mut Ctx) {
    ctx.layouts = true;
    grammar_spaces(ctx, &c03);
    every_byte(ctx, &c03);
    space(ctx, "long lists of every kind", 0, pick_long, &|c| both(c, &c03));
    crate::feat::templates(ctx, ctx.bound(&[("world", 2), ("formulas", 2), ("networks", 3), ("lists", 2)], &[("world", 3), ("formulas", 3), ("networks", 4), ("lists", 3)]), &|c| both(c, &c03));
}
pub fn run_c04(ctx: &mut Ctx) {
    ctx.layouts = true;
    grammar_spaces(ctx, &c04);
    bytes_in_contexts(ctx, "all byte strings", ctx.bound(2, 3), &c04);
    every_byte(ctx, &c04);
    space(ctx, "every defect about names of many lengths", 0, |c| Some(pick_defect(c)), &c04);
}
pub fn run_c05(ctx: &mut Ctx) {
    ctx.layouts = true;
    structures(ctx, &c05);
    let deep = ctx.thorough();
    space(ctx, "long lists of every kind", 0, |c| pick_long_if(c, &|n, e| deep || n <= 1025 || (n > 33_000 && e == 0)), &c05);
    crate::feat::templates(ctx, ctx.bound(&[("world", 2), ("formulas", 2), ("networks", 3), ("lists", 2)], &[("world", 3), ("formulas", 3), ("networks", 4), ("lists", 3)]), &c05);
    edited(ctx, "rich domain, any single name or group edit", D_RICH, false, |w| name_edits(w, &["x", "a", "k1", "zz"]), 1, &c05);
    edited(ctx, "rich problem, any single name or group edit", P_RICH, true, |w| name_edits(w, &["x", "a", "o1", "zz"]), 1, &c05);
    edited(ctx, "rich domain, any single token edit", D_RICH, false, |w| token_edits(w, FULL), 1, &c05);
    edited(ctx, "rich problem, any single token edit", P_RICH, true, |w| token_edits(w, FULL), 1, &c05);
    pumped(ctx, "pumped families", ctx.bound(140, 400), &c05);
    changed_lists(ctx, &c05);
    in_contexts(ctx, "all token strings", TINY, ctx.bound(2, 4), &c05);
    for (i, d) in D_SMALL.iter().enumerate() {
        edited(ctx, &format!("small domain {}, any two edits", i), d, false, |w| name_edits(w, &["x", "k"]), 2, &c05);
    }
    for (i, d) in P_SMALL.iter().enumerate() {
        edited(ctx, &format!("small problem {}, any two edits", i), d, true, |w| name_edits(w, &["x", "k"]), 2, &c05);
    }
}

/// a formula with up to `leaves` more leaves, as text
pub fn pick_formula(c: &mut Chooser, depth: usize) -> String {
    let atoms = ["(q)", "(r ?x)", "()", "(= ?x k1)", "(p ?x - a k1)"];
    if depth == 0 {
        return c.of(&atoms).to_string();
    }
    match c.pick(9) {
        0 => c.of(&atoms).to_string(),
        op @ (1 | 2 | 3) => {
            let n = c.pick(3);
            let mut s = format!("({}", ["and", "or", "oneof"][op - 1]);
            for _ in 0..n {
                s += " ";
                s += &pick_formula(c, depth - 1);
            }
            s + ")"
        }
        4 => format!("(not {})", pick_formula(c, depth - 1)),
        5 => format!("(forall (?g) {})", pick_formula(c, depth - 1)),
        6 => format!("(exists (?g - a ?h) {})", pick_formula(c, depth - 1)),
        7 => format!("(probabilistic 0.25 {})", pick_formula(c, depth - 1)),
        _ => format!("(probabilistic 1 (q) 0.75 {})", pick_formula(c, depth - 1)),
    }
}

fn structures(ctx: &mut Ctx, judge: &dyn Fn(&Case) -> Verdict) {
    let vd = valid_domain();
    // typed lists: every way of typing n names
    let names = ["n0", "?n1", "n2", "n3", "n4", "n5"];
    let n = ctx.bound(4, 6);
    space(
        ctx,
        "all typed lists in all list places",
        0,
        |c| {
            let k = c.pick(n + 1);
            let mut s = String::new();
            for name in names.iter().take(k) {
                s += name;
                s += " ";
                match c.pick(3) {
                    0 => {}
                    t => s += &format!("- t{} ", t),
                }
            }
            let place = c.pick(10);
            let vd = &vd;
            Some(move || {
                let wrap = [
                    "(define (domain d) (:types @))",
                    "(define (domain d) (:constants @))",
                    "(define (domain d) (:predicates (p @) (q)))",
                    "(define (domain d) (:functions (f) (g @)))",
                    "(define (domain d) (:task t :parameters (@)))",
                    "(define (domain d) (:action t :parameters (@)))",
                    "(define (domain d) (:method t :parameters (@) :task (u @) :precondition (p @) :subtasks ()))",
                    "(define (domain d) (:action t :parameters () :precondition (forall (@) (q)) :effect (exists (@) (p @))))",
                    "(define (problem d) (:domain d) (:objects @) (:init (p @)) (:goal (q @)))",
                    "(define (problem d) (:domain d) (:htn :parameters (@) :subtasks ()))",
                ][place];
                let x = lay(&words(&wrap.replace('@', &s)));
                if place >= 8 {
                    Case { d: vd.clone(), p: Some(x) }
                } else {
                    Case::dom(x)
                }
            })
        },
        judge,
    );
    let depth = ctx.bound(2, 3);
    space(
        ctx,
        "all formulas in all formula places",
        0,
        |c| {
            let place = c.pick(5);
            let f = pick_formula(c, if place == 0 { depth } else { depth - 1 });
            let vd = &vd;
            Some(move || {
                let wrap = [
                    "(define (domain d) (:action t :parameters () :precondition @))",
                    "(define (domain d) (:action t :parameters () :effect @))",
                    "(define (domain d) (:action t :parameters () :precondition (q) :effect @))",
                    "(define (domain d) (:method t :parameters () :task (u) :precondition @ :subtasks (n)))",
                    "(define (problem d) (:domain d) (:goal @))",
                ][place];
                let x = lay(&words(&wrap.replace('@', &f)));
                if place >= 4 {
                    Case { d: vd.clone(), p: Some(x) }
                } else {
                    Case::dom(x)
                }
            })
        },
        judge,
    );
    // task networks
    let blocks = ctx.bound(2, 3);
    space(
        ctx,
        "all task networks",
        0,
        |c| {
            let mut s = c.of(&[":subtasks ", ":tasks ", ":ordered-subtasks ", ":ordered-tasks ", ""]).to_string();
            if !s.is_empty() {
                let subs = ["(t)", "(i (t))", "(t a)", "(i1 (t a ?b c))"];
                match c.pick(3) {
                    0 => s += "()",
                    1 => s += c.of(&subs),
                    _ => {
                        let n = c.pick(4);
                        s += "(and ";
                        for _ in 0..n {
                            s += c.of(&subs);
                        }
                        s += ")";
                    }
                }
                for _ in 0..c.pick(blocks + 1) {
                    s += c.of(&[
                        " :ordering ()",
                        " :ordering (and)",
                        " :ordering (< a b)",
                        " :order (and (< a b) (< b c))",
                        " :ordering (and (< a b c) (< d))",
                        " :constraints ()",
                        " :constraints (= a b)",
                        " :constraints (and (= a ?b) (not (= c d)))",
                        " :constraints (not (= x y))",
                    ]);
                }
            }
            let place = c.pick(3);
            let vd = &vd;
            Some(move || {
                let wrap = [
                    "(define (domain d) (:method t :parameters () :task (u) @) (:types z))",
                    "(define (domain d) (:method t :parameters () :task (u) :precondition () @) (:types z))",
                    "(define (problem d) (:domain d) (:htn @) (:objects z))",
                ][place];
                let x = lay(&words(&wrap.replace('@', &s)));
                if place == 2 {
                    Case { d: vd.clone(), p: Some(x) }
                } else {
                    Case::dom(x)
                }
            })
        },
        judge,
    );
    // sections in any order and number
    let dsec = [
        "(:types a - b)", "(:types c)", "(:constants k - a)", "(:constants l)", "(:predicates (p ?x))", "(:predicates (q) (r))", "(:functions (f))",
        "(:requirements :typing)", "(:requirements :strips :equality)", "(:task t :parameters (?x))", "(:task u :parameters ())",
        "(:method m :parameters () :task (u) :subtasks ())", "(:method n :parameters () :task (u) :precondition (q))",
        "(:action x :parameters () :effect (q))", "(:action y :parameters (?z) :precondition (r))", "(:types)", "(:functions)",
    ];
    let psec = [
        "(:objects a - b)", "(:objects c)", "(:init (p a))", "(:init (q) (r))", "(:goal (q))", "(:goal)", "(:requirements :typing)", "(:requirements :strips)",
        "(:htn :subtasks (t))", "(:htn :parameters (?x - a) :ordered-subtasks (and (t ?x) (u)))", "(:init)", "(:objects)",
    ];
    let n = ctx.bound(3, 4);
    space(
        ctx,
        "all sequences of sections",
        0,
        |c| {
            let problem = c.flag();
            let k = c.pick(n + 1);
            let s: String = (0..k).map(|_| if problem { *c.of(&psec) } else { *c.of(&dsec) }).collect();
            let vd = &vd;
            Some(move || {
                if problem {
                    Case { d: vd.clone(), p: Some(lay(&words(&format!("(define (problem z) (:domain d) {})", s)))) }
                } else {
                    Case::dom(lay(&words(&format!("(define (domain z) {})", s))))
                }
            })
        },
        judge,
    );
    // numbers and name spellings
    let spell = ["0", "1", "42", "0.0", "0.5", "1.0", "00", "007.50", "9007199254740993", "9223372036854775807", "0.1", "0.30000000000000004", "123456.789"];
    space(
        ctx,
        "numbers and spellings",
        0,
        |c| {
            let n = c.of(&spell).to_string();
            let x = c.of(&["a", "A", "a-b-", "a_B", "_", "a1", "Types", "andy", "nota", "x-", "aVeryLongIdentifierThatGoesOnAndOn", "o0", "and_", "imply1", "definedomain"]).to_string();
            let form = c.pick(4);
            Some(move || {
                Case::dom(lay(&words(&match form {
                    0 => format!("(define (domain {x}) (:types {x}) (:constants {x} - {x}) (:predicates ({x} ?{x} - {x})))"),
                    1 => format!("(define (domain d) (:action {x} :parameters (?{x}) :effect (probabilistic {n} ({x} ?{x}))))"),
                    2 => format!("(define (domain d) (:method {x} :parameters (?{x}) :task ({x} ?{x}) :subtasks (and ({x} ({x} ?{x})) (b (c))) :ordering (< {x} b) :constraints (= {x} ?{x})))"),
                    _ => format!("(define (domain d) (:action a :parameters () :effect (probabilistic {n} (q) {n} (not ({x})))))"),
                })))
            })
        },
        judge,
    );
}

const BYTE_ALPHABET: &[&[u8]] = &[
    b"a", b"Z", b"0", b"9", b"(", b")", b"-", b"_", b":", b"?", b";", b"=", b"<", b">", b".", b" ", b"\t", b"\r", b"\n", b"@", b"\"", b"'", b"\\", b"/", b"+", b"\0", b"\x0b", b"\x7f", b"\x80", b"\xc3\xa9", b"\xff",
];

/// all strings over bytes at places of every lexical kind
fn bytes_in_contexts(ctx: &mut Ctx, name: &str, len: usize, judge: &dyn Fn(&Case) -> Verdict) {
    let vd = valid_domain();
    let places: &[(bool, &str, &str)] = &[
        (false, "", ""),
        (false, "(define (domain d) (:types x", "))\n"),
        (false, "(define (domain d) (:types ", "x))\n"),
        (false, "(define (domain d) (:types ?x", " y))\n"),
        (false, "(define (domain d) (:requirements :typing", "))\n"),
        (false, "(define (domain d) (:", "types a))\n"),
        (false, "(define (domain d) (:predicates (q)) (:action a :parameters () :effect (probabilistic 1", " (q))))\n"),
        (false, "(define (domain d) (:predicates (q)) (:action a :parameters () :effect (an", "d (q))))\n"),
        (false, "(define (domain d))", ""),
        (false, "(define (domain d)) ;", ""),
        (true, "(define (problem d) (:domain d) (:objects x", ") )\n"),
        (true, "(define (problem d) (:domain d) (:init (q)) ", " (:goal (q)))"),
    ];
    space(
        ctx,
        name,
        0,
        |c| {
            let (problem, pre, post) = c.of(places);
            let n = c.pick(len + 1);
            let hole: Vec<&[u8]> = (0..n).map(|_| *c.of(BYTE_ALPHABET)).collect();
            let vd = &vd;
            Some(move || {
                let mut x = pre.as_bytes().to_vec();
                for h in hole {
                    x.extend_from_slice(h);
                }
                x.extend_from_slice(post.as_bytes());
                if *problem {
                    Case { d: vd.clone(), p: Some(x) }
                } else {
                    Case::dom(x)
                }
            })
        },
        judge,
    );
}

pub fn run_c01(ctx: &mut Ctx) {
    let judge = &c01;
    let vp = lay(&words(P_RICH));
    bytes_in_contexts(ctx, "all byte strings at every lexical place", ctx.bound(3, 4), judge);
    // truncations and byte changes of the rich documents, as domain, as problem, and as both
    for (which, text) in [("domain", D_RICH), ("problem", P_RICH)] {
        let bytes = text.as_bytes().to_vec();
        let repl: &[u8] = b"()-:;?=<.0aZ \n\r\t\0\x80\xff_@\"";
        let vd = valid_domain();
        space(
            ctx,
            &format!("rich {}: every truncation, byte change, insertion and deletion", which),
            0,
            |c| {
                let role = c.pick(3);
                let i = c.pick(bytes.len() + 1);
                let op = c.pick(2 + 2 * repl.len());
                let (bytes, vd, vp) = (&bytes, &vd, &vp);
                Some(move || {
                    let mut x = bytes.clone();
                    match op {
                        0 => x.truncate(i),
                        1 => {
                            if i < x.len() {
                                x.remove(i);
                            }
                        }
                        o if o < 2 + repl.len() => x.insert(i, repl[o - 2]),
                        o => {
                            if i < x.len() {
                                x[i] = repl[o - 2 - repl.len()]
                            }
                        }
                    }
                    match role {
                        0 => Case { d: x, p: Some(vp.clone()) },
                        1 => Case { d: vd.clone(), p: Some(x) },
                        _ => Case { d: x.clone(), p: Some(x) },
                    }
                })
            },
            judge,
        );
    }
    // problem and domain, every name replaced, dropped or doubled: what the semantic level has to survive
    for (k, (d, p)) in pairs().into_iter().enumerate() {
        let mut w = d.clone();
        w.push("\u{1}".into());
        w.extend(p);
        let pool = ["a", "k1", "t", "act", "zz", "?x", "q"];
        let es: Vec<Edit> = name_edits(&w, &pool);
        let n = if k == 0 { 1 } else { ctx.bound(1, 2) };
        space(
            ctx,
            &format!("pair {}, {} edits of names and groups", k, n),
            0,
            |c| {
                let e = pick_edits(c, &es, n);
                let w = &w;
                Some(move || split(&apply(w, &e)))
            },
            judge,
        );
    }
    crate::feat::templates(ctx, ctx.bound(&[("world", 2), ("formulas", 2), ("networks", 3), ("lists", 2)], &[("world", 3), ("formulas", 3), ("networks", 4), ("lists", 3)]), judge);
    in_contexts(ctx, "all token strings", FULL, ctx.bound(1, 2), judge);
    in_contexts(ctx, "all token strings over a small alphabet", TINY, ctx.bound(3, 4), judge);
    pumped(ctx, "pumped families", ctx.bound(300, 600), judge);
    changed_lists(ctx, judge);
    crate::checks::sem::shapes(ctx, judge);
    long_words(ctx, judge);
    // large sizes: doubling, until far beyond any real file
    let max = ctx.bound(15, 18);
    space(
        ctx,
        "pumped families, sizes doubling",
        0,
        |c| {
            let f = c.pick(24);
            let n = 1usize << (4 + c.pick(max - 3));
            Some(move || {
                let s: String = match f {
                    0 => "(".repeat(n),
                    1 => ")".repeat(n),
                    2 => format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect {}", "(and ".repeat(n)),
                    3 => format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect {}(q){}))", "(not ".repeat(n), ")".repeat(n)),
                    4 => format!("(define (domain d) (:types {}))", (0..n).map(|i| format!("t{} - t{} ", i, i + 1)).collect::<String>()),
                    5 => format!("(define (domain d) (:types {}))", (0..n).map(|i| format!("t{} - t{} ", i, (i + 1) % n)).collect::<String>()),
                    6 => format!("(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :subtasks () :ordering (and {})))", (0..n).map(|i| format!("(< i{} i{}) ", i, i + 1)).collect::<String>()),
                    7 => format!("{}(define (domain d))", "\n".repeat(n)),
                    8 => format!("{}(define (domain d))", "; comment\n".repeat(n)),
                    9 => format!("(define (domain d) (:types {}))", "x".repeat(n)),
                    10 => format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect (probabilistic {}.{} (q))))", "1".repeat(n), "2".repeat(n)),
                    11 => chain(n.min(1024), |i, n| if i + 1 < n { vec![i + 1] } else { vec![] }),
                    12 => chain(n.min(1024), |i, n| vec![(i + 1) % n]),
                    13 => chain(n.min(64), |i, n| (0..n).filter(|j| *j != i).collect()),
                    14 => format!("(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :subtasks () :ordering (and {})))", (0..n).map(|i| format!("(< i{} i{}) ", i, (i + 1) % n)).collect::<String>()),
                    15 => format!("(define (domain d) (:predicates (p {})) (:action a :parameters () :precondition (p {})))", "?x ".repeat(n), "?x ".repeat(n)),
                    16 => format!("(define (domain d) (:predicates {}))", (0..n).map(|i| format!("(p{}) ", i)).collect::<String>()),
                    17 => format!("(define (domain d) (:constants {}))", (0..n).map(|i| format!("k{} ", i)).collect::<String>()),
                    18 => format!("(define (domain d) {})", (0..n.min(8192)).map(|i| format!("(:action a{} :parameters ()) ", i)).collect::<String>()),
                    19 => format!("(define (domain d) (:predicates (q)) (:action a :parameters () :effect (and {})))", "(q)".repeat(n)),
                    20 => format!("(define (domain d) (:action a :parameters () :effect (probabilistic {})))", "0.5 (q)".repeat(n)),
                    _ => {
                        let p = match f {
                            21 => format!("(define (problem p) (:domain d) (:objects {}))", (0..n).map(|i| format!("k{} ", i)).collect::<String>()),
                            22 => format!("(define (problem p) (:domain d) (:init {}))", "(q)".repeat(n)),
                            _ => format!("(define (problem p) (:domain d) (:htn :subtasks () :ordering (and {})))", (0..n).map(|i| format!("(< i{} i{}) ", i, i + 1)).collect::<String>()),
                        };
                        return Case { d: b"(define (domain d) (:predicates (q)))".to_vec(), p: Some(p.into_bytes()) };
                    }
                };
                Case { d: s.into_bytes(), p: None }
            })
        },
        judge,
    );
}

/// words of every length, with something special at every position
fn long_words(ctx: &mut Ctx, judge: &dyn Fn(&Case) -> Verdict) {
    let lens: Vec<usize> = if ctx.thorough() { (0..=140).chain([254, 255, 256, 257, 1023, 1024, 1025]).collect() } else { (0..=41).chain([62, 63, 64, 65, 127, 128, 129, 255, 256, 257]).collect() };
    let inner: &[&[u8]] = &[b"x", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes(), b"\xff", b"\xe2\x82", b"@", b"-", b"0", b"."];
    let places: &[(&str, &str)] = &[
        ("(define (domain ", "))"),
        ("(define (domain d) (:types ", " - t) (:predicates (p)))"),
        ("(define (domain d) (:predicates (p ?", ")))"),
        ("(define (domain d) (:", " a))"),
        ("(define (domain d) (:predicates (q)) (:action a :parameters () :effect (probabilistic 1", " (q))))"),
        ("(define (domain d) (:types a) ", " (:types b))"),
        ("(define (domain d) (:types a a) (:action a :parameters () :effect (", ")))"),
    ];
    space(
        ctx,
        "words of every length with something special at every position",
        0,
        |c| {
            let (pre, post) = *c.of(places);
            let n = *c.of(&lens);
            let at = if n <= 70 { c.pick(n + 1) } else { [0, 1, n / 2, n - 2, n - 1, n][c.pick(6)] };
            let x = *c.of(inner);
            Some(move || {
                let fill: &[u8] = if pre.ends_with('1') { b"1" } else { b"a" };
                let mut d = pre.as_bytes().to_vec();
                d.extend(fill.repeat(at));
                d.extend_from_slice(x);
                d.extend(fill.repeat(n - at));
                d.extend_from_slice(post.as_bytes());
                Case { d, p: None }
            })
        },
        judge,
    );
}

/// task i decomposes into the tasks next(i), by one method each
pub fn chain(n: usize, next: fn(usize, usize) -> Vec<usize>) -> String {
    let mut s = String::from("(define (domain d) ");
    for i in 0..n {
        s += &format!("(:task t{} :parameters ()) ", i);
        for (k, j) in next(i, n).iter().enumerate() {
            s += &format!("(:method m{}_{} :parameters () :task (t{}) :ordered-subtasks (t{})) ", i, k, i, j);
        }
    }
    s + ")"
}

pub fn split(w: &[String]) -> Case {
    let at = w.iter().position(|x| x == "\u{1}").unwrap();
    Case { d: lay(&w[..at]), p: Some(lay(&w[at + 1..])) }
}

// ---------------------------------------------------------------- C02

/// everything observable of a pair of files, lines replaced through `line`
pub fn observe(c: &Case, dl: &dyn Fn(u32) -> u32, pl: &dyn Fn(u32) -> u32) -> serde_json::Value {
    use serde_json::json;
    fn lines(v: &mut serde_json::Value, f: &dyn Fn(u32) -> u32) {
        match v {
            serde_json::Value::Object(m) => {
                for (k, x) in m.iter_mut() {
                    if k == "line" {
                        *x = json!(f(x.as_u64().unwrap() as u32));
                    } else {
                        lines(x, f)
                    }
                }
            }
            serde_json::Value::Array(a) => a.iter_mut().for_each(|x| lines(x, f)),
            _ => {}
        }
    }
    // is a reported error about the domain? (the problem is not looked at then)
    let dom_only = |o: &dyn Fn(Option<&Vec<u8>>) -> bool| !o(None);
    let domain_fails_v = dom_only(&|p| subject::verify(&c.d, p).is_ok());
    let domain_fails_j = dom_only(&|p| subject::to_json(&c.d, p).is_ok());
    let err = |o: Out<()>, in_domain: bool| -> serde_json::Value {
        let f = |l: u32| if l == 0 { 0 } else if in_domain { dl(l) } else { pl(l) };
        match o {
            Out::Ok(_) => json!("ok"),
            Out::Lex { kind, lexeme, line, .. } => json!(["lexical", kind, lexeme, f(line)]),
            Out::Syn { expected, found, line, .. } => json!(["syntax", expected, found, f(line)]),
            Out::Sem(e, _) => json!(["semantic", e.kind, e.sym, f(e.line), f(e.line2), e.exp, e.found]),
        }
    };
    let v = subject::verify(&c.d, c.p.as_ref());
    let warnings = match &v {
        Out::Ok(ws) => ws.iter().map(|w| json!([w.symbol, dl(w.line)])).collect::<Vec<_>>(),
        _ => vec![],
    };
    let j = match subject::to_json(&c.d, c.p.as_ref()) {
        Out::Ok(s) => {
            let mut v: serde_json::Value = parse_json(&s).unwrap();
            lines(&mut v["domain"], dl);
            if c.p.is_some() {
                lines(&mut v["problem"], pl);
            }
            v
        }
        o => err(o.without_ok(), domain_fails_j),
    };
    let m = match subject::metadata(&c.d) {
        Out::Ok(m) => json!(m.text),
        o => err(o.without_ok(), true),
    };
    json!({"verify": err(v.without_ok(), domain_fails_v), "warnings": warnings, "json": j, "metadata": m})
}

/// token texts with separators -> bytes, and the line of each token; line of the end of file last
fn assemble(toks: &[&str], seps: &[&str]) -> (Vec<u8>, Vec<u32>) {
    let mut v = vec![];
    let mut lines = vec![];
    let mut line = 1;
    for i in 0..=toks.len() {
        // U+F000 to U+F0FF stand for the bytes 0 to 255, valid UTF-8 or not
        for c in seps[i].chars() {
            match c as u32 {
                x @ 0xf000..=0xf0ff => v.push(x as u8),
                _ => v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes()),
            }
        }
        line += seps[i].matches('\n').count() as u32;
        lines.push(line);
        if i < toks.len() {
            v.extend_from_slice(toks[i].as_bytes());
        }
    }
    (v, lines)
}

pub fn run_c02(ctx: &mut Ctx) {
    // valid, with warnings, and with one error of each stage and kind
    let mut bases: Vec<(Words, Option<Words>)> = vec![];
    for (d, p) in pairs() {
        bases.push((d, Some(p)));
    }
    for d in [
        "(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :subtasks (and (i (t)) (j (t))) :ordering (and (< i j) (< j i))))",
        "(define (domain d) (:types a - b b - a))",
        "(define (domain d) (:predicates (p ?x) (p)))",
        "(define (domain d) (:predicates (p ?x)) (:action a :parameters (?y) :precondition (and (p ?y) (p))))",
        "(define (domain d) (:types a b) (:predicates (p ?x - a)) (:action a :parameters (?y - b) :precondition (p ?y)))",
        "(define (domain d) (:predicates (p ?x)) (:action a :parameters (?y) :precondition (r ?y)))",
        "(define (domain d) (:predicates (p ?x)) (:action a :parameters (?y) :precondition (<= ?y 5)))",
        "(define (domain d) (:predicates (p ?x)) (:action a :parameters (?y) :precondition (p ?y@)))",
        "(define (domain d) (:predicates (p ?x)) (:acton a :parameters (?y)))",
        "(define (domain d) (:predicates (p ?x)) (:action a :parameters (?y) :effect (probabilistic 0.5 (p ?y) 5. (p ?y))))",
        "(define (domain d) (:predicates (p ?x) (:types a))",
        "(define (domain d) (:task t :parameters (?x)) (:task u :parameters ()))",
    ] {
        bases.push((words(d), None));
    }
    let (rd, rp) = pairs()[1].clone();
    for (from, to) in [("(q)", "(z)"), ("(p o)", "(p zz)"), ("(p o)", "(p o o)"), ("(p o)", "(p o2)"), ("o - a", "o - zz"), ("(q) (p o)", "(q (p o)"), ("(:goal", "(:gaol"), ("o2", "o")] {
        let p = P_SMALL[0].replacen(from, to, 1);
        assert!(p != P_SMALL[0]);
        bases.push((rd.clone(), Some(words(&p))));
    }
    let _ = rp;
    let seps: &[&str] = &[
        " ", "\n", "\t", "\r\n", "\r", "  ", " \t ", "\n\n", "\n\n\n", "\r\r\n", ";\n", "; c\n", ";;x\n", " ; (:types x) \n", "\n; a\n; b\n\n", ";a;b\n \n", "; c\r\n", "\t;\t\n\t", ";\u{e9}\"'\n", "; line ) (\n ;\n", "\n \n\t\n\r\n ", ";-\n;-\n", " \n;\n", ";\u{f0ff}\n", ";\0\n", "; \u{f0c3}\u{f0e2}\u{f082}) ;\n", ";\u{1f600}\u{2028}\u{85}\u{feff}\n", ";\u{b}\u{c}\\\n", ";\u{f080} (:goal\n",
    ];
    crate::feat::templates(ctx, ctx.bound(&[("world", 2), ("formulas", 1), ("networks", 2), ("lists", 1)], &[("world", 2), ("formulas", 2), ("networks", 3), ("lists", 2)]), &relaid);
    let ends: &[&str] = &["", " ", "\n", "\t", "\r", "\r\n", "\n\n", ";", "; x", ";x\n", "\n;", " ; x ;", "\n; x\n; y", ";\r", "\n\n\n \t", ";\u{f0ff}", ";\u{f0c3}\n", ";\0", "\n;\u{1f600}", ";\u{2028}x"];
    for (k, (d, p)) in bases.iter().enumerate() {
        let toks: Vec<&str> = d.iter().map(|s| s.as_str()).collect();
        let ptoks: Vec<&str> = p.iter().flatten().map(|s| s.as_str()).collect();
        let (cd, cdl) = assemble(&toks, &canonical(toks.len()));
        let (cp, cpl) = assemble(&ptoks, &canonical(ptoks.len()));
        let base = Case { d: cd, p: p.as_ref().map(|_| cp) };
        // lines of the canonical layout <-> token index
        let index = |lines: &[u32]| -> std::collections::BTreeMap<u32, u32> { lines.iter().enumerate().map(|(i, l)| (*l, i as u32)).collect() };
        let (di, pi) = (index(&cdl), index(&cpl));
        let reference = observe(&base, &|l| *di.get(&l).unwrap_or(&9999), &|l| *pi.get(&l).unwrap_or(&9999));
        let rank: u32 = (toks.len() + 1) as u32;
        let prank: u32 = (ptoks.len() + 1) as u32;
        // other layouts: the line determines a token only where every token has its own line; so
        // expected lines are computed from the reference and compared as lines
        let total = toks.len() + if p.is_some() { ptoks.len() } else { 0 };
        let small = total < 60;
        let mut run = |ctx: &mut Ctx, name: &str, gen: &mut dyn FnMut(&mut Chooser) -> Option<Vec<(usize, String)>>, base_sep: &'static str| {
            let (toks, ptoks, reference, p) = (&toks, &ptoks, &reference, p);
            space(
                ctx,
                &format!("document {}: {}", k, name),
                0,
                |c| {
                    let changes = gen(c)?;
                    Some(move || layout(toks, ptoks, p.is_some(), base_sep, &changes).0)
                },
                &|case: &Case| {
                    // recover the layout's token lines with the model lexer's own notion of a line
                    let line_of = |src: &Vec<u8>, n: u32| -> Vec<u32> {
                        let l = token_lines(src);
                        assert_eq!(l.len() as u32, n, "layout changed the tokens");
                        l
                    };
                    let dl = line_of(&case.d, rank);
                    let pl = case.p.as_ref().map(|p| line_of(p, prank)).unwrap_or_default();
                    let mut want = reference.clone();
                    to_lines(&mut want, &dl, &pl, case);
                    let got = observe(case, &|l| l, &|l| l);
                    if let Some(d) = first_difference(String::new(), &want, &got) {
                        return Err(d);
                    }
                    Ok(Some(match &got["verify"] {
                        serde_json::Value::Array(a) => a[0].as_str().unwrap().to_string(),
                        _ => "accepted".into(),
                    }))
                },
            );
        };
        // one gap at a time, every separator; before the first token and after the last one too
        run(
            ctx,
            "every separator in every gap",
            &mut |c| {
                let g = c.pick(total + 2);
                let i = c.pick(seps.len() + 1);
                let s = if i < seps.len() { seps[i].to_string() } else { String::new() };
                Some(vec![(g, s)])
            },
            " ",
        );
        run(ctx, "every end of file", &mut |c| Some(vec![(usize::MAX, c.of(ends).to_string()), (usize::MAX - 1, c.of(ends).to_string())]), "\n");
        run(ctx, "same separator everywhere", &mut |c| Some((0..total + 2).map(|g| (g, seps[0].to_string())).map(|(g, _)| (g, String::new())).take(0).chain(std::iter::once((usize::MAX - 2, c.of(seps).to_string()))).collect()), " ");
        if small {
            run(
                ctx,
                "every pair of separators in adjacent gaps",
                &mut |c| {
                    let g = c.pick(total + 1);
                    let i = c.pick(seps.len() + 1);
                    let j = c.pick(seps.len() + 1);
                    let s = |i: usize| if i < seps.len() { seps[i].to_string() } else { String::new() };
                    Some(vec![(g, s(i)), (g + 1, s(j))])
                },
                "\n",
            );
            let deep = ctx.bound(false, true);
            if deep {
                run(
                    ctx,
                    "every pair of gaps, few separators",
                    &mut |c| {
                        let few = ["", "\n\n", "; c\n", "\r\n", "\t"];
                        let g = c.pick(total + 2);
                        let h = c.pick(total + 2);
                        if h <= g {
                            return None;
                        }
                        Some(vec![(g, c.of(&few).to_string()), (h, c.of(&few).to_string())])
                    },
                    " ",
                );
            }
        }
        // separators built from pieces, at the gaps of each kind of neighbourhood
        let pieces: &[&str] = &[" ", "\t", "\r", "\n", ";\n", ";;\n", "; )\n", ";\t(\n"];
        let len = ctx.bound(3, 4);
        let gaps: Vec<usize> = (0..toks.len() + 1).filter(|g| small || g % 8 == 0).collect();
        if k < 6 || k == 11 {
            run(
                ctx,
                "every separator of some pieces",
                &mut |c| {
                    let g = *c.of(&gaps);
                    let n = c.pick(len) + 1;
                    let s: String = (0..n).map(|_| *c.of(pieces)).collect();
                    Some(vec![(g, s)])
                },
                " ",
            );
        }
        // long separators: line numbers far away
        if k == 1 || k == 9 || k == 15 {
            run(
                ctx,
                "long separators",
                &mut |c| {
                    let g = c.pick(total + 2);
                    let n = *c.of(&[254usize, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 70000]);
                    let s = match c.pick(4) {
                        0 => "\n".repeat(n),
                        1 => ";\n".repeat(n),
                        2 => format!(";{}\n", "x".repeat(n)),
                        _ => " ".repeat(n),
                    };
                    if !small && g % 16 != 0 {
                        return None;
                    }
                    Some(vec![(g, s)])
                },
                " ",
            );
        }
    }
}

/// a document in canonical layout against the same tokens in other layouts
fn relaid(c: &Case) -> Verdict {
    let cut = |b: &Vec<u8>| -> Vec<String> { String::from_utf8_lossy(b).lines().map(|s| s.to_string()).collect() };
    let (d, p) = (cut(&c.d), c.p.as_ref().map(cut));
    let toks: Vec<&str> = d.iter().map(|s| s.as_str()).collect();
    let ptoks: Vec<&str> = p.iter().flatten().map(|s| s.as_str()).collect();
    let back = |n: usize| move |l: u32| if l >= 1 && l as usize <= n + 1 { l - 1 } else { 9999 };
    let reference = observe(c, &back(toks.len()), &back(ptoks.len()));
    let all = |s: &str| (usize::MAX - 2, s.to_string());
    let styles: [Vec<(usize, String)>; 5] = [
        vec![all("")],
        vec![all("\r\n")],
        vec![all(" ; ( c\n\t"), (usize::MAX, "; end".into()), (usize::MAX - 1, ";".into())],
        vec![all("\t \r"), (0, "\n\n;x\n".into())],
        vec![all("\n;;\n \n"), (usize::MAX, "".into()), (usize::MAX - 1, "".into())],
    ];
    for st in &styles {
        let case = layout(&toks, &ptoks, c.p.is_some(), " ", st).0;
        let dl = token_lines(&case.d);
        let pl = case.p.as_ref().map(|p| token_lines(p)).unwrap_or_default();
        if dl.len() != toks.len() + 1 || (c.p.is_some() && pl.len() != ptoks.len() + 1) {
            return Ok(None);
        }
        let mut want = reference.clone();
        to_lines(&mut want, &dl, &pl, &case);
        let got = observe(&case, &|l| l, &|l| l);
        if let Some(d) = first_difference(String::new(), &want, &got) {
            return Err(format!("laid out with {:?}: {}", st[0].1, d));
        }
    }
    Ok(Some(match &reference["verify"] {
        serde_json::Value::Array(a) => a[0].as_str().unwrap().to_string(),
        _ => "accepted".into(),
    }))
}

fn canonical(n: usize) -> Vec<&'static str> {
    let mut v = vec!["\n"; n + 1];
    v[0] = "";
    v
}

/// the lines of the tokens and of the end of the file, by position in the text
fn token_lines(src: &[u8]) -> Vec<u32> {
    // separators are known to be right here, so a plain scan is enough
    let (mut i, mut line, mut out) = (0, 1u32, vec![]);
    loop {
        while i < src.len() && (b" \t\r\n;".contains(&src[i])) {
            if src[i] == b';' {
                while i < src.len() && src[i] != b'\n' {
                    i += 1;
                }
            } else {
                if src[i] == b'\n' {
                    line += 1;
                }
                i += 1;
            }
        }
        out.push(line);
        if i == src.len() {
            return out;
        }
        if src[i] == b'(' || src[i] == b')' {
            i += 1;
        } else {
            while i < src.len() && !b" \t\r\n;()".contains(&src[i]) {
                i += 1;
            }
        }
    }
}

fn layout(toks: &[&str], ptoks: &[&str], problem: bool, base_sep: &'static str, changes: &[(usize, String)]) -> (Case, ()) {
    let mut seps: Vec<&str> = vec![base_sep; toks.len() + 1];
    let mut pseps: Vec<&str> = vec![base_sep; ptoks.len() + 1];
    for (g, s) in changes {
        if *g == usize::MAX {
            seps[toks.len()] = s;
        } else if *g == usize::MAX - 1 {
            pseps[ptoks.len()] = s;
        } else if *g == usize::MAX - 2 {
            for x in seps.iter_mut().chain(pseps.iter_mut()) {
                *x = s;
            }
        } else if *g < seps.len() {
            seps[*g] = s;
        } else if *g - seps.len() < pseps.len() {
            pseps[*g - seps.len()] = s;
        }
    }
    // an empty separator is only allowed next to a parenthesis
    let fix = |toks: &[&str], seps: &mut Vec<&str>| {
        for i in 1..toks.len() {
            let par = |t: &str| t == "(" || t == ")";
            if seps[i].is_empty() && !par(toks[i - 1]) && !par(toks[i]) {
                seps[i] = " ";
            }
        }
    };
    fix(toks, &mut seps);
    fix(ptoks, &mut pseps);
    let (d, _) = assemble(toks, &seps);
    let (p, _) = assemble(ptoks, &pseps);
    (Case { d, p: if problem { Some(p) } else { None } }, ())
}

/// replaces token indices by lines
fn to_lines(v: &mut serde_json::Value, dl: &[u32], pl: &[u32], case: &Case) {
    use serde_json::json;
    fn tree(v: &mut serde_json::Value, l: &[u32]) {
        match v {
            serde_json::Value::Object(m) => {
                for (k, x) in m.iter_mut() {
                    if k == "line" {
                        *x = json!(l[x.as_u64().unwrap() as usize]);
                    } else {
                        tree(x, l)
                    }
                }
            }
            serde_json::Value::Array(a) => a.iter_mut().for_each(|x| tree(x, l)),
            _ => {}
        }
    }
    let domain_fails_v = !subject::verify(&case.d, None).is_ok();
    let domain_fails_j = !subject::to_json(&case.d, None).is_ok();
    let err = |v: &mut serde_json::Value, in_domain: bool| {
        if let serde_json::Value::Array(a) = v {
            let l = if in_domain { dl } else { pl };
            let (from, to) = if a[0] == "semantic" { (3, 5) } else { (3, 4) };
            let sem = a[0] == "semantic";
            let no_line = sem && (a[1] == "DupRequirement" || a[1] == "CyclicType");
            let one_line = sem && !a[1].as_str().unwrap().starts_with("Dup");
            for i in from..to {
                if no_line || (one_line && i == 4) {
                    continue;
                }
                a[i] = json!(l[a[i].as_u64().unwrap() as usize]);
            }
        }
    };
    err(&mut v["verify"], domain_fails_v);
    err(&mut v["metadata"], true);
    if v["json"].is_array() {
        err(&mut v["json"], domain_fails_j);
    } else {
        tree(&mut v["json"]["domain"], dl);
        if case.p.is_some() {
            tree(&mut v["json"]["problem"], pl);
        }
    }
    if let serde_json::Value::Array(ws) = &mut v["warnings"] {
        for w in ws {
            w[1] = json!(dl[w[1].as_u64().unwrap() as usize]);
        }
    }
}
