//! Base documents and the edit operations on their token sequences.
use crate::engine::{Case, Chooser};
use std::collections::BTreeSet;

pub type Words = Vec<String>;

/// splits a text of the suite's own into tokens (no comments)
pub fn words(s: &str) -> Words {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c == '(' || c == ')' || c.is_whitespace() {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            if !c.is_whitespace() {
                out.push(c.to_string());
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}
/// canonical layout: one token per line, so that a line names a token
pub fn lay<S: AsRef<str>>(w: &[S]) -> Vec<u8> {
    let mut v = vec![];
    for x in w {
        v.extend_from_slice(x.as_ref().as_bytes());
        v.push(b'\n');
    }
    v
}
/// one line
pub fn flat<S: AsRef<str>>(w: &[S]) -> Vec<u8> {
    let mut v = vec![];
    for x in w {
        v.extend_from_slice(x.as_ref().as_bytes());
        v.push(b' ');
    }
    v
}
pub fn text(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b).to_string();
    // canonical layout is easier to read on one line
    if s.lines().count() > 12 && s.lines().all(|l| !l.contains(' ')) {
        format!("(one token per line) {}", s.replace('\n', " "))
    } else {
        s
    }
}

pub const D_RICH: &str = "(define (domain d0)
 (:requirements :typing :hierarchy :negative-preconditions)
 (:types a b - c c d - object)
 (:constants k1 - a k2)
 (:predicates (p ?x - a ?y - c) (q) (r ?x - c) (u ?v))
 (:functions (f ?x - a))
 (:task t :parameters (?x - a ?y - c))
 (:task s :parameters ())
 (:method m1 :parameters (?x - a ?y - c ?w) :task (t ?x ?y)
   :precondition (and (p ?x ?y) (not (u ?w)))
   :subtasks (and (i1 (act ?x)) (i2 (t k1 ?x)) (i3 (s)))
   :ordering (and (< i1 i2) (< i2 i3))
   :constraints (and (not (= ?x ?y)) (= ?x k1)))
 (:method m2 :parameters (?x - a ?y - c) :task (t ?x ?y) :ordered-subtasks (and (act ?x) (s)))
 (:method m3 :parameters () :task (s) :precondition () :ordered-subtasks ())
 (:action act :parameters (?z - c)
   :precondition (and (r ?z) (or (q) (oneof (q) (r k1))) (forall (?g - a) (p ?g ?z)) (exists (?g) (r ?g)) (= ?z k1))
   :effect (and (not (r ?z)) (probabilistic 0.3 (q) 1 (not (q)))))
 (:action noop :parameters ()))";
pub const P_RICH: &str = "(define (problem p0) (:domain d0)
 (:requirements :typing)
 (:objects o1 o2 - a o3 - b o4)
 (:htn :parameters (?h - a) :subtasks (and (i (t o1 k1)) (j (act ?h))) :ordering (and (< i j)) :constraints (= ?h o1))
 (:init (p o1 o2) (q) (u o4) (r k1))
 (:goal (and (r o1) (not (u k2)) (forall (?g - c) (r ?g)))))";

/// small documents, one construct each
pub const D_SMALL: [&str; 7] = [
    "(define (domain d) (:types a - b c) (:constants k - a) (:predicates (p ?x - b) (q)) (:action n :parameters (?x - a) :precondition (p ?x) :effect (and (q) (not (p k)))))",
    "(define (domain d) (:task t :parameters (?x)) (:method m :parameters (?x) :task (t ?x) :subtasks (and (i (n ?x)) (j (t ?x))) :ordering (< i j)) (:action n :parameters (?x)))",
    "(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :precondition (q) :ordered-subtasks (n) :constraints (not (= u v))) (:predicates (q)) (:action n :parameters ()))",
    "(define (domain d) (:predicates (q) (r ?x)) (:action n :parameters () :effect (probabilistic 0.5 (q) 1 (oneof (q) ()))) (:action m :parameters () :precondition (forall (?x) (exists (?y) (or (r ?x) (= x y))))))",
    "(define (domain d) (:requirements :typing :strips) (:types a) (:predicates (p ?x ?y - a)) (:functions (f ?x - a)) (:constants k l - a))",
    "(define (domain d) (:task t :parameters (?x)) (:method m :parameters (?y) :task (t ?y) :subtasks (and (i (n ?y)) (j (n ?y)) (h (n ?y))) :ordering (and (< i j) (< j h)) :ordering (< i h) :constraints (= ?y ?y)) (:action n :parameters (?z)))",
    "(define (domain d))",
];
pub const P_SMALL: [&str; 4] = [
    "(define (problem p) (:domain d) (:objects o - a o2) (:init (q) (p o)) (:goal (and (q) (p k))))",
    "(define (problem p) (:domain d) (:htn :parameters () :subtasks (and (i (t o)) (j (n o))) :ordering (< i j) :constraints (= o o)) (:objects o) (:init))",
    "(define (problem p) (:domain d) (:requirements :typing) (:htn :ordered-subtasks (and (t o) (n o))) (:objects o) (:goal))",
    "(define (problem p) (:domain d) (:objects o - a) (:htn :tasks (t o)) (:init (r o)))",
];
/// domain/problem pairs for the semantic checks; every name of the problem is declared
pub fn pairs() -> Vec<(Words, Words)> {
    [
        (D_RICH, P_RICH),
        (D_SMALL[0], P_SMALL[0]),
        (D_SMALL[1], P_SMALL[1]),
        (D_SMALL[5], P_SMALL[2]),
        (
            "(define (domain d) (:types a - b) (:predicates (r ?x - b)) (:task t :parameters (?x - b)) (:method m :parameters (?x - b) :task (t ?x) :subtasks (n ?x)) (:action n :parameters (?x - b)))",
            P_SMALL[3],
        ),
    ]
    .iter()
    .map(|(d, p)| (words(d), words(p)))
    .collect()
}

#[derive(Clone, Debug)]
pub enum Edit {
    Del(usize, usize),
    Rep(usize, String),
    /// insert the words before position
    Ins(usize, Vec<String>),
}

pub fn is_id(w: &str) -> bool {
    let w = w.strip_prefix('?').unwrap_or(w);
    !w.is_empty()
        && w.as_bytes()[0].is_ascii_alphabetic()
        && w.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'-')
        && !["define", "domain", "problem"].contains(&w)
        && !crate::model::lex::OPS.contains(&w)
}
/// (start, end inclusive) of every parenthesised group
pub fn groups(w: &[String]) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut st = vec![];
    for (i, x) in w.iter().enumerate() {
        if x == "(" {
            st.push(i);
        } else if x == ")" {
            if let Some(s) = st.pop() {
                out.push((s, i));
            }
        }
    }
    out.sort();
    out
}
pub fn apply(w: &[String], edits: &[&Edit]) -> Words {
    let n = w.len();
    let mut deleted = vec![false; n];
    let mut rep: Vec<Option<&String>> = vec![None; n];
    let mut before: Vec<Vec<&String>> = vec![vec![]; n + 1];
    for e in edits {
        match e {
            Edit::Del(a, b) => {
                for x in &mut deleted[*a..=*b] {
                    *x = true;
                }
            }
            Edit::Rep(i, s) => rep[*i] = Some(s),
            Edit::Ins(i, s) => before[*i].extend(s.iter()),
        }
    }
    let mut out = vec![];
    for i in 0..=n {
        out.extend(before[i].iter().map(|s| s.to_string()));
        if i < n && !deleted[i] {
            out.push(rep[i].cloned().unwrap_or_else(|| w[i].clone()));
        }
    }
    out
}
/// all single token deletions, insertions and replacements over an alphabet
pub fn token_edits(w: &[String], alphabet: &[&str]) -> Vec<Edit> {
    let mut v = vec![];
    for i in 0..=w.len() {
        if i < w.len() {
            v.push(Edit::Del(i, i));
            for a in alphabet {
                if w[i] != *a {
                    v.push(Edit::Rep(i, a.to_string()));
                }
            }
        }
        for a in alphabet {
            v.push(Edit::Ins(i, vec![a.to_string()]));
        }
    }
    v
}
/// edits that mostly keep the grammar: names, arguments, types, whole groups
pub fn name_edits(w: &[String], pool: &[&str]) -> Vec<Edit> {
    let mut v = vec![];
    for i in 0..w.len() {
        if is_id(&w[i]) {
            for a in pool {
                if w[i] != *a {
                    v.push(Edit::Rep(i, a.to_string()));
                }
            }
            v.push(Edit::Del(i, i));
            for a in pool {
                v.push(Edit::Ins(i + 1, vec![a.to_string()]));
            }
        }
        if w[i] == "-" && i + 1 < w.len() {
            v.push(Edit::Del(i, i + 1));
        } else if is_id(&w[i]) && i + 1 < w.len() && w[i + 1] != "-" && i > 1 && w[i - 1] != "-" {
            for a in pool {
                v.push(Edit::Ins(i + 1, vec!["-".into(), a.to_string()]));
            }
        }
        if w[i].starts_with(':') && crate::model::lex::REQS.iter().any(|r| r.0 == &w[i][1..]) {
            for r in crate::model::lex::REQS {
                v.push(Edit::Ins(i, vec![format!(":{}", r.0)]));
            }
        }
    }
    for (a, b) in groups(w) {
        if a > 0 {
            v.push(Edit::Del(a, b));
            v.push(Edit::Ins(b + 1, w[a..=b].to_vec()));
        }
    }
    v
}
/// the identifiers of a document, in the spelling first used
pub fn id_pool(w: &[String]) -> Vec<String> {
    let mut seen = BTreeSet::new();
    let mut v = vec![];
    for x in w {
        if is_id(x) && seen.insert(x.trim_start_matches('?').to_string()) {
            v.push(x.clone());
        }
    }
    v
}

/// documents with one defect each, about names that are put in place of @ and #
const DEFECTS: &[(&str, &str)] = &[
    ("(define (domain d) (:predicates (@) (q) (@)))", ""),
    ("(define (domain d) (:constants @ k @))", ""),
    ("(define (domain d) (:action @ :parameters ()) (:action @ :parameters ()))", ""),
    ("(define (domain d) (:task @ :parameters ()) (:task @ :parameters ()))", ""),
    ("(define (domain d) (:task t :parameters ()) (:method @ :parameters () :task (t) :subtasks ()) (:method @ :parameters () :task (t) :subtasks ()))", ""),
    ("(define (domain d) (:action a :parameters (?@ ?@)))", ""),
    ("(define (domain d) (:task t :parameters ()) (:method m :parameters (?@ ?x ?@) :task (t) :subtasks ()))", ""),
    ("(define (domain d) (:action a :parameters () :precondition (@)))", ""),
    ("(define (domain d) (:action a :parameters () :precondition (forall (?x) (@ ?x))))", ""),
    ("(define (domain d) (:types #) (:predicates (p ?x - @)))", ""),
    ("(define (domain d) (:types #) (:constants k - @))", ""),
    ("(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :subtasks (@)))", ""),
    ("(define (domain d) (:task # :parameters ()) (:method m :parameters () :task (@) :subtasks ()))", ""),
    ("(define (domain d) (:predicates (p ?x)) (:action a :parameters (?#) :precondition (p ?@)))", ""),
    ("(define (domain d) (:predicates (@ ?x)) (:action a :parameters (?x) :precondition (@)))", ""),
    ("(define (domain d) (:predicates (@ ?x)) (:action a :parameters (?x) :precondition (exists (?y) (@))))", ""),
    ("(define (domain d) (:task @ :parameters (?x)) (:method m :parameters () :task (@) :subtasks ()))", ""),
    ("(define (domain d) (:task t :parameters ()) (:action @ :parameters (?x)) (:method m :parameters () :task (t) :subtasks (@)))", ""),
    ("(define (domain d) (:types @ #) (:predicates (p ?x - @)) (:action a :parameters (?y - #) :precondition (p ?y)))", ""),
    ("(define (domain d) (:types @) (:predicates (p ?x - @)) (:action a :parameters (?#) :precondition (p ?#)))", ""),
    ("(define (domain d) (:types @) (:predicates (p ?x)) (:action a :parameters (?# - @) :precondition (p ?#)))", ""),
    ("(define (domain d) (:types @ #) (:task t :parameters (?x - @)) (:method m :parameters (?y - #) :task (t ?y) :subtasks ()))", ""),
    ("(define (domain d) (:types @ - # # - @))", ""),
    ("(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :subtasks (and (@ (t)) (# (t))) :ordering (and (< @ #) (< # @))))", ""),
    ("(define (domain d) @)", ""),
    ("(define (domain d) (:@))", ""),
    ("(define (domain d) (:types @!))", ""),
    ("(define (domain d) (:types ?@!))", ""),
    ("(define (domain d) (:action @ :effect ()))", ""),
    ("(define (domain d) (:action a :parameters () :effect (and @)))", ""),
    ("(define (domain @ #))", ""),
    ("(define (@))", ""),
    ("(@)", ""),
    ("@", ""),
    ("(define (domain d) (:task @ :parameters ()) (:task # :parameters ()))", ""),
    ("(define (domain d) (:predicates (q)))", "(define (problem p) (:domain d) (:objects @ k @))"),
    ("(define (domain d) (:predicates (q)))", "(define (problem p) (:domain d) (:objects k - @))"),
    ("(define (domain d) (:predicates (q)))", "(define (problem p) (:domain d) (:init (@)))"),
    ("(define (domain d) (:predicates (q)))", "(define (problem p) (:domain d) (:goal (@)))"),
    ("(define (domain d) (:predicates (q ?x)))", "(define (problem p) (:domain d) (:objects #) (:init (q @)))"),
    ("(define (domain d) (:predicates (@ ?x)))", "(define (problem p) (:domain d) (:init (@)))"),
    ("(define (domain d) (:types @ #) (:predicates (q ?x - @)))", "(define (problem p) (:domain d) (:objects o - #) (:init (q o)))"),
    ("(define (domain d) (:predicates (q)))", "(define (problem p) (:domain d) (:htn :subtasks (@)))"),
    ("(define (domain d) (:task @ :parameters (?x)))", "(define (problem p) (:domain d) (:htn :subtasks (@)))"),
    ("(define (domain d) (:types @ #) (:task t :parameters (?x - @)))", "(define (problem p) (:domain d) (:objects o - #) (:htn :subtasks (t o)))"),
    ("(define (domain d) (:types @ #) (:task t :parameters (?x - @)))", "(define (problem p) (:domain d) (:htn :parameters (?y - #) :subtasks (t ?y)))"),
    ("(define (domain d) (:task t :parameters (?x)))", "(define (problem p) (:domain d) (:htn :parameters (?#) :subtasks (t ?@)))"),
    ("(define (domain d) (:task t :parameters ()))", "(define (problem p) (:domain d) (:htn :subtasks (and (@ (t)) (# (t))) :ordering (and (< @ #) (< # @))))"),
    ("(define (domain d) (:task t :parameters ()))", "(define (problem p) (:domain d) @)"),
    ("(define (domain d) (:task t :parameters ()))", "(define (problem @ #))"),
];
pub const NAME_LENGTHS: &[usize] = &[1, 2, 3, 7, 8, 15, 16, 20, 24, 30, 31, 32, 40, 48, 50, 63, 64, 65, 79, 80, 81, 96, 100, 120, 127, 128, 129, 160, 200, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4096, 20_000];

/// one of them, with names of a length
pub fn pick_defect(c: &mut Chooser) -> impl FnOnce() -> Case {
    let (d, p) = *c.of(DEFECTS);
    let n = *c.of(NAME_LENGTHS);
    let common = c.flag();
    move || {
        // both names differ at the end, or at the start
        let (a, b) = if common { (format!("{}a", "x".repeat(n)), format!("{}b", "x".repeat(n))) } else { (format!("a{}", "x".repeat(n)), format!("b{}", "x".repeat(n))) };
        let put = |t: &str| lay(&words(&t.replace('@', &a).replace('#', &b)));
        Case { d: put(d), p: if p.is_empty() { None } else { Some(put(p)) } }
    }
}

/// Long lists of every kind: (name, greatest length, number of ends, document). End 0 is in order; in the others
/// something is wrong (or different) at the far end of the list only.
pub type Long = (&'static str, usize, usize, fn(usize, usize) -> (String, String));
pub const LONG: &[Long] = &[
    ("chain of types", 70_000, 5, |n, e| {
        let t = (0..n).map(|i| format!("t{} - t{} ", i, i + 1)).collect::<String>();
        let more = ["", "", "", "", "zz - t0"][e].to_string() + &[String::new(), String::new(), format!("t{} - t0", n), format!("t{} - t{}", n, n / 2), String::new()][e];
        let want = if e == 1 { "other".to_string() } else { format!("t{}", n) };
        (format!("(define (domain d) (:types other {t}{more}) (:predicates (p ?x - {want})) (:action a :parameters (?x - t0) :effect (p ?x)))"), String::new())
    }),
    ("types below one", 70_000, 3, |n, e| {
        let t = (0..n).map(|i| format!("t{} - top ", i)).collect::<String>();
        let want = ["top", "t0", "zz"][e];
        (format!("(define (domain d) (:types {t}) (:predicates (p ?x - {want})) (:action a :parameters (?x - t{}) :effect (p ?x)))", n - 1), String::new())
    }),
    ("predicates", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("(x{} ?a) ", i)).collect::<String>();
        let more = if e == 2 { "(x0 ?a)" } else { "" };
        let (used, arg) = (if e == 1 { n } else { n - 1 }, if e == 3 { "?y ?y" } else { "?y" });
        (format!("(define (domain d) (:predicates {t}{more}) (:action a :parameters (?y) :effect (x{used} {arg})))"), String::new())
    }),
    ("constants", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("x{} - {} ", i, if e == 3 && i == n - 1 { "u" } else { "t" })).collect::<String>();
        let more = if e == 2 { "x0 - t" } else { "" };
        let used = if e == 1 { n } else { n - 1 };
        (format!("(define (domain d) (:types t u) (:constants {t}{more}) (:predicates (p ?x - t)) (:action a :parameters () :effect (p x{used})))"), String::new())
    }),
    ("actions", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("(:action x{} :parameters (?y)) ", i)).collect::<String>();
        let more = if e == 2 { "(:action x0 :parameters (?y))" } else { "" };
        let (used, arg) = (if e == 1 { n } else { n - 1 }, if e == 3 { "" } else { "?y" });
        (format!("(define (domain d) (:task t :parameters ()) {t}{more} (:method m :parameters (?y) :task (t) :subtasks (x{used} {arg})))"), String::new())
    }),
    ("tasks", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("(:task x{} :parameters (?y)) ", i)).collect::<String>();
        let more = if e == 2 { "(:task x0 :parameters (?y))" } else { "" };
        let (used, arg) = (if e == 1 { n } else { n - 1 }, if e == 3 { "" } else { "?y" });
        (format!("(define (domain d) {t}{more} (:method m :parameters (?y) :task (x{used} {arg}) :subtasks ()))"), String::new())
    }),
    ("tasks that nothing refines", 70_000, 2, |n, e| {
        let t = (0..n).map(|i| format!("(:task x{} :parameters ()) ", i)).collect::<String>();
        (format!("(define (domain d) {t} (:method m :parameters () :task (x0) :subtasks (x{})))", n - 1), ["", "(define (problem q) (:domain d) (:htn :subtasks (x0)) (:init))"][e].into())
    }),
    ("methods", 70_000, 6, |n, e| {
        let t = (0..n).map(|i| format!("(:method m{} :parameters () :task (t) :subtasks (and {})) ", i, if i % 2 == 0 { "(a)" } else { "(a) (u)" })).collect::<String>();
        let more = [
            "(:method m :parameters () :task (t) :subtasks ())",
            "(:method m :parameters () :task (zz) :subtasks ())",
            "(:method m0 :parameters () :task (t) :subtasks ())",
            "(:method m :parameters () :task (t) :ordered-subtasks (and (t) (a)))",
            "(:method m :parameters () :task (u) :ordered-subtasks (and (u) (a)))",
            "(:method m :parameters () :task (u) :subtasks (zz))",
        ][e];
        (format!("(define (domain d) (:task t :parameters ()) (:task u :parameters ()) (:action a :parameters ()) {t}{more})"), String::new())
    }),
    ("parameters of an action", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("?x{} - {} ", i, if e == 3 && i == n - 1 { "u" } else { "t" })).collect::<String>();
        let more = if e == 2 { "?x0 - t" } else { "" };
        let used = if e == 1 { n } else { n - 1 };
        (format!("(define (domain d) (:types t u) (:predicates (p ?x - t)) (:action a :parameters ({t}{more}) :effect (p ?x{used})))"), String::new())
    }),
    ("parameters of a method", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("?x{} - {} ", i, if e == 3 && i == n - 1 { "u" } else { "t" })).collect::<String>();
        let more = if e == 2 { "?x0 - t" } else { "" };
        let used = if e == 1 { n } else { n - 1 };
        (format!("(define (domain d) (:types t u) (:task c :parameters (?x - t)) (:method m :parameters ({t}{more}) :task (c ?x{used}) :subtasks (c ?x{used})))"), String::new())
    }),
    ("arguments of an atom", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("?x{} - t ", i)).collect::<String>();
        let k = [n, n - 1, n + 1, n][e];
        let a = (0..k).map(|i| if e == 3 && i == n - 1 { "c " } else { "?y " }).collect::<String>();
        (format!("(define (domain d) (:types t) (:constants c) (:predicates (p {t})) (:action a :parameters (?y - t) :effect (p {a})))"), String::new())
    }),
    ("arguments of a task", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("?x{} - t ", i)).collect::<String>();
        let k = [n, n - 1, n + 1, n][e];
        let a = (0..k).map(|i| if e == 3 && i == n - 1 { "c " } else { "?y " }).collect::<String>();
        (format!("(define (domain d) (:types t) (:constants c) (:task u :parameters ()) (:action p :parameters ({t})) (:method m :parameters (?y - t) :task (u) :subtasks (i (p {a}))))"), String::new())
    }),
    ("arguments of a fact", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("?x{} - t ", i)).collect::<String>();
        let k = [n, n - 1, n + 1, n][e];
        let a = (0..k).map(|i| if e == 3 && i == n - 1 { "c " } else { "o " }).collect::<String>();
        (format!("(define (domain d) (:types t) (:constants c) (:predicates (p {t})))"), format!("(define (problem q) (:domain d) (:objects o - t) (:init (p {a})))"))
    }),
    ("ordered subtasks", 257, 4, |n, e| {
        let t = (0..n).map(|_| "(a) ").collect::<String>();
        let last = ["(a)", "(zz)", "(t)", "(a ?y)"][e];
        (format!("(define (domain d) (:task t :parameters ()) (:action a :parameters ()) (:method m :parameters (?y) :task (t) :ordered-subtasks (and {t}{last})))"), String::new())
    }),
    ("orderings", 257, 3, |n, e| {
        let s = (0..n).map(|i| format!("(i{} (a)) ", i)).collect::<String>();
        let o = (1..n).map(|i| format!("(< i{} i{}) ", i - 1, i)).collect::<String>();
        let last = [String::new(), format!("(< i{} i0)", n - 1), format!("(< i0 i{})", n - 1)][e].clone();
        (format!("(define (domain d) (:task t :parameters ()) (:action a :parameters ()) (:method m :parameters () :task (t) :subtasks (and {s}) :ordering (and {o}{last})))"), String::new())
    }),
    ("orderings of a problem", 10_001, 3, |n, e| {
        let s = (0..n).map(|i| format!("(i{} (a)) ", i)).collect::<String>();
        let o = (1..n).map(|i| format!("(< i{} i{}) ", i - 1, i)).collect::<String>();
        let last = [String::new(), format!("(< i{} i0)", n - 1), format!("(< i0 i{})", n - 1)][e].clone();
        ("(define (domain d) (:action a :parameters ()))".into(), format!("(define (problem q) (:domain d) (:htn :subtasks (and {s}) :ordering (and {o}{last})) (:init))"))
    }),
    ("objects", 70_000, 5, |n, e| {
        let t = (0..n).map(|i| format!("x{} - {} ", i, if e == 3 && i == n - 1 { "u" } else { "t" })).collect::<String>();
        let more = ["", "", "x0 - t", "", "k - zz"][e];
        let used = if e == 1 { n } else { n - 1 };
        ("(define (domain d) (:types t u) (:predicates (p ?x - t)))".into(), format!("(define (problem q) (:domain d) (:objects {t}{more}) (:init (p x{used})))"))
    }),
    ("facts", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("(p {}) ", ["o", "k"][i % 2])).collect::<String>();
        let last = ["(p o)", "(zz o)", "(p o o)", "(p zz)"][e];
        ("(define (domain d) (:constants k) (:predicates (p ?x)))".into(), format!("(define (problem q) (:domain d) (:objects o) (:init {t}{last}))"))
    }),
    ("goals", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("(p {}) ", ["o", "k"][i % 2])).collect::<String>();
        let last = ["(p o)", "(zz o)", "(not (p o o))", "(or (p zz))"][e];
        ("(define (domain d) (:constants k) (:predicates (p ?x)))".into(), format!("(define (problem q) (:domain d) (:objects o) (:init) (:goal (and {t}{last})))"))
    }),
    ("conditions", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| ["(p ?y) ", "(not (p ?y)) "][i % 2]).collect::<String>();
        let last = ["(p ?y)", "(forall (?z) (zz ?y))", "(not (p ?y ?y))", "(or (p zz))"][e];
        (format!("(define (domain d) (:predicates (p ?x)) (:task t :parameters ()) (:method m :parameters (?y) :task (t) :precondition (and {t}{last}) :subtasks ()))"), String::new())
    }),
    ("subtasks of a problem", 70_000, 4, |n, e| {
        let t = (0..n).map(|i| format!("(i{} (a o)) ", i)).collect::<String>();
        let last = ["(a o)", "(zz o)", "(j (a o o))", "(j (a zz))"][e];
        ("(define (domain d) (:action a :parameters (?x)))".into(), format!("(define (problem q) (:domain d) (:objects o) (:htn :subtasks (and {t}{last})) (:init))"))
    }),
    ("parameters of a problem", 70_000, 3, |n, e| {
        let t = (0..n).map(|i| format!("?x{} - {} ", i, if e == 2 && i == n - 1 { "zz" } else { "t" })).collect::<String>();
        let used = if e == 1 { n } else { n - 1 };
        ("(define (domain d) (:types t) (:action a :parameters (?x - t)))".into(), format!("(define (problem q) (:domain d) (:htn :parameters ({t}) :subtasks (a ?x{used})) (:init))"))
    }),
    ("functions", 70_000, 2, |n, e| {
        let t = (0..n).map(|i| format!("(f{} ?x - {}) ", i, if e == 1 && i == n - 1 { "zz" } else { "t" })).collect::<String>();
        (format!("(define (domain d) (:types t) (:functions {t}))"), String::new())
    }),
    ("quantified variables", 70_000, 2, |n, e| {
        let t = (0..n).map(|i| format!("?x{} - t ", i)).collect::<String>();
        (format!("(define (domain d) (:types t) (:predicates (p ?x - t)) (:action a :parameters () :effect (forall ({t}) ({} ?x{}))))", ["p", "zz"][e], n - 1), String::new())
    }),
    ("chain of decompositions", 1025, 6, |n, e| {
        let ts = (0..n).map(|i| format!("(:task t{} :parameters ()) ", i)).collect::<String>();
        let ms = (1..n).map(|i| format!("(:method m{} :parameters () :task (t{}) :ordered-subtasks (and (t{}))) ", i, i - 1, i)).collect::<String>();
        let k = n - 1;
        let last = [format!("(:method m :parameters () :task (t{k}) :subtasks (a))"), String::new(), format!("(:method m :parameters () :task (t{k}) :subtasks ())"), format!("(:method m :parameters () :task (t{k}) :subtasks (t0))"), format!("(:method m :parameters () :task (t{k}) :ordered-subtasks (and (a) (t0)))"), format!("(:method m :parameters () :task (t{k}) :ordered-subtasks (and (t0) (a)))")][e].clone();
        (format!("(define (domain d) {ts} (:action a :parameters ()) {ms}{last})"), String::new())
    }),
    ("sections", 70_000, 2, |n, e| {
        let t = (0..n).map(|i| format!("(:predicates (x{} ?a)) (:types t{} - t) (:constants k{} - t{}) ", i, i, i, i)).collect::<String>();
        (format!("(define (domain d) {t} (:action a :parameters () :effect (x{} k0)))", if e == 1 { n } else { n - 1 }), String::new())
    }),
];
pub const LONG_SIZES: &[usize] = &[1, 64, 129, 257, 513, 1001, 1025, 2049, 4097, 10_001, 20_001, 33_000, 66_000];

pub fn pick_long(c: &mut Chooser) -> Option<impl FnOnce() -> Case> {
    pick_long_if(c, &|_, _| true)
}
pub fn pick_long_if(c: &mut Chooser, wanted: &dyn Fn(usize, usize) -> bool) -> Option<impl FnOnce() -> Case> {
    let (_, top, ends, f) = *c.of(LONG);
    let n = *c.of(LONG_SIZES);
    let e = c.pick(ends);
    if n > top || !wanted(n, e) {
        return None;
    }
    Some(move || {
        let (d, p) = f(n, e);
        Case { d: lay(&words(&d)), p: if p.is_empty() { None } else { Some(lay(&words(&p))) } }
    })
}
