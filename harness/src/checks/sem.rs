//! C06-C12: the semantic rules.
use super::text::{pick_edits, split};
use crate::docs::*;
use crate::engine::*;
use crate::oracle::{self, Level, Verdict, DUP, UNDEF, USE};

type Judge<'a> = &'a dyn Fn(&Case) -> Verdict;

fn c06(c: &Case) -> Verdict {
    oracle::defects(&UNDEF, Level::Symbol, &c.d, c.p.as_deref())
}
fn c07(c: &Case) -> Verdict {
    oracle::defects(&DUP, Level::Fact, &c.d, c.p.as_deref())
}
fn c08(c: &Case) -> Verdict {
    oracle::defects(&USE, Level::Symbol, &c.d, None)
}
fn c09(c: &Case) -> Verdict {
    oracle::defects(&["CyclicType"], Level::Symbol, &c.d, None)
}
fn c10(c: &Case) -> Verdict {
    oracle::defects(&["CyclicOrder"], Level::Fact, &c.d, c.p.as_deref())
}
fn c11(c: &Case) -> Verdict {
    // the domain must be valid, else the problem is not looked at
    if c.p.is_none() || !matches!(oracle::expect(&c.d, None), Some(e) if matches!(e.exp, oracle::Exp::Ok) && !e.ambiguous) {
        return Ok(None);
    }
    oracle::decides(&c.d, c.p.as_deref(), Level::Symbol)
}
fn c12(c: &Case) -> Verdict {
    oracle::truthful(&c.d, c.p.as_deref())
}

/// the documents of all the semantic rules: each of them is judged by its own rule on all of them
pub fn union(ctx: &mut Ctx, judge: Judge) {
    scopes(ctx, judge);
    collisions(ctx, judge);
    arities(ctx, 0..NPLACES, judge);
    typings(ctx, 0..NPLACES, judge);
    among(ctx, judge);
    nested(ctx, judge);
    type_graphs(ctx, judge);
    ordering_graphs(ctx, judge);
    typed_objects(ctx, judge);
    sequences(ctx, judge);
    special_names(ctx, judge);
    shapes(ctx, judge);
    space(ctx, "long lists of every kind", 0, pick_long, judge);
    pair_edits(ctx, 0, 1, "both", judge);
    for k in 1..pairs().len() {
        pair_edits(ctx, k, 2, "both", judge);
    }
    small_domain_edits(ctx, 2, judge);
    crate::feat::templates(ctx, ctx.bound(&[("world", 2), ("formulas", 2), ("networks", 2), ("lists", 2)], &[("world", 3), ("formulas", 3), ("networks", 3), ("lists", 3)]), judge);
    if ctx.thorough() {
        pair_edits(ctx, 0, 2, "problem", judge);
    }
}

/// `n` edits of the names, arguments, types and groups of the pair's domain, problem or both
fn pair_edits(ctx: &mut Ctx, k: usize, n: usize, part: &str, judge: Judge) {
    let (d, p) = pairs().swap_remove(k);
    let mut w = d.clone();
    w.push("\u{1}".into());
    w.extend(p.clone());
    let mut pool = id_pool(&w);
    pool.push("zz".into());
    let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
    let at = d.len();
    let es: Vec<Edit> = name_edits(&w, &pool)
        .into_iter()
        .filter(|e| {
            let pos = match e {
                Edit::Del(a, _) => *a,
                Edit::Rep(a, _) | Edit::Ins(a, _) => *a,
            };
            match part {
                "domain" => pos <= at,
                "problem" => pos > at,
                _ => true,
            }
        })
        .collect();
    let drop_problem = part == "domain";
    space(
        ctx,
        &format!("pair {}, any {} edits of names and groups of {}", k, n, part),
        0,
        |c| {
            let e = pick_edits(c, &es, n);
            let w = &w;
            Some(move || {
                let mut case = split(&apply(w, &e));
                if drop_problem {
                    case.p = None;
                }
                case
            })
        },
        judge,
    );
}

fn small_domain_edits(ctx: &mut Ctx, n: usize, judge: Judge) {
    for (i, d) in D_SMALL.iter().enumerate() {
        let w = words(d);
        let mut pool = id_pool(&w);
        pool.push("zz".into());
        let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
        let es = name_edits(&w, &pool);
        space(
            ctx,
            &format!("small domain {}, any {} edits of names and groups", i, n),
            0,
            |c| {
                let e = pick_edits(c, &es, n);
                let w = &w;
                Some(move || Case::dom(lay(&apply(w, &e))))
            },
            judge,
        );
    }
}

// ---------------------------------------------------------------- scopes (C06)

/// every kind of reference, to every kind of declaration, far and near
fn scopes(ctx: &mut Ctx, judge: Judge) {
    // a declared name of every namespace, referenced from every place
    let names = ["ty", "par", "kon", "prd", "fun", "tsk", "met", "act", "obj", "idn", "dom", "oth", "htp", "qua", "undeclared", "KON", "kon-", "ko", "konn"];
    space(
        ctx,
        "every name in every place",
        0,
        |c| {
            let place = c.pick(24);
            let x = c.of(&names).to_string();
            let q = if c.flag() { "?" } else { "" };
            Some(move || {
                let at = |i: usize, s: &str| if i == place { format!("{}{}", q, x) } else { s.to_string() };
                let d = format!(
                    "(define (domain dom) (:types ty - {} ot) (:constants kon kty - {}) (:predicates (prd ?a) (pr2 ?a - {})) (:functions (fun ?a - {}))
                     (:task tsk :parameters (?par)) (:task ts2 :parameters (?z - {}))
                     (:method met :parameters (?par ?pty - {}) :task ({} {}) :precondition (and (prd ?par) ({} {}) (forall (?qua) ({} ?qua))) :subtasks (and (idn ({} {})) (id2 (tsk {}))) :ordering (and (< idn id2)))
                     (:action act :parameters (?par ?oth - {}) :precondition (or ({} ?par) (not (prd {}))) :effect (and (prd {}) (exists (?qua) ({} ?qua)))))",
                    at(0, "ot"), at(1, "ty"), at(2, "ty"), at(3, "ty"), at(4, "ty"), at(5, "ty"), at(6, "tsk"), at(7, "?par"), at(8, "prd"), at(9, "?par"), at(10, "prd"),
                    at(11, "tsk"), at(12, "?par"), at(13, "kon"), at(14, "ty"), at(15, "prd"), at(16, "kon"), at(17, "?par"), at(18, "prd"),
                );
                let p = format!(
                    "(define (problem pro) (:domain dom) (:objects obj oty - {}) (:htn :parameters (?htp) :subtasks (and (idn ({} {})))) (:init (prd {}) (prd kon)) (:goal (and (prd obj) (not ({} kon)))))",
                    at(19, "ty"), at(20, "tsk"), at(21, "obj"), at(22, "kon"), at(23, "prd"),
                );
                Case { d: lay(&words(&d)), p: Some(lay(&words(&p))) }
            })
        },
        judge,
    );
    // many declarations, one reference to one of them (or to none)
    let sizes: &[usize] = &[1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 255, 256, 257, 300];
    space(
        ctx,
        "many declarations, a reference to each or to none",
        0,
        |c| {
            let n = *c.of(sizes);
            let kind = c.pick(8);
            let probes = [0, 1, n / 2, n.saturating_sub(2), n - 1, n];
            let i = *c.of(&probes);
            let all = |f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i) + " ").collect::<String>();
            let (d, p) = match kind {
                0 => (format!("(define (domain d) (:predicates {}) (:action a :parameters () :effect (x{})))", all(&|i| format!("(x{})", i)), i), None),
                1 => (format!("(define (domain d) (:predicates (p ?y)) (:action a :parameters ({}) :effect (p ?x{})))", all(&|i| format!("?x{}", i)), i), None),
                2 => (format!("(define (domain d) (:constants {}) (:predicates (p ?y)) (:action a :parameters () :effect (p x{})))", all(&|i| format!("x{}", i)), i), None),
                3 => (format!("(define (domain d) (:types {}) (:predicates (p ?y - x{})))", all(&|i| format!("x{}", i)), i), None),
                4 => (format!("(define (domain d) {} (:method m :parameters () :task (x{}) :subtasks ()))", all(&|i| format!("(:task x{} :parameters ())", i)), i), None),
                5 => (format!("(define (domain d) (:task t :parameters ()) {} (:method m :parameters () :task (t) :subtasks (and (t) (x{}))))", all(&|i| format!("(:action x{} :parameters ())", i)), i), None),
                6 => ("(define (domain d) (:predicates (p ?y)))".into(), Some(format!("(define (problem p) (:domain d) (:objects {}) (:init (p x{})))", all(&|i| format!("x{}", i)), i))),
                _ => ("(define (domain d) (:predicates (p ?y)))".into(), Some(format!("(define (problem p) (:domain d) (:objects {}) (:init {} (p x{}) (p x0)))", all(&|i| format!("x{}", i)), all(&|i| format!("(p x{})", i)), i))),
            };
            Some(move || Case { d: lay(&words(&d)), p: p.map(|p| lay(&words(&p))) })
        },
        judge,
    );
    // one bad reference among many good ones, at every position and depth
    space(
        ctx,
        "one undefined name among many uses",
        0,
        |c| {
            let n = *c.of(&[1usize, 2, 3, 4, 5, 6, 12]);
            let bad = c.pick(n);
            let nest = c.pick(6);
            let what = c.pick(4);
            let place = c.pick(4);
            let atoms: String = (0..n)
                .map(|i| {
                    let a = match (i == bad, what) {
                        (true, 0) => "(zz k)",
                        (true, 1) => "(p zz)",
                        (true, 2) => "(p2 k zz)",
                        (true, _) => "(p2 zz k)",
                        _ => "(p2 k k)",
                    };
                    match nest {
                        0 => a.to_string(),
                        1 => format!("(not {})", a),
                        2 => format!("(or (p k) {})", a),
                        3 => format!("(oneof {} (p k))", a),
                        4 => format!("(and (and) (or (not {})))", a),
                        _ => format!("(forall (?g) (not {}))", a),
                    }
                })
                .collect();
            Some(move || {
                let decl = "(:constants k) (:predicates (p ?x) (p2 ?x ?y)) (:task t :parameters ())";
                let f = format!("(and {})", atoms);
                let (d, p) = match place {
                    0 => (format!("(define (domain d) {} (:action a :parameters () :precondition {}))", decl, f), None),
                    1 => (format!("(define (domain d) {} (:action a :parameters () :effect {}))", decl, f), None),
                    2 => (format!("(define (domain d) {} (:method m :parameters () :task (t) :precondition {}))", decl, f), None),
                    _ => (format!("(define (domain d) {})", decl), Some(format!("(define (problem p) (:domain d) (:goal {}))", f))),
                };
                Case { d: lay(&words(&d)), p: p.map(|p| lay(&words(&p))) }
            })
        },
        judge,
    );
}

pub fn run_c06(ctx: &mut Ctx) {
    ctx.layouts = true;
    union(ctx, &c06);
}

// ---------------------------------------------------------------- duplicates (C07)

/// builds a document that declares the names in this order, in one of the kinds and spreads
fn declaring(kind: usize, spread: usize, names: &[String]) -> Option<Case> {
    let chunks: Vec<String> = match spread {
        0 => vec![names.join(" ")],
        1 => names.to_vec(),
        _ => {
            let k = names.len() / 2;
            vec![names[..k].join(" "), names[k..].join(" ")]
        }
    };
    let each = |f: &dyn Fn(usize, &String) -> String| names.iter().enumerate().map(|(i, n)| f(i, n)).collect::<String>();
    let sect = |kw: &str, wrap: &dyn Fn(&str) -> String| chunks.iter().map(|c| format!("({} {})", kw, c.split(' ').filter(|s| !s.is_empty()).map(|s| wrap(s) + " ").collect::<String>())).collect::<String>();
    let d = match kind {
        0 => format!("(define (domain d) {})", sect(":constants", &|s| s.to_string())),
        1 => format!("(define (domain d) {})", sect(":predicates", &|s| format!("({})", s))),
        2 if spread == 0 => format!("(define (domain d) {})", each(&|_, n| format!("(:task {} :parameters ())", n))),
        2 if spread == 1 => format!("(define (domain d) (:predicates (q)) {})", each(&|i, n| format!("(:task {} :parameters ()) (:action b{} :parameters () :effect (q))", n, i))),
        3 if spread == 0 => format!("(define (domain d) {})", each(&|_, n| format!("(:action {} :parameters ())", n))),
        3 if spread == 1 => format!("(define (domain d) {})", each(&|i, n| format!("(:action {} :parameters (?x)) (:task b{} :parameters ())", n, i))),
        4 if spread == 0 => format!("(define (domain d) (:task t :parameters ()) {})", each(&|_, n| format!("(:method {} :parameters () :task (t) :subtasks ())", n))),
        4 if spread == 1 => format!("(define (domain d) (:task t :parameters ()) {} {})", each(&|i, _| format!("(:task u{} :parameters ())", i)), each(&|i, n| format!("(:method {} :parameters () :task (u{}) :precondition ())", n, i))),
        5 if spread == 0 => format!("(define (domain d) (:action a :parameters ({})))", names.iter().map(|n| format!("?{} ", n)).collect::<String>()),
        5 if spread == 1 => format!("(define (domain d) (:types t) (:action b :parameters (?v0 ?v1)) (:action a :parameters ({})))", each(&|i, n| format!("?{} {}", n, if i % 2 == 0 { "- t " } else { " " }))),
        6 if spread == 0 => format!("(define (domain d) (:task t :parameters ()) (:method a :parameters ({}) :task (t) :subtasks ()))", names.iter().map(|n| format!("?{} ", n)).collect::<String>()),
        6 if spread == 1 => format!("(define (domain d) (:types t) (:task t :parameters ()) (:method b :parameters (?v0) :task (t) :subtasks ()) (:method a :parameters ({}) :task (t) :subtasks ()))", each(&|_, n| format!("?{} - t ", n))),
        7 => {
            let p = format!("(define (problem p) (:domain d) {})", sect(":objects", &|s| s.to_string()));
            return Some(Case { d: lay(&words("(define (domain d) (:types t))")), p: Some(lay(&words(&p))) });
        }
        // the same name in different namespaces, and once per scope, is no duplicate
        8 if spread == 0 => format!("(define (domain d) {})", each(&|i, n| format!("(:types {0}) (:constants k{1}{0}) (:predicates ({0}p{1} ?{0})) (:action {0}a{1} :parameters (?{0}))", n, i))),
        8 if spread == 1 => format!("(define (domain d) (:types {0}) (:constants v0) (:predicates (v0)) (:task tv0 :parameters (?v0)) (:method v0 :parameters (?v0) :task (tv0 ?v0) :subtasks (and (v0 (tv0 ?v0)))) (:action v0 :parameters (?v0)))", names.join(" ")),
        _ => return None,
    };
    Some(Case::dom(lay(&words(&d))))
}

fn collisions(ctx: &mut Ctx, judge: Judge) {
    let n = ctx.bound(5, 7);
    space(
        ctx,
        "all collision patterns",
        0,
        |c| {
            let kind = c.pick(9);
            let spread = c.pick(3);
            let k = c.pick(n) + 1;
            // restricted growth strings: every partition of the positions into equal names
            let mut used = 0;
            let mut names = vec![];
            for _ in 0..k {
                let x = c.pick(used + 1);
                if x == used {
                    used += 1;
                }
                names.push(format!("v{}", x));
            }
            declaring(kind, spread, &names)?;
            Some(move || declaring(kind, spread, &names).unwrap())
        },
        judge,
    );
    // names that are easily taken for each other
    let similar = ["v", "V", "v1", "v-1", "v_1", "v11", "vv", "v1-", "w", "W1", "v10", "v01", "typing", "types", "object", "a", "aa"];
    space(
        ctx,
        "similar names",
        0,
        |c| {
            let kind = c.pick(9);
            let names: Vec<String> = (0..3).map(|_| c.of(&similar).to_string()).collect();
            declaring(kind, 0, &names)?;
            Some(move || declaring(kind, 0, &names).unwrap())
        },
        judge,
    );
    // far apart
    let sizes: &[usize] = ctx.bound(&[8, 9, 16, 17, 32, 33, 65, 129, 257, 300], &[8, 9, 16, 17, 24, 32, 33, 48, 64, 65, 100, 128, 129, 200, 256, 257, 300, 513, 1025]);
    space(
        ctx,
        "one collision among many names",
        0,
        |c| {
            let kind = c.pick(8);
            let n = *c.of(sizes);
            let probes: Vec<usize> = if n <= 17 { (0..n).collect() } else { vec![0, 1, 7, 8, n / 2, n - 2, n - 1] };
            let i = *c.of(&probes);
            let j = *c.of(&probes);
            if i > j {
                return None;
            }
            Some(move || {
                let mut names: Vec<String> = (0..n).map(|i| format!("v{}", i)).collect();
                names[j] = names[i].clone();
                declaring(kind, 0, &names).unwrap()
            })
        },
        judge,
    );
    // requirements: every sequence
    let reqs: Vec<String> = crate::model::lex::REQS.iter().map(|r| format!(":{}", r.0)).collect();
    let n = ctx.bound(4, 6);
    space(
        ctx,
        "all sequences of requirements",
        0,
        |c| {
            let k = c.pick(n + 1);
            let cut = c.pick(k + 1);
            let mut s = String::from("(define (domain d) (:requirements ");
            for i in 0..k {
                if i == cut {
                    s += ") (:requirements ";
                }
                s += c.of(&reqs);
                s += " ";
            }
            Some(move || Case::dom(lay(&words(&(s + "))")))))
        },
        judge,
    );
    // all of them, one once more (or none) at any place, in any rotation, in one or two sections
    space(
        ctx,
        "all requirements, and one once more",
        0,
        |c| {
            let n = reqs.len() - c.pick(3);
            let turn = c.pick(reqs.len());
            let more = c.pick(n + 1);
            let at = c.pick(n + 1);
            let cut = c.pick(n + 1);
            let mut seq: Vec<String> = (0..n).map(|i| reqs[(i + turn) % reqs.len()].clone()).collect();
            if more < n {
                let r = seq[more].clone();
                seq.insert(at, r);
            } else if at > 0 {
                return None;
            }
            seq.insert(cut, ") (:requirements".into());
            Some(move || Case::dom(lay(&words(&format!("(define (domain d) (:requirements {}))", seq.join(" "))))))
        },
        judge,
    );
}

pub fn run_c07(ctx: &mut Ctx) {
    ctx.layouts = true;
    union(ctx, &c07);
}

// ---------------------------------------------------------------- arity and types (C08, C11)

const NPLACES: usize = 14;
/// a use with arguments `args` (names) of a symbol with parameters `decl` (typed list text)
fn using(place: usize, types: &str, scope: &str, decl: &str, args: &str) -> Case {
    let two = |d: String, p: String| Case { d: lay(&words(&d)), p: Some(lay(&words(&p))) };
    let one = |d: String| Case::dom(lay(&words(&d)));
    // "scope" declares the arguments: as parameters, constants or objects
    match place {
        0 => one(format!("(define (domain d) {types} (:predicates (y {decl})) (:action a :parameters ({scope}) :precondition (y {args})))")),
        1 => one(format!("(define (domain d) {types} (:predicates (y {decl})) (:action a :parameters ({scope}) :effect (and (not (y {args})))))")),
        2 => one(format!("(define (domain d) {types} (:predicates (y {decl})) (:task u :parameters ()) (:method m :parameters ({scope}) :task (u) :precondition (or (y {args}))))")),
        3 => one(format!("(define (domain d) {types} (:task y :parameters ({decl})) (:method m :parameters ({scope}) :task (y {args}) :subtasks ()))")),
        4 => one(format!("(define (domain d) {types} (:task u :parameters ()) (:task y :parameters ({decl})) (:method m :parameters ({scope}) :task (u) :subtasks (and (u) (i (y {args})))))")),
        5 => one(format!("(define (domain d) {types} (:task u :parameters ()) (:action y :parameters ({decl})) (:method m :parameters ({scope}) :task (u) :ordered-subtasks (and (y {args}) (u))))")),
        6 => one(format!("(define (domain d) {types} (:constants {scope}) (:predicates (y {decl})) (:action a :parameters () :precondition (y {args})))")),
        7 => one(format!("(define (domain d) {types} (:constants {scope}) (:task u :parameters ()) (:action y :parameters ({decl})) (:method m :parameters () :task (u) :subtasks (y {args})))")),
        8 => two(format!("(define (domain d) {types} (:predicates (y {decl})))"), format!("(define (problem p) (:domain d) (:objects {scope}) (:init (y {args})))")),
        9 => two(format!("(define (domain d) {types} (:predicates (y {decl})))"), format!("(define (problem p) (:domain d) (:objects {scope}) (:goal (and (or (not (y {args}))))))")),
        10 => two(format!("(define (domain d) {types} (:constants {scope}) (:predicates (y {decl})))"), format!("(define (problem p) (:domain d) (:init (y {args})) (:goal (y {args})))")),
        11 => two(format!("(define (domain d) {types} (:task y :parameters ({decl})))"), format!("(define (problem p) (:domain d) (:objects {scope}) (:htn :subtasks (and (i (y {args})))))")),
        12 => two(format!("(define (domain d) {types} (:action y :parameters ({decl})))"), format!("(define (problem p) (:domain d) (:htn :parameters ({scope}) :ordered-subtasks (and (y {args}))))")),
        _ => two(format!("(define (domain d) {types} (:constants {scope}) (:action y :parameters ({decl})))"), format!("(define (problem p) (:domain d) (:htn :tasks (y {args})))")),
    }
}
fn typed(name: &str, t: usize, n: usize) -> String {
    if t == n {
        format!("{} ", name)
    } else {
        format!("{} - t{} ", name, t)
    }
}

fn arities(ctx: &mut Ctx, places: std::ops::Range<usize>, judge: Judge) {
    let n = ctx.bound(9, 14);
    space(
        ctx,
        "all declared and given numbers of arguments",
        0,
        |c| {
            let place = places.start + c.pick(places.len());
            let decl = c.pick(n + 1);
            let given = c.pick(n + 1);
            Some(move || {
                let v = |k: usize, p: &str| (0..k).map(|i| format!("?{}{} ", p, i)).collect::<String>();
                using(place, "", &v(given.max(decl), "x"), &v(decl, "z"), &v(given, "x"))
            })
        },
        judge,
    );
    space(
        ctx,
        "big and off by one numbers of arguments",
        0,
        |c| {
            let place = places.start + c.pick(places.len());
            let decl = *c.of(&[15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300]);
            let given = decl + c.pick(4) - 2;
            Some(move || {
                let v = |k: usize, p: &str| (0..k).map(|i| format!("?{}{} ", p, i)).collect::<String>();
                using(place, "", &v(given.max(decl), "x"), &v(decl, "z"), &v(given, "x"))
            })
        },
        judge,
    );
}

fn typings(ctx: &mut Ctx, places: std::ops::Range<usize>, judge: Judge) {
    // all type graphs over n types (acyclic: an edge goes from a smaller to a bigger position in
    // some order of declaration), all argument and expected types, all places
    let n = ctx.bound(3, 4);
    space(
        ctx,
        "all type graphs, argument types and expected types",
        0,
        |c| {
            let place = places.start + c.pick(places.len());
            let mut edges = vec![];
            for a in 0..n {
                for b in a + 1..n {
                    if c.flag() {
                        edges.push((a, b));
                    }
                }
            }
            let reversed = c.flag();
            let (arg, exp) = (c.pick(n + 1), c.pick(n + 1));
            Some(move || {
                let mut lines: Vec<String> = edges.iter().map(|(a, b)| format!("t{} - t{} ", a, b)).collect();
                let alone: Vec<String> = (0..n).filter(|t| !edges.iter().any(|(a, _)| a == t)).map(|t| format!("t{} ", t)).collect();
                if reversed {
                    lines.reverse();
                }
                let types = format!("(:types {} {})", lines.concat(), alone.concat());
                using(place, &types, &typed("?x", arg, n), &typed("?z", exp, n), "?x")
            })
        },
        judge,
    );
    // several arguments: which one is wrong
    let k = ctx.bound(3, 4);
    space(
        ctx,
        "several arguments, any of them of any type",
        0,
        |c| {
            let place = places.start + c.pick(places.len());
            let n = 3; // t0 - t1, t2
            let decl: Vec<usize> = (0..k).map(|i| [1, 0, n, 2][i]).collect();
            let args: Vec<usize> = (0..k).map(|_| c.pick(n + 1)).collect();
            let same = c.flag();
            Some(move || {
                let types = "(:types t0 - t1 t2)";
                let scope: String = args.iter().enumerate().map(|(i, t)| typed(&format!("?x{}", i), *t, n)).collect();
                let d: String = decl.iter().enumerate().map(|(i, t)| typed(&format!("?{}{}", if same { "x" } else { "z" }, i), *t, n)).collect();
                let a: String = (0..k).map(|i| format!("?x{} ", i)).collect();
                // untyped names before a typed one would take its type: order the scope by name, typed first
                let mut parts: Vec<(bool, String)> = args.iter().enumerate().map(|(i, t)| (*t == n, typed(&format!("?x{}", i), *t, n))).collect();
                parts.sort_by_key(|p| p.0);
                let scope2: String = parts.into_iter().map(|p| p.1).collect();
                let _ = scope;
                using(place, types, &scope2, &d, &a)
            })
        },
        judge,
    );
    // the same variable at several positions, and constants mixed with parameters
    space(
        ctx,
        "argument lists over a few typed names",
        0,
        |c| {
            let place = [0usize, 3, 5, 2][c.pick(4)];
            let args: Vec<&str> = (0..3).map(|_| *c.of(&["?a", "?b", "?u", "k", "l"])).collect();
            Some(move || {
                let types = "(:types s - m m - o) (:constants k - s l)";
                using(place, types, "?a - s ?b - o ?u", "?z0 - m ?z1 - o ?z2", &args.join(" "))
            })
        },
        judge,
    );
    // long chains of subtypes
    let n = ctx.bound(24, 48);
    space(
        ctx,
        "all distances in a chain of types",
        0,
        |c| {
            let place = places.start + c.pick(places.len());
            let (a, b) = (c.pick(n), c.pick(n));
            let order = c.pick(3);
            Some(move || {
                let mut lines: Vec<String> = (0..n - 1).map(|i| format!("t{} - t{} ", i, i + 1)).collect();
                match order {
                    0 => {}
                    1 => lines.reverse(),
                    _ => lines.sort_by_key(|l| l.len() * 7 + l.as_bytes()[1] as usize * 13 % 5),
                }
                using(place, &format!("(:types {})", lines.concat()), &format!("?x - t{}", a), &format!("?z - t{}", b), "?x")
            })
        },
        judge,
    );
}

/// positions and repetitions of a badly typed or badly sized use among good ones
fn among(ctx: &mut Ctx, judge: Judge) {
    space(
        ctx,
        "one bad use among good ones",
        0,
        |c| {
            let n = *c.of(&[1usize, 2, 3, 5, 9]);
            let bad = c.pick(n);
            let what = c.pick(4);
            let place = c.pick(6);
            let nest = c.pick(5);
            let uses: Vec<String> = (0..n)
                .map(|i| match (i == bad, what) {
                    (true, 0) => "y ?a".to_string(),
                    (true, 1) => "y ?a ?b ?b".into(),
                    (true, 2) => "y ?b ?a".into(),
                    (true, _) => "y ?u ?b".into(),
                    _ => "y ?a ?b".into(),
                })
                .collect();
            Some(move || {
                let head = "(:types s - o) (:task u :parameters ()) ";
                let params = "(?a - s ?b - o ?u)";
                let f: String = uses
                    .iter()
                    .map(|u| match nest {
                        0 => format!("({})", u),
                        1 => format!("(not ({}))", u),
                        2 => format!("(or (and ({})))", u),
                        3 => format!("(oneof ({}) (not (not ({}))))", uses[(bad + 1) % n], u),
                        _ => format!("(probabilistic 0.5 ({}))", u),
                    })
                    .collect();
                let subs: String = uses.iter().enumerate().map(|(i, u)| if nest % 2 == 0 { format!("({})", u) } else { format!("(i{} ({}))", i, u) }).collect();
                let pred = "(:predicates (y ?p - s ?q - o))";
                Case::dom(lay(&words(&match place {
                    0 => format!("(define (domain d) {head} {pred} (:action a :parameters {params} :precondition (and {f})))"),
                    1 => format!("(define (domain d) {head} {pred} (:action a0 :parameters ()) (:action a :parameters {params} :precondition () :effect (and {f})))"),
                    2 => format!("(define (domain d) {head} {pred} (:method m0 :parameters () :task (u) :subtasks ()) (:method m :parameters {params} :task (u) :precondition (and {f}) :subtasks (u)))"),
                    3 => format!("(define (domain d) {head} (:action y :parameters (?p - s ?q - o)) (:method m :parameters {params} :task (u) :subtasks (and {subs})))"),
                    4 => format!("(define (domain d) {head} (:task y :parameters (?p - s ?q - o)) (:method m :parameters {params} :task (u) :ordered-subtasks (and {subs})))"),
                    _ => format!("(define (domain d) {head} (:task y :parameters (?p - s ?q - o)) {})", uses.iter().enumerate().map(|(i, u)| format!("(:method m{i} :parameters {params} :task ({u}) :subtasks ())")).collect::<String>()),
                })))
            })
        },
        judge,
    );
}

/// one use below every nest of connectives
fn nested(ctx: &mut Ctx, judge: Judge) {
    const WRAPS: &[&str] = &[
        "(not @)", "(and @)", "(and (q) @)", "(and @ (q))", "(or @ (q))", "(or (q) @)", "(oneof (q) @)", "(oneof @)", "(probabilistic 0.5 @)", "(probabilistic 0.5 (q) 0.5 @)", "(forall (?g - s) @)", "(exists (?g) @)", "(and () @ ())", "(and (not (q)) (and @ @))", "(or (and (q) (q)) (= x x) @)",
    ];
    const LEAVES: &[&str] = &["(y A)", "(y B)", "(y Z)", "(y)", "(y A A)", "(zz A)", "(and (y A) (y Z))", "(not (y B))", "(= A Z)"];
    let depth = ctx.bound(3, 4);
    let few = ctx.bound(4, 6);
    space(
        ctx,
        "one use below every nest of connectives",
        0,
        |c| {
            let place = c.pick(5);
            let leaf = *c.of(LEAVES);
            let n = c.pick(few + 1);
            // the deeper ones with the first few connectives only
            let wraps: Vec<&str> = (0..n).map(|_| *c.of(if n <= depth { WRAPS } else { &WRAPS[..5] })).collect();
            if n == few && leaf.len() > 5 {
                return None;
            }
            Some(move || {
                let mut f = leaf.to_string();
                for w in wraps {
                    f = w.replace('@', &f);
                }
                let (a, b) = if place == 4 { ("oa", "ob") } else { ("?a", "?b") };
                let f = f.replace('A', a).replace('B', b).replace('Z', if place == 4 { "oz" } else { "?z" });
                let head = "(:types s - o) (:predicates (q) (y ?p - s)) (:task u :parameters ())";
                let params = "(?a - s ?b - o)";
                match place {
                    0 => Case::dom(lay(&words(&format!("(define (domain d) {head} (:action n :parameters {params} :precondition {f}))")))),
                    1 => Case::dom(lay(&words(&format!("(define (domain d) {head} (:action n :parameters {params} :effect {f}))")))),
                    2 => Case::dom(lay(&words(&format!("(define (domain d) {head} (:method n :parameters {params} :task (u) :precondition {f} :subtasks ()))")))),
                    3 => Case::dom(lay(&words(&format!("(define (domain d) {head} (:action n0 :parameters {params} :precondition (q) :effect (y ?a)) (:action n :parameters {params} :precondition (y ?a) :effect (and (y ?a) {f})))")))),
                    _ => Case { d: lay(&words(&format!("(define (domain d) {head})"))), p: Some(lay(&words(&format!("(define (problem p) (:domain d) (:objects oa - s ob - o) (:init (q)) (:goal {f}))")))) },
                }
            })
        },
        judge,
    );
}

pub fn run_c08(ctx: &mut Ctx) {
    ctx.layouts = true;
    union(ctx, &c08);
}

// ---------------------------------------------------------------- type cycles (C09)

fn type_graphs(ctx: &mut Ctx, judge: Judge) {
    let n = ctx.bound(3, 4);
    for n in 1..=n {
        space(
            ctx,
            &format!("all type graphs over {} types", n),
            0,
            |c| {
                let mut edges = vec![];
                for a in 0..n {
                    for b in 0..n {
                        if c.flag() {
                            edges.push((a, b));
                        }
                    }
                }
                let form = c.pick(4);
                Some(move || {
                    let mut e: Vec<String> = edges.iter().map(|(a, b)| format!("t{} - t{} ", a, b)).collect();
                    let sections = match form {
                        0 => format!("(:types {})", e.concat()),
                        1 => {
                            e.reverse();
                            format!("(:types {} x)", e.concat())
                        }
                        2 => e.iter().map(|s| format!("(:types {})", s)).collect::<String>(),
                        _ => {
                            // grouped by supertype: t0 t1 - t2
                            let mut s = String::from("(:types object ");
                            for b in 0..n {
                                let kids: String = edges.iter().filter(|x| x.1 == b).map(|x| format!("t{} ", x.0)).collect();
                                if !kids.is_empty() {
                                    s += &format!("{} - t{} ", kids, b);
                                }
                            }
                            s + ")"
                        }
                    };
                    Case::dom(lay(&words(&format!("(define (domain d) (:predicates (p)) {})", sections))))
                })
            },
            judge,
        );
    }
    // all sequences of declarations (order and repetition matter to incremental detectors)
    let (k, len) = ctx.bound((3, 4), (4, 5));
    space(
        ctx,
        "all sequences of type declarations",
        0,
        |c| {
            let l = c.pick(len + 1);
            let s: String = (0..l)
                .map(|_| {
                    let a = c.pick(k);
                    let b = c.pick(k + 1);
                    if b == k {
                        format!("t{} - object ", a)
                    } else {
                        format!("t{} - t{} ", a, b)
                    }
                })
                .collect();
            Some(move || Case::dom(lay(&words(&format!("(define (domain d) (:types {}))", s)))))
        },
        judge,
    );
    // cycles of any length, hanging off chains, among other components
    let max = ctx.bound(20, 40);
    space(
        ctx,
        "cycles and chains of any length",
        0,
        |c| {
            let cyc = c.pick(max + 1);
            let tail = c.pick(max + 1);
            let side = c.pick(3);
            let rev = c.flag();
            Some(move || {
                let mut e = vec![];
                for i in 0..tail {
                    e.push(format!("a{} - a{} ", i, i + 1));
                }
                for i in 0..cyc {
                    e.push(format!("b{} - b{} ", i, (i + 1) % cyc));
                }
                if cyc > 0 && tail > 0 && side > 0 {
                    e.push(if side == 1 { format!("a{} - b0 ", tail) } else { format!("b{} - a0 ", cyc - 1) });
                }
                // a diamond is no cycle
                e.push("w - x w - y x - z y - z ".into());
                if rev {
                    e.reverse();
                }
                Case::dom(lay(&words(&format!("(define (domain d) (:types {}))", e.concat()))))
            })
        },
        judge,
    );
}
pub fn run_c09(ctx: &mut Ctx) {
    ctx.layouts = true;
    union(ctx, &c09);
}

// ---------------------------------------------------------------- orderings (C10)

fn net_with(edges: &[(usize, usize)], form: usize, ids: usize) -> String {
    let subs: String = (0..ids).map(|i| format!("(i{} (n)) ", i)).collect();
    let pair = |(a, b): &(usize, usize)| format!("(< i{} i{}) ", a, b);
    let mut s = format!(":subtasks (and {}) ", subs);
    match form {
        0 => s += &format!(":ordering (and {})", edges.iter().map(pair).collect::<String>()),
        1 => s += &format!(":order (and {})", edges.iter().rev().map(pair).collect::<String>()),
        2 => {
            for e in edges {
                s += &format!(":ordering {}", pair(e));
            }
        }
        3 => {
            // grouped: (< a b c)
            s += ":ordering (and ";
            for a in 0..ids {
                let to: String = edges.iter().filter(|e| e.0 == a).map(|e| format!("i{} ", e.1)).collect();
                if !to.is_empty() {
                    s += &format!("(< i{} {}) ", a, to);
                }
            }
            s += ")";
        }
        _ => {
            // two blocks with constraints between
            let k = edges.len() / 2;
            s += &format!(
                ":ordering (and {}) :constraints (and) :ordering (and {})",
                edges[..k].iter().map(pair).collect::<String>(),
                edges[k..].iter().map(pair).collect::<String>()
            );
        }
    }
    s
}
fn net_case(place: usize, net: &str) -> Case {
    let dom = "(:task t :parameters ()) (:task t2 :parameters ()) (:action n :parameters ())";
    match place {
        0 => Case::dom(lay(&words(&format!("(define (domain d) {dom} (:method m :parameters () :task (t) {net}))")))),
        1 => Case::dom(lay(&words(&format!(
            "(define (domain d) {dom} (:method m0 :parameters () :task (t) :subtasks (and (i0 (n)) (i1 (n)) (i2 (n))) :ordering (and (< i0 i1) (< i1 i2))) (:method m :parameters () :task (t2) :precondition () {net}) (:method m1 :parameters () :task (t) :ordered-subtasks (and (i1 (n)) (i0 (n)))))"
        )))),
        2 => Case { d: lay(&words(&format!("(define (domain d) {dom})"))), p: Some(lay(&words(&format!("(define (problem p) (:domain d) (:htn {net}))")))) },
        _ => Case {
            d: lay(&words(&format!("(define (domain d) {dom} (:method m0 :parameters () :task (t) :subtasks (and (i0 (n)) (i1 (n))) :ordering (and (< i1 i0))))"))),
            p: Some(lay(&words(&format!("(define (problem p) (:domain d) (:objects o) (:htn :parameters (?x) {net}) (:init) (:goal ()))")))),
        },
    }
}
fn ordering_graphs(ctx: &mut Ctx, judge: Judge) {
    for n in 1..=3 {
        space(
            ctx,
            &format!("all orderings over {} subtasks", n),
            0,
            |c| {
                let mut edges = vec![];
                for a in 0..n {
                    for b in 0..n {
                        if c.flag() {
                            edges.push((a, b));
                        }
                    }
                }
                let form = c.pick(5);
                let place = c.pick(4);
                Some(move || net_case(place, &net_with(&edges, form, n)))
            },
            judge,
        );
    }
    let forms = ctx.bound(1, 5);
    space(
        ctx,
        "all orderings over 4 subtasks",
        0,
        |c| {
            let mut edges = vec![];
            for a in 0..4 {
                for b in 0..4 {
                    if a != b && c.flag() {
                        edges.push((a, b));
                    }
                }
            }
            let form = c.pick(forms);
            let place = [0, 2][c.pick(2)];
            Some(move || net_case(place, &net_with(&edges, form, 4)))
        },
        judge,
    );
    let (k, len) = ctx.bound((3, 4), (4, 5));
    space(
        ctx,
        "all sequences of ordering constraints",
        0,
        |c| {
            let l = c.pick(len + 1);
            let edges: Vec<(usize, usize)> = (0..l).map(|_| (c.pick(k), c.pick(k))).collect();
            let form = [0, 2][c.pick(2)];
            Some(move || net_case(form % 4, &net_with(&edges, form, k)))
        },
        judge,
    );
    let max = ctx.bound(20, 40);
    space(
        ctx,
        "cycles and chains of any length",
        0,
        |c| {
            let cyc = c.pick(max + 1);
            let tail = c.pick(max + 1);
            let side = c.pick(3);
            let form = c.pick(5);
            let place = c.pick(4);
            Some(move || {
                let mut e = vec![];
                for i in 0..tail {
                    e.push((i, i + 1));
                }
                let b = tail + 1;
                for i in 0..cyc {
                    e.push((b + i, b + (i + 1) % cyc));
                }
                if cyc > 0 && tail > 0 && side > 0 {
                    e.push(if side == 1 { (tail, b) } else { (b + cyc - 1, 0) });
                }
                // a diamond is no cycle
                let w = b + cyc;
                e.extend([(w, w + 1), (w, w + 2), (w + 1, w + 3), (w + 2, w + 3)]);
                net_case(place, &net_with(&e, form, w + 4))
            })
        },
        judge,
    );
    // two networks: each is judged alone
    space(
        ctx,
        "two networks over the same identifiers",
        0,
        |c| {
            let pick = |c: &mut Chooser| -> Vec<(usize, usize)> { [(0, 1), (1, 0), (1, 2), (2, 0), (0, 0)].into_iter().filter(|_| c.flag()).collect() };
            let (a, b) = (pick(c), pick(c));
            let problem = c.flag();
            Some(move || {
                let (na, nb) = (net_with(&a, 0, 3), net_with(&b, 0, 3));
                let dom = "(:task t :parameters ()) (:action n :parameters ())";
                if problem {
                    Case {
                        d: lay(&words(&format!("(define (domain d) {dom} (:method m :parameters () :task (t) {na}))"))),
                        p: Some(lay(&words(&format!("(define (problem p) (:domain d) (:htn {nb}))")))),
                    }
                } else {
                    Case::dom(lay(&words(&format!("(define (domain d) {dom} (:method m :parameters () :task (t) {na}) (:method m2 :parameters () :task (t) {nb}))"))))
                }
            })
        },
        judge,
    );
}
pub fn run_c10(ctx: &mut Ctx) {
    ctx.layouts = true;
    union(ctx, &c10);
}

// ---------------------------------------------------------------- C11, C12

pub fn run_c11(ctx: &mut Ctx) {
    ctx.layouts = true;
    union(ctx, &c11);
}
fn typed_objects(ctx: &mut Ctx, judge: Judge) {
    // objects of every type, in facts and networks, with and without declarations
    space(
        ctx,
        "small problems over typed objects",
        0,
        |c| {
            let o: Vec<usize> = (0..2).map(|_| c.pick(4)).collect();
            let args: Vec<&str> = (0..2).map(|_| *c.of(&["o0", "o1", "k", "?h", "zz"])).collect();
            let place = c.pick(6);
            Some(move || {
                let ty = ["s", "m", "zz", ""];
                let objs: String = {
                    let mut parts: Vec<(bool, String)> = o.iter().enumerate().map(|(i, t)| (ty[*t].is_empty(), if ty[*t].is_empty() { format!("o{} ", i) } else { format!("o{} - {} ", i, ty[*t]) })).collect();
                    parts.sort_by_key(|p| p.0);
                    parts.into_iter().map(|p| p.1).collect()
                };
                let a = args.join(" ");
                let d = "(define (domain d) (:types s - m m - o) (:constants k - s) (:predicates (p ?x - m ?y - s)) (:task t :parameters (?x - m ?y - s)) (:action n :parameters (?x - o ?y)))";
                let body = match place {
                    0 => format!("(:init (p {a}))"),
                    1 => format!("(:goal (p {a}))"),
                    2 => format!("(:goal (and (not (or (p k k) (p {a})))))"),
                    3 => format!("(:htn :parameters (?h - s) :subtasks (and (t {a})))"),
                    4 => format!("(:htn :parameters (?h) :ordered-subtasks (and (i (t k k)) (j (n {a}))))"),
                    _ => format!("(:goal (forall (?h - m) (p {a})))"),
                };
                Case { d: lay(&words(d)), p: Some(lay(&words(&format!("(define (problem p) (:domain d) (:objects {objs}) {body})")))) }
            })
        },
        judge,
    );
}
pub fn run_c12(ctx: &mut Ctx) {
    ctx.layouts = true;
    union(ctx, &c12);
    space(ctx, "every defect about names of many lengths", 0, |c| Some(pick_defect(c)), &c12);
}

// ---------------------------------------------------------------- sequences of uses

/// every short sequence of good and bad uses, in every place that holds several (what one use is found to be must not
/// depend on the uses before it)
fn sequences(ctx: &mut Ctx, judge: Judge) {
    let len = ctx.bound(2, 3);
    let triples = ctx.bound(6, 13);
    let uses = ["p A B", "p A C", "r A", "r B", "p A", "z A", "p C A", "p B A", "p K A", "r C", "r K", "p A A", "p Q A"];
    for place in 0..9 {
        space(
            ctx,
            &format!("all sequences of uses, place {}", place),
            0,
            |c| {
                let n = c.pick(len.max(3)) + 1;
                let k = if n <= len { uses.len() } else { triples };
                let us: Vec<usize> = (0..n).map(|_| c.pick(k)).collect();
                Some(move || {
                    let local = place < 6;
                    let term = |s: &str| -> String {
                        s.split(' ')
                            .map(|t| match (t, local) {
                                ("A", true) => "?a",
                                ("B", true) => "?b",
                                ("C", true) => "?c",
                                ("A", false) => "oa",
                                ("B", false) => "ob",
                                ("C", false) => "oc",
                                ("K", _) => "k",
                                ("Q", _) => "kq",
                                (x, _) => x,
                            })
                            .collect::<Vec<_>>()
                            .join(" ")
                    };
                    let us: Vec<String> = us.iter().map(|u| term(uses[*u])).collect();
                    let atoms: String = us.iter().map(|u| format!("({}) ", u)).collect();
                    let subs: String = us.iter().enumerate().map(|(i, u)| if i % 2 == 0 { format!("({}) ", u) } else { format!("(i{} ({})) ", i, u) }).collect();
                    let ps = "(?a - s ?b - o ?c - q)";
                    let preds = "(:predicates (p ?x - o ?y - o) (r ?x - s))";
                    let tasks = "(:task p :parameters (?x - o ?y - o)) (:action r :parameters (?x - s))";
                    let body = match place {
                        0 => format!("{preds} (:action a :parameters {ps} :precondition (and {atoms}))"),
                        1 => format!("{preds} (:action a :parameters {ps} :precondition (or (not ({})) {}) :effect (and {}))", us[0], us.get(1).map_or(String::new(), |u| format!("({})", u)), us.get(2).map_or(String::new(), |u| format!("({})", u))),
                        2 => format!("{preds} {}", us.iter().enumerate().map(|(i, u)| format!("(:action a{i} :parameters {ps} :precondition () :effect ({u}))")).collect::<String>()),
                        3 => format!("{tasks} (:method m :parameters {ps} :task (u) :subtasks (and {subs}))"),
                        4 => format!("{tasks} {}", us.iter().enumerate().map(|(i, u)| format!("(:method m{i} :parameters {ps} :task (u) :ordered-subtasks ({u}))")).collect::<String>()),
                        5 => format!("(:task p :parameters (?x - o ?y - o)) (:task r :parameters (?x - s)) {}", us.iter().enumerate().map(|(i, u)| format!("(:method m{i} :parameters {ps} :task ({u}) :subtasks ())")).collect::<String>()),
                        6 | 7 => preds.to_string(),
                        _ => tasks.to_string(),
                    };
                    let d = lay(&words(&format!("(define (domain d) (:types s - o q) (:constants k - s kq - q) (:task u :parameters ()) {body})")));
                    let objs = "(:objects oa - s ob - o oc - q)";
                    let p = match place {
                        6 => Some(format!("(define (problem p) (:domain d) {objs} (:init {atoms}))")),
                        7 => Some(format!("(define (problem p) (:domain d) {objs} (:init ({})) (:goal (and {})))", us[0], us[1..].iter().map(|u| format!("({}) ", u)).collect::<String>())),
                        8 => Some(format!("(define (problem p) (:domain d) {objs} (:htn :subtasks (and {subs})))")),
                        _ => None,
                    };
                    Case { d, p: p.map(|p| lay(&words(&p))) }
                })
            },
            judge,
        );
    }
}

/// words that other planning tools treat specially: here they are names like any other
pub const SPECIAL: &[&str] = &[
    "object", "number", "boolean", "root", "top", "any", "self", "total-cost", "nil", "none", "null", "true", "false", "noop", "nop", "dummy", "when", "either", "increase", "start", "__top", "t0", "OBJECT",
    "Object", "init", "goal", "task", "action", "method", "type", "types", "parameters", "object-", "object1", "_", "__method_precondition", "top-task", "unknown", "undefined", "empty", "error", "id",
];

/// a small pair with one name replaced by a special word throughout, and one edit of names and groups
fn special_names(ctx: &mut Ctx, judge: Judge) {
    let d = words("(define (domain dd) (:types s - m q) (:constants k - s) (:predicates (p ?x - m) (n)) (:task t :parameters (?x - m)) (:method me :parameters (?y - s) :task (t ?y) :precondition (p ?y) :subtasks (and (i1 (a ?y)) (i2 (t k))) :ordering (and (< i1 i2))) (:action a :parameters (?x - m) :precondition (n) :effect (p ?x)))");
    let p = words("(define (problem pp) (:domain dd) (:objects o - s) (:htn :subtasks (and (i1 (a o)))) (:init (p o)) (:goal (n)))");
    let mut w = d;
    w.push("\u{1}".into());
    w.extend(p);
    let names = ["dd", "s", "m", "q", "k", "p", "x", "n", "t", "me", "y", "i1", "i2", "a", "pp", "o"];
    let pool = ["s", "q", "k", "p", "t", "a", "o", "?y", "zz"];
    let all = ctx.thorough();
    let es = name_edits(&w, &pool);
    // one case per edit is enough for most words
    space(
        ctx,
        "special words as names, one edit",
        0,
        |c| {
            let who = *c.of(&names);
            let word = if all { *c.of(SPECIAL) } else { *c.of(&SPECIAL[..14]) };
            let e = pick_edits(c, &es, 1);
            let w = &w;
            Some(move || {
                let mut w = apply(w, &e);
                for t in w.iter_mut() {
                    if t == who {
                        *t = word.to_string();
                    } else if t.strip_prefix('?') == Some(who) {
                        *t = format!("?{}", word);
                    }
                }
                split(&w)
            })
        },
        judge,
    );
    space(
        ctx,
        "special words as names",
        0,
        |c| {
            let who = *c.of(&names);
            let word = *c.of(SPECIAL);
            let e = pick_edits(c, &es, 0);
            let w = &w;
            Some(move || {
                let mut w = apply(w, &e);
                for t in w.iter_mut() {
                    if t == who {
                        *t = word.to_string();
                    } else if t.strip_prefix('?') == Some(who) {
                        *t = format!("?{}", word);
                    }
                }
                split(&w)
            })
        },
        judge,
    );
}

// ---------------------------------------------------------------- shapes

/// the edges of graphs that grow in one direction: chains, ladders, dense and sparse ones
fn shape(kind: usize, n: usize) -> Vec<(usize, usize)> {
    match kind {
        // chain
        0 => (0..n).map(|i| (i, i + 1)).collect(),
        // ladder: two nodes per level, each below both of the next (2^n paths)
        1 => (0..n).flat_map(|i| [(2 * i, 2 * i + 2), (2 * i, 2 * i + 3), (2 * i + 1, 2 * i + 2), (2 * i + 1, 2 * i + 3)]).collect(),
        // diamonds in a row
        2 => (0..n).flat_map(|i| [(3 * i, 3 * i + 1), (3 * i, 3 * i + 2), (3 * i + 1, 3 * i + 3), (3 * i + 2, 3 * i + 3)]).collect(),
        // every earlier one below every later one
        3 => (0..n.min(60)).flat_map(|i| (i + 1..=n.min(60)).map(move |j| (i, j))).collect(),
        // binary tree towards the root 0, and the star
        4 => (1..=n).map(|i| (i, (i - 1) / 2)).collect(),
        5 => (1..=n).map(|i| (i, 0)).collect(),
        6 => (1..=n).map(|i| (0, i)).collect(),
        // fibonacci-like: two steps
        _ => (0..n).flat_map(|i| [(i, i + 1), (i, i + 2)]).collect(),
    }
}
/// type hierarchies, orderings and decompositions of every shape and many sizes
pub fn shapes(ctx: &mut Ctx, judge: Judge) {
    let sizes: Vec<usize> = if ctx.thorough() { (1..=24).chain([31, 32, 33, 40, 50, 63, 64, 65, 100, 128, 200, 256, 300]).collect() } else { (1..=6).chain([9, 17, 33, 40, 64, 65, 100, 256, 300]).collect() };
    space(
        ctx,
        "type hierarchies of every shape",
        0,
        |c| {
            let kind = c.pick(8);
            let n = *c.of(&sizes);
            let turn = c.pick(3);
            let ends = c.pick(6);
            let use_ = c.pick(3);
            Some(move || {
                let mut e = shape(kind, n);
                let last = e.iter().map(|x| x.0.max(x.1)).max().unwrap();
                match turn {
                    0 => {}
                    1 => e.reverse(),
                    _ => {
                        let k = e.len() / 2;
                        e.rotate_left(k)
                    }
                }
                let types: String = e.iter().map(|(a, b)| format!("t{} - t{} ", a, b)).collect();
                let (found, expected) = match ends {
                    0 => (format!("t0"), format!("t{}", last)),
                    1 => (format!("t{}", last), "t0".to_string()),
                    2 => ("t0".into(), "zz".into()),
                    3 => ("zz".into(), format!("t{}", last)),
                    4 => (format!("t{}", last / 2), format!("t{}", last)),
                    _ => ("t0".into(), format!("t{}", last / 2)),
                };
                let (uses, p) = match use_ {
                    0 => (format!("(:predicates (p ?x - {expected})) (:action a :parameters (?x - {found}) :precondition (p ?x) :effect (and (p ?x) (p ?x)))"), None),
                    1 => (format!("(:task u :parameters (?x - {expected})) (:method m :parameters (?x - {found}) :task (u ?x) :subtasks (u ?x))"), None),
                    _ => (format!("(:predicates (p ?x - {expected}))"), Some(format!("(define (problem p) (:domain d) (:objects o - {found}) (:init (p o)))"))),
                };
                Case { d: lay(&words(&format!("(define (domain d) (:types {types} zz) {uses})"))), p: p.map(|p| lay(&words(&p))) }
            })
        },
        judge,
    );
    space(
        ctx,
        "orderings of every shape",
        0,
        |c| {
            let kind = c.pick(8);
            let n = (*c.of(&sizes)).min(100);
            let turn = c.pick(3);
            let close = c.pick(3);
            let place = [0, 2][c.pick(2)];
            let form = [0, 4][c.pick(2)];
            Some(move || {
                let mut e = shape(kind, n);
                let last = e.iter().map(|x| x.0.max(x.1)).max().unwrap();
                match close {
                    0 => {}
                    1 => e.push((last, 0)),
                    _ => e.push((last / 2, last / 2 + 1)),
                }
                match turn {
                    0 => {}
                    1 => e.reverse(),
                    _ => {
                        let k = e.len() / 2;
                        e.rotate_left(k)
                    }
                }
                net_case(place, &net_with(&e, form, last + 1))
            })
        },
        judge,
    );
    space(
        ctx,
        "decompositions of every shape",
        0,
        |c| {
            let kind = c.pick(8);
            let n = (*c.of(&sizes)).min(100);
            let turn = c.pick(3);
            let end = c.pick(4);
            let way = c.pick(3);
            Some(move || {
                let e = shape(kind, n);
                let last = e.iter().map(|x| x.0.max(x.1)).max().unwrap();
                let mut ms: Vec<String> = vec![];
                for t in 0..=last {
                    let to: Vec<usize> = e.iter().filter(|x| x.0 == t).map(|x| x.1).collect();
                    if to.is_empty() {
                        ms.push(match end {
                            0 => format!("(:method m{t} :parameters () :task (t{t}) :subtasks ())"),
                            1 => format!("(:method m{t} :parameters () :task (t{t}) :subtasks (a))"),
                            2 => format!("(:method m{t} :parameters () :task (t{t}) :subtasks (t0))"),
                            _ => String::new(),
                        });
                        continue;
                    }
                    match way {
                        // one method each
                        0 => ms.extend(to.iter().map(|x| format!("(:method m{t}-{x} :parameters () :task (t{t}) :subtasks (t{x}))"))),
                        // one method with all
                        1 => ms.push(format!("(:method m{t} :parameters () :task (t{t}) :ordered-subtasks (and {}))", to.iter().map(|x| format!("(t{x})")).collect::<String>())),
                        _ => ms.push(format!("(:method m{t} :parameters () :task (t{t}) :subtasks (and {} (t{})))", to.iter().map(|x| format!("(i{x} (t{x}))")).collect::<String>(), to[0])),
                    }
                }
                let mut ts: Vec<String> = (0..=last).map(|t| format!("(:task t{t} :parameters ())")).collect();
                match turn {
                    0 => {}
                    1 => {
                        ms.reverse();
                        ts.reverse();
                    }
                    _ => {
                        let k = ms.len() / 2;
                        ms.rotate_left(k);
                        ts.rotate_left(last / 3);
                    }
                }
                Case::dom(lay(&words(&format!("(define (domain d) (:action a :parameters ()) {} {})", ts.concat(), ms.concat()))))
            })
        },
        judge,
    );
}
