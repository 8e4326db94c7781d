//! C15-C17: analyses of the task decomposition graph.
use crate::docs::*;
use crate::engine::*;
use crate::model::tdg::{Class, Tdg};
use crate::oracle::{self, Exp, Verdict};
use crate::subject::{self, Out};
use std::collections::BTreeSet;

type Judge<'a> = &'a dyn Fn(&Case) -> Verdict;

fn valid(c: &Case) -> Option<crate::model::grammar::Domain> {
    let e = oracle::expect(&c.d, None)?;
    match e.exp {
        Exp::Ok if !e.ambiguous => e.dom,
        _ => None,
    }
}

pub fn c15(c: &Case) -> Verdict {
    let d = match valid(c) {
        Some(d) => d,
        None => return Ok(None),
    };
    let want: Vec<(String, u32)> = Tdg::new(&d).unrefinable().into_iter().collect();
    let check = |p: Option<&Vec<u8>>| -> Result<(), String> {
        match subject::verify(&c.d, p) {
            Out::Ok(ws) => {
                let mut got: Vec<(String, u32)> = ws.iter().map(|w| (w.symbol.clone(), w.line)).collect();
                got.sort();
                if got != want {
                    return Err(format!("tasks without a primitive refinement: {:?}, warned of: {:?}", want, got));
                }
                for w in &ws {
                    if !w.msg.contains(&w.symbol) || !w.msg.contains(&format!("line {}", w.line)) {
                        return Err(format!("warning for {} in line {} says: {}", w.symbol, w.line, w.msg));
                    }
                }
                Ok(())
            }
            o => Err(format!("valid, but rejected: {}", o.msg())),
        }
    };
    check(None)?;
    let empty = b"(define (problem p) (:domain d))".to_vec();
    let p = match &c.p {
        Some(p) if matches!(oracle::expect(&c.d, Some(p)), Some(e) if matches!(e.exp, Exp::Ok) && !e.ambiguous) => p,
        _ => &empty,
    };
    check(Some(p))?;
    Ok(Some(format!("{} of {} tasks flagged", want.len().min(9), d.tasks.len().min(9))))
}

pub fn c16(c: &Case) -> Verdict {
    let d = match valid(c) {
        Some(d) => d,
        None => return Ok(None),
    };
    let want = Tdg::new(&d).nullables();
    match subject::metadata(&c.d) {
        Out::Ok(m) => {
            let got: BTreeSet<String> = m.nullables.iter().cloned().collect();
            if got != want || got.len() != m.nullables.len() {
                return Err(format!("nullable: {:?}, reported: {:?}", want, m.nullables));
            }
            let counts = (d.actions.len() as u32, d.tasks.len() as u32, d.methods.len() as u32);
            if counts != m.counts {
                return Err(format!("actions, tasks, methods: {:?}, reported {:?}", counts, m.counts));
            }
            // and the printed form says the same
            let listed: Vec<&str> = m.text.lines().skip_while(|l| !l.trim_start().starts_with("Nullable")).skip(1).take_while(|l| !l.trim_start().starts_with("Number")).map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
            let listed_set: BTreeSet<String> = listed.iter().map(|s| s.to_string()).collect();
            if listed_set != want || listed.len() != want.len() {
                return Err(format!("nullable: {:?}, printed: {}", want, m.text));
            }
            for (what, n) in [("actions", counts.0), ("abstract tasks", counts.1), ("methods", counts.2)] {
                if !m.text.lines().any(|l| l.contains(what) && l.trim_end().ends_with(&format!(" {}", n))) {
                    return Err(format!("{} {} are printed as: {}", n, what, m.text));
                }
            }
            Ok(Some(format!("{} of {} nullable", want.len().min(9), d.tasks.len().min(9))))
        }
        o => Err(format!("valid, but no metadata: {}", o.msg())),
    }
}

pub fn c17(c: &Case) -> Verdict {
    let d = match valid(c) {
        Some(d) => d,
        None => return Ok(None),
    };
    let g = Tdg::new(&d);
    let want = g.class();
    match subject::metadata(&c.d) {
        Out::Ok(m) => {
            if m.class != want {
                return Err(format!("the recursion is {:?}, reported {:?}", want, m.class));
            }
            if want == Class::NonRecursive {
                if !m.tasks.is_empty() {
                    return Err(format!("a cycle is shown: {:?}", m.tasks));
                }
            } else {
                g.is_witness(want, &m.tasks, &m.methods).map_err(|e| format!("{:?}, but the cycle shown is none: {} ({})", want, e, m.text))?;
            }
            Ok(Some(format!("{:?}", want)))
        }
        o => Err(format!("valid, but no metadata: {}", o.msg())),
    }
}

#[derive(Clone, Debug)]
struct Net {
    subs: Vec<usize>,
    /// None: total order
    ords: Option<Vec<(usize, usize)>>,
}

/// symbols: 0..n compound tasks, n.. actions
fn write(n: usize, methods: &[(usize, Net)], style: usize) -> Case {
    let mut s = String::from("(define (domain d) ");
    let name = |x: usize| if x < n { format!("t{}", x) } else { format!("a{}", x - n) };
    let decls = |s: &mut String| {
        for t in 0..n {
            *s += &format!("(:task t{} :parameters ()) ", t);
        }
        *s += "(:action a0 :parameters ()) ";
        if methods.iter().any(|m| m.1.subs.iter().any(|x| *x > n)) {
            *s += "(:action a1 :parameters ()) ";
        }
    };
    if style % 2 == 0 {
        decls(&mut s);
    }
    for (i, (t, net)) in methods.iter().enumerate() {
        s += &format!("(:method m{} :parameters () :task (t{}) ", i, t);
        match &net.ords {
            None => {
                if net.subs.is_empty() && style % 2 == 1 {
                    s += ":precondition () ) ";
                    continue;
                }
                s += ":ordered-subtasks (and ";
                for (k, x) in net.subs.iter().enumerate() {
                    s += &if style % 2 == 0 { format!("({}) ", name(*x)) } else { format!("(i{} ({})) ", k, name(*x)) };
                }
                s += ")) ";
            }
            Some(o) => {
                s += ":subtasks (and ";
                for (k, x) in net.subs.iter().enumerate() {
                    // subtasks outside the ordering need no identifier
                    let named = o.iter().any(|p| p.0 == k || p.1 == k) || style % 2 == 0;
                    s += &if named { format!("(i{} ({})) ", k, name(*x)) } else { format!("({}) ", name(*x)) };
                }
                s += ")";
                if !o.is_empty() {
                    s += ":ordering (and ";
                    for (a, b) in o {
                        s += &format!("(< i{} i{}) ", a, b);
                    }
                    s += ")";
                }
                s += ") ";
            }
        }
    }
    if style % 2 == 1 {
        decls(&mut s);
    }
    Case::dom(lay(&words(&(s + ")"))))
}

fn acyclic(k: usize, o: &[(usize, usize)]) -> bool {
    let ords: Vec<(String, String)> = o.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let _ = k;
    !crate::model::sem::cyclic_relation(&ords)
}

/// every network with up to `len` subtasks over `syms` symbols
fn nets(syms: usize, len: usize, total: bool, partial: bool) -> Vec<Net> {
    let mut out = vec![];
    for k in 0..=len {
        let mut seqs: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..k {
            seqs = seqs.iter().flat_map(|s| (0..syms).map(move |x| { let mut s = s.clone(); s.push(x); s })).collect();
        }
        for s in seqs {
            if total {
                out.push(Net { subs: s.clone(), ords: None });
            }
            if partial {
                let pairs: Vec<(usize, usize)> = (0..k).flat_map(|a| (0..k).filter(move |b| *b != a).map(move |b| (a, b))).collect();
                for bits in 0..1u32 << pairs.len() {
                    let o: Vec<(usize, usize)> = pairs.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|(_, p)| *p).collect();
                    if acyclic(k, &o) {
                        out.push(Net { subs: s.clone(), ords: Some(o) });
                    }
                }
            }
        }
    }
    out
}

/// all domains with n tasks and up to k methods out of the networks
fn domains(ctx: &mut Ctx, name: &str, n: usize, k: usize, nets: &[Net], judge: Judge) {
    let all: Vec<(usize, &Net)> = (0..n).flat_map(|t| nets.iter().map(move |x| (t, x))).collect();
    space(
        ctx,
        &format!("{}: {} tasks, up to {} methods of {} networks", name, n, k, nets.len()),
        0,
        |c| {
            // multisets: the order of the methods does not matter here
            let mut ms: Vec<usize> = vec![];
            let mut from = 0;
            for _ in 0..k {
                let i = c.pick(all.len() - from + 1);
                if i == 0 {
                    break;
                }
                from += i - 1;
                ms.push(from);
            }
            let all = &all;
            Some(move || {
                let style = ms.iter().sum::<usize>() + ms.len();
                let methods: Vec<(usize, Net)> = ms.iter().map(|m| (all[*m].0, all[*m].1.clone())).collect();
                write(n, &methods, style)
            })
        },
        judge,
    );
}

/// cycles whose every step has any prefix and any rest
fn cycles(ctx: &mut Ctx, judge: Judge) {
    // symbols: e is nullable, a is an action, x is neither and not recursive
    let kinds = ["", "(e)", "(a)", "(x)", "(e) (e)", "(e) (a)"];
    let step = |k: usize, target: &str, form: usize| -> String {
        let (pre, post) = (kinds[k / kinds.len()], kinds[k % kinds.len()]);
        match form {
            0 => format!(":ordered-subtasks (and {} ({}) {})", pre, target, post),
            _ => {
                // the same with a partial order: only the prefix is ordered before the target
                let mut subs = format!("(r ({})) ", target);
                let mut ords = String::new();
                for (i, p) in pre.split(' ').filter(|s| !s.is_empty()).enumerate() {
                    subs = format!("(p{} {}) {}", i, p, subs);
                    ords += &format!("(< p{} r) ", i);
                }
                for (i, p) in post.split(' ').filter(|s| !s.is_empty()).enumerate() {
                    subs += &format!("(q{} {}) ", i, p);
                    if form == 2 {
                        ords += &format!("(< r q{}) ", i);
                    }
                }
                format!(":subtasks (and {}) :ordering (and {})", subs, ords)
            }
        }
    };
    let head = "(:task e :parameters ()) (:task x :parameters ()) (:method me :parameters () :task (e) :subtasks ()) (:method mx :parameters () :task (x) :subtasks (a)) (:action a :parameters ()) ";
    let nk = kinds.len() * kinds.len();
    // one cycle: every step of every kind
    let max = ctx.bound(2, 3);
    space(
        ctx,
        "one cycle, every kind of step",
        0,
        |c| {
            let len = c.pick(max) + 1;
            let ks: Vec<usize> = (0..len).map(|_| c.pick(nk)).collect();
            let form = c.pick(3);
            let rev = c.flag();
            Some(move || {
                let mut ms: Vec<String> = (0..len).map(|i| format!("(:method m{} :parameters () :task (t{}) {}) ", i, i, step(ks[i], &format!("t{}", (i + 1) % len), form))).collect();
                let mut ts: Vec<String> = (0..len).map(|i| format!("(:task t{} :parameters ()) ", i)).collect();
                if rev {
                    ms.reverse();
                    ts.reverse();
                }
                Case::dom(lay(&words(&format!("(define (domain d) {} {} {})", ts.concat(), head, ms.concat()))))
            })
        },
        judge,
    );
    // two cycles: apart, sharing a task, nested, or parallel methods between the same tasks
    let few: Vec<usize> = vec![0, 1, 2, 6, 7, 8, 12, 13, 14];
    space(
        ctx,
        "two cycles, every kind of step",
        0,
        |c| {
            let shape = c.pick(4);
            let ks: Vec<usize> = (0..4).map(|_| few[c.pick(few.len())]).collect();
            let form = c.pick(2);
            Some(move || {
                let edges: [(usize, usize); 4] = match shape {
                    0 => [(0, 1), (1, 0), (2, 3), (3, 2)],
                    1 => [(0, 1), (1, 0), (0, 2), (2, 0)],
                    2 => [(0, 1), (1, 2), (2, 0), (1, 0)],
                    _ => [(0, 1), (0, 1), (1, 0), (1, 1)],
                };
                let ms: String = edges.iter().enumerate().map(|(i, (a, b))| format!("(:method m{} :parameters () :task (t{}) {}) ", i, a, step(ks[i], &format!("t{}", b), form))).collect();
                let ts: String = (0..4).map(|i| format!("(:task t{} :parameters ()) ", i)).collect();
                Case::dom(lay(&words(&format!("(define (domain d) {} {} {})", ts, head, ms))))
            })
        },
        judge,
    );
    // self recursion that makes the prefix nullable only through other methods; several occurrences in one method
    space(
        ctx,
        "several occurrences in one method",
        0,
        |c| {
            let n = c.pick(4) + 1;
            let subs: Vec<&str> = (0..n).map(|_| *c.of(&["t", "u", "e", "a"])).collect();
            let form = c.pick(3);
            let extra: Vec<bool> = (0..4).map(|_| c.flag()).collect();
            Some(move || {
                let list: String = subs.iter().enumerate().map(|(i, s)| format!("(i{} ({})) ", i, s)).collect();
                let net = match form {
                    0 => format!(":ordered-subtasks (and {})", list),
                    1 => format!(":subtasks (and {})", list),
                    _ => format!(":subtasks (and {}) :ordering (and {})", list, (1..n).map(|i| format!("(< i0 i{}) ", i)).collect::<String>()),
                };
                let mut ms = format!("(:method m :parameters () :task (t) {}) ", net);
                for (i, (on, m)) in extra.iter().zip(["(t) :subtasks ()", "(u) :subtasks (t)", "(u) :subtasks ()", "(u) :ordered-subtasks (and (e) (t) (e))"]).enumerate() {
                    if *on {
                        ms += &format!("(:method x{} :parameters () :task {}) ", i, m);
                    }
                }
                Case::dom(lay(&words(&format!("(define (domain d) (:task t :parameters ()) (:task u :parameters ()) {} {})", head, ms))))
            })
        },
        judge,
    );
}

/// one method with many subtasks: where the recursive one is, what the others are, how they are ordered
fn wide(ctx: &mut Ctx, judge: Judge) {
    let sizes: Vec<usize> = if ctx.thorough() { (1..=20).chain([32, 33, 64, 65, 66, 128, 129, 256, 257]).collect() } else { (1..=9).chain([16, 17, 33, 65, 129, 257]).collect() };
    space(
        ctx,
        "one method with many subtasks",
        0,
        |c| {
            let n = *c.of(&sizes);
            let mut at = vec![0, 1, n / 2, n.saturating_sub(2), n - 1];
            at.retain(|x| *x < n);
            at.dedup();
            let r = *c.of(&at);
            let odd = *c.of(&at);
            let fill = c.pick(3);
            let what = c.pick(4);
            let order = c.pick(8);
            Some(move || {
                let name = |i: usize| -> &str {
                    match () {
                        _ if i == r => "t",
                        _ if i == odd => ["a", "e", "x", "t"][what],
                        _ => ["e", "a", "x"][fill],
                    }
                };
                let subs: String = (0..n).map(|i| format!("(i{} ({})) ", i, name(i))).collect();
                let lt = |a: usize, b: usize| format!("(< i{} i{}) ", a, b);
                let ords: String = match order {
                    0 | 1 => String::new(),
                    2 => (1..n).map(|i| lt(i - 1, i)).collect(),
                    3 => (1..n).map(|i| lt(i, i - 1)).collect(),
                    4 => (0..n).filter(|i| *i != r).map(|i| lt(i, r)).collect(),
                    5 => (0..n).filter(|i| *i != r).map(|i| lt(r, i)).collect(),
                    6 if odd != r => lt(odd, r),
                    // the odd one before all others but the recursive one, they before it
                    7 if odd != r => (0..n).filter(|i| *i != r && *i != odd).map(|i| lt(odd, i) + &lt(i, r)).collect(),
                    _ => String::new(),
                };
                let net = match order {
                    0 => format!(":ordered-subtasks (and {})", subs),
                    _ if ords.is_empty() => format!(":subtasks (and {})", subs),
                    _ => format!(":subtasks (and {}) :ordering (and {})", subs, ords),
                };
                Case::dom(lay(&words(&format!(
                    "(define (domain d) (:task t :parameters ()) (:task e :parameters ()) (:task x :parameters ()) (:action a :parameters ()) (:method me :parameters () :task (e) :subtasks ()) (:method mx :parameters () :task (x) :subtasks (a)) (:method m :parameters () :task (t) {}))",
                    net
                ))))
            })
        },
        judge,
    );
}

/// growing graphs: chains, trees, cycles with a special step, layered nullables
fn growing(ctx: &mut Ctx, judge: Judge) {
    let sizes: Vec<usize> = if ctx.thorough() { (1..=80).chain([100, 128, 200, 256, 257, 300]).collect() } else { (1..=24).chain([32, 33, 48, 64, 65, 100, 130, 257]).collect() };
    space(
        ctx,
        "growing graphs",
        0,
        |c| {
            let n = *c.of(&sizes);
            let shape = c.pick(9);
            let end = c.pick(4);
            let order = c.pick(3);
            Some(move || {
                let mut ts: Vec<String> = (0..n).map(|i| format!("(:task t{} :parameters ()) ", i)).collect();
                let mut ms: Vec<String> = vec![];
                let m = |ms: &mut Vec<String>, t: usize, net: String| {
                    let k = ms.len();
                    ms.push(format!("(:method m{} :parameters () :task (t{}) {}) ", k, t, net));
                };
                let last = n - 1;
                for i in 0..n {
                    let next = (i + 1).min(last);
                    match shape {
                        // a chain, the last task decided by `end`
                        0 if i < last => m(&mut ms, i, format!(":subtasks (t{})", next)),
                        // every task needs all the later ones
                        1 if i < last => m(&mut ms, i, format!(":ordered-subtasks (and {})", (i + 1..n.min(i + 12)).chain([last]).map(|j| format!("(t{}) ", j)).collect::<String>())),
                        // a cycle
                        2 => m(&mut ms, i, format!(":subtasks (t{})", (i + 1) % n)),
                        // a cycle with one special step, at the position given by the size
                        3 => m(&mut ms, i, if i == n / 2 { format!(":ordered-subtasks (and (t{}) (a))", (i + 1) % n) } else { format!(":subtasks (t{})", (i + 1) % n) }),
                        4 => m(&mut ms, i, if i == n / 3 { format!(":ordered-subtasks (and (a) (t{}))", (i + 1) % n) } else { format!(":ordered-subtasks (and (t{}))", (i + 1) % n) }),
                        // many methods for one task
                        5 => m(&mut ms, 0, format!(":ordered-subtasks (and (t{}) (a))", i)),
                        // two methods each
                        6 if i < last => {
                            m(&mut ms, i, format!(":ordered-subtasks (and (t{}) (t{}))", next, last));
                            m(&mut ms, i, format!(":subtasks (and (t{}) (a))", next));
                        }
                        // one method with n subtasks
                        7 if i == 0 => m(&mut ms, 0, format!(":ordered-subtasks (and {})", (0..n).map(|j| format!("(t{}) ", n - 1 - j)).collect::<String>())),
                        // every task recursive over its successor
                        8 if i < last => m(&mut ms, i, format!(":ordered-subtasks (and (t{}) (t{}))", next, i)),
                        _ => {}
                    }
                }
                match end {
                    0 => m(&mut ms, last, ":subtasks ()".into()),
                    1 => m(&mut ms, last, ":subtasks (a)".into()),
                    2 => m(&mut ms, last, format!(":subtasks (t{})", n / 2)),
                    _ => {}
                }
                match order {
                    0 => {}
                    1 => {
                        ts.reverse();
                        ms.reverse();
                    }
                    _ => {
                        let k = ms.len() / 2;
                        ms.rotate_left(k);
                        ts.rotate_left(n / 3);
                    }
                }
                Case::dom(lay(&words(&format!("(define (domain d) (:action a :parameters ()) {} {})", ms.concat(), ts.concat()))))
            })
        },
        judge,
    );
    // counts
    space(
        ctx,
        "numbers of declarations",
        0,
        |c| {
            let sizes = [0usize, 1, 2, 3, 9, 10, 11, 255, 256, 257];
            let (a, t, m) = (*c.of(&sizes), *c.of(&sizes), *c.of(&sizes));
            if m > 0 && t == 0 {
                return None;
            }
            Some(move || {
                let mut s = String::from("(define (domain d) (:predicates (p)) (:functions (f)) ");
                for i in 0..a {
                    s += &format!("(:action a{} :parameters ()) ", i);
                }
                for i in 0..t {
                    s += &format!("(:task t{} :parameters ()) ", i);
                }
                for i in 0..m {
                    s += &format!("(:method m{} :parameters () :task (t{}) :subtasks ()) ", i, i % t);
                }
                Case::dom(lay(&words(&(s + ")"))))
            })
        },
        judge,
    );
}

/// domains with parameters, types and problems: the analyses do not look at them
fn rich(ctx: &mut Ctx, judge: Judge) {
    for (k, (d, p)) in pairs().into_iter().enumerate() {
        let mut pool = id_pool(&d);
        pool.push("zz".into());
        let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
        let es = name_edits(&d, &pool);
        let prob = lay(&p);
        space(
            ctx,
            &format!("pair {}, edits of names and groups of the domain", k),
            0,
            |c| {
                let e = super::text::pick_edits(c, &es, 1);
                let (d, prob) = (&d, &prob);
                Some(move || {
                    let d = lay(&apply(d, &e));
                    let p = match oracle::expect(&d, Some(prob)) {
                        Some(e) if matches!(e.exp, Exp::Ok) && !e.ambiguous => Some(prob.clone()),
                        _ => None,
                    };
                    Case { d, p }
                })
            },
            judge,
        );
    }
}

fn run(ctx: &mut Ctx, ordered: bool, judge: Judge) {
    rich(ctx, judge);
    super::sem::union(ctx, judge);
    crate::feat::templates(ctx, ctx.bound(&[("networks", 3)], &[("networks", 4)]), judge);
    cycles(ctx, judge);
    growing(ctx, judge);
    wide(ctx, judge);
    domains(ctx, "total orders", 1, ctx.bound(3, 4), &nets(2, 3, true, false), judge);
    domains(ctx, "total orders", 2, ctx.bound(3, 4), &nets(3, 2, true, false), judge);
    domains(ctx, "total orders", 2, ctx.bound(2, 3), &nets(3, 3, true, false), judge);
    domains(ctx, "total orders", 3, ctx.bound(3, 4), &nets(4, 2, true, false), judge);
    domains(ctx, "single subtasks", 4, ctx.bound(4, 5), &nets(5, 1, true, false), judge);
    domains(ctx, "partial orders", 1, ctx.bound(2, 3), &nets(2, 3, true, true), judge);
    domains(ctx, "partial orders", 2, ctx.bound(1, 2), &nets(3, 3, true, true), judge);
    domains(ctx, "partial orders of two", 2, 3, &nets(3, 2, false, true), judge);
    if ordered {
        // one method with four subtasks in any partial order; e (t1) nullable or not
        let four: Vec<Net> = nets(3, 4, false, true).into_iter().filter(|n| n.subs.len() == 4 && n.subs.contains(&0)).filter(|n| n.ords.as_ref().unwrap().iter().all(|(a, b)| a < b)).collect();
        space(
            ctx,
            "one method of four partially ordered subtasks",
            0,
            |c| {
                let i = c.pick(four.len());
                let null = c.flag();
                let base = c.flag();
                let four = &four;
                Some(move || {
                    let mut ms = vec![(0, four[i].clone())];
                    if null {
                        ms.push((1, Net { subs: vec![], ords: None }));
                    }
                    if base {
                        ms.push((0, Net { subs: vec![], ords: None }));
                    }
                    write(2, &ms, i)
                })
            },
            judge,
        );
    }
}
pub fn run_c15(ctx: &mut Ctx) {
    ctx.layouts = true;
    run(ctx, false, &c15);
}
pub fn run_c16(ctx: &mut Ctx) {
    ctx.layouts = true;
    run(ctx, false, &c16);
}
pub fn run_c17(ctx: &mut Ctx) {
    ctx.layouts = true;
    run(ctx, true, &c17);
}
