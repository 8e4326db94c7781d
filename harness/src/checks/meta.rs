//! C13, C14, C18: what must not matter (order, names, hashing, history).
use super::text::parse_json;
use crate::docs::*;
use crate::engine::*;
use crate::oracle::{self, Exp, Verdict};
use crate::subject::{self, Out};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

// ---------------------------------------------------------------- base documents

/// valid domains with warnings, nullables and recursion of every class, and defects of every kind
pub fn bases() -> Vec<(Words, Option<Words>)> {
    let mut v: Vec<(Words, Option<Words>)> = pairs().into_iter().map(|(d, p)| (d, Some(p))).collect();
    for d in D_SMALL {
        v.push((words(d), None));
    }
    for d in [
        // recursion classes
        "(define (domain d) (:task t :parameters ()) (:task u :parameters ()) (:task e :parameters ()) (:action a :parameters ()) (:method m1 :parameters () :task (t) :ordered-subtasks (and (e) (u) (a))) (:method m2 :parameters () :task (u) :ordered-subtasks (and (t) (e))) (:method m3 :parameters () :task (e) :subtasks ()) (:method m4 :parameters () :task (u) :subtasks (a)))",
        "(define (domain d) (:task t :parameters ()) (:task u :parameters ()) (:action a :parameters ()) (:method m1 :parameters () :task (t) :subtasks (and (x (u)) (y (t))) :ordering (< x y)) (:method m2 :parameters () :task (u) :subtasks ()) (:method m3 :parameters () :task (u) :ordered-subtasks (and (u) (a))))",
        "(define (domain d) (:task t :parameters ()) (:task u :parameters ()) (:task w :parameters ()) (:action a :parameters ()) (:method m1 :parameters () :task (t) :ordered-subtasks (and (u) (a))) (:method m2 :parameters () :task (u) :ordered-subtasks (and (a) (w))) (:method m3 :parameters () :task (w) :subtasks (t)))",
        "(define (domain d) (:task t :parameters ()) (:task u :parameters ()) (:task e :parameters ()) (:method m1 :parameters () :task (t) :ordered-subtasks (and (u) (t) (e))) (:method m2 :parameters () :task (u) :subtasks (e)) (:method m3 :parameters () :task (e) :precondition ()) (:method m4 :parameters () :task (t) :subtasks ()))",
        "(define (domain d) (:task t :parameters ()) (:task u :parameters ()) (:task w :parameters ()) (:task z :parameters ()) (:action a :parameters ()) (:method m1 :parameters () :task (t) :subtasks (and (u) (w))) (:method m2 :parameters () :task (w) :subtasks (and (w) (a))) (:method m3 :parameters () :task (u) :subtasks (a)))",
        // defects
        "(define (domain d) (:types a - b b - c c - a) (:predicates (p)) (:action n :parameters ()))",
        "(define (domain d) (:predicates (p ?x) (q) (p)) (:action n :parameters ()))",
        "(define (domain d) (:constants k l k) (:types t u) (:predicates (p)))",
        "(define (domain d) (:action n :parameters ()) (:action o :parameters ()) (:action n :parameters (?x)))",
        "(define (domain d) (:task n :parameters ()) (:task o :parameters ()) (:task n :parameters (?x)))",
        "(define (domain d) (:task n :parameters ()) (:method m :parameters () :task (n) :subtasks ()) (:method m :parameters () :task (n) :precondition ()))",
        "(define (domain d) (:requirements :typing :strips :typing) (:predicates (p)))",
        "(define (domain d) (:types t) (:predicates (p ?x - zz)) (:constants k - t))",
        "(define (domain d) (:predicates (p ?x)) (:constants k) (:action n :parameters () :effect (p k k)))",
        "(define (domain d) (:types a b) (:predicates (p ?x - a)) (:constants k - b) (:action n :parameters () :effect (p k)) (:action o :parameters ()))",
        "(define (domain d) (:task t :parameters (?x)) (:constants k) (:method m :parameters () :task (t k) :subtasks (and (i (n)) (j (n)))  :ordering (and (< i j) (< j i))) (:action n :parameters ()))",
        "(define (domain d) (:task t :parameters (?x)) (:method m :parameters () :task (zz) :subtasks (n)) (:action n :parameters ()))",
        // two defects
        "(define (domain d) (:types a b) (:predicates (p ?x - a) (p)) (:constants k - b) (:action n :parameters () :effect (zz k)))",
    ] {
        v.push((words(d), None));
    }
    v
}

/// the parts of a document: header, sections, tail
fn sections(w: &[String]) -> (Words, Vec<Words>, Words) {
    let gs = groups(w);
    // children of the outermost group
    let outer = gs[0];
    let mut kids = vec![];
    let mut i = outer.0 + 1;
    while i < outer.1 {
        if w[i] == "(" {
            let g = gs.iter().find(|g| g.0 == i).unwrap();
            kids.push(*g);
            i = g.1;
        }
        i += 1;
    }
    let headers = if w[kids[0].0 + 1] == "problem" { 2 } else { 1 };
    let from = kids[headers - 1].1 + 1;
    let secs = kids[headers..].iter().map(|g| w[g.0..=g.1].to_vec()).collect();
    (w[..from].to_vec(), secs, w[outer.1..].to_vec())
}

/// the declarations within a section that lists them: (before, items, after)
fn items(sec: &[String]) -> Option<(Words, Vec<Words>, Words)> {
    let kw = sec[1].as_str();
    let inner = &sec[2..sec.len() - 1];
    let mut out: Vec<Words> = vec![];
    match kw {
        ":predicates" | ":functions" | ":init" => {
            let gs = groups(inner);
            let mut i = 0;
            while i < inner.len() {
                let g = gs.iter().find(|g| g.0 == i)?;
                out.push(inner[g.0..=g.1].to_vec());
                i = g.1 + 1;
            }
        }
        ":requirements" => out = inner.iter().map(|r| vec![r.clone()]).collect(),
        ":types" | ":constants" | ":objects" => {
            // every name with its own type; untyped names go to the end, where they stay untyped
            let mut pending: Vec<String> = vec![];
            let mut i = 0;
            while i < inner.len() {
                if inner[i] == "-" {
                    for n in pending.drain(..) {
                        out.push(vec![n, "-".into(), inner[i + 1].clone()]);
                    }
                    i += 2;
                } else {
                    pending.push(inner[i].clone());
                    i += 1;
                }
            }
            if !pending.is_empty() {
                return None;
            }
        }
        _ => return None,
    }
    Some((sec[..2].to_vec(), out, sec[sec.len() - 1..].to_vec()))
}

/// what declaration order must not change
fn essence(c: &Case) -> Value {
    let v = subject::verify(&c.d, c.p.as_ref());
    let verdict = match &v {
        Out::Ok(ws) => {
            let mut names: Vec<&str> = ws.iter().map(|w| w.symbol.as_str()).collect();
            names.sort();
            json!(["accepted", names])
        }
        Out::Sem(e, _) => {
            // decided only if there is a single defect
            let single = match oracle::expect(&c.d, c.p.as_deref()) {
                Some(x) => matches!(x.exp, Exp::Sem(_, t) if t.errs.len() == 1),
                None => false,
            };
            if single {
                json!(["rejected", e.kind, e.sym, e.exp, e.found])
            } else {
                json!(["rejected"])
            }
        }
        _ => json!(["not grammatical"]),
    };
    let m = match subject::metadata(&c.d) {
        Out::Ok(m) => json!([format!("{:?}", m.class), m.nullables.iter().cloned().collect::<BTreeSet<_>>(), m.counts]),
        _ => json!("error"),
    };
    json!([verdict, m])
}

/// a grammatical document in canonical layout against other orders of its sections and declarations
fn rearranged(c: &Case) -> Verdict {
    if oracle::expect(&c.d, c.p.as_deref()).map(|e| e.ambiguous || matches!(e.exp, Exp::Bad(..))).unwrap_or(true) {
        return Ok(None);
    }
    let cut = |b: &Vec<u8>| -> Words { String::from_utf8_lossy(b).lines().map(|s| s.to_string()).collect() };
    let (d, p) = (cut(&c.d), c.p.as_ref().map(cut));
    // what is beyond the part checked last may be anything
    let ok = |w: &[String]| crate::model::lex::lex(&lay(w)).map(|t| crate::model::grammar::parse(&t).is_ok()).unwrap_or(false);
    if !ok(&d) || !p.as_ref().map(|p| ok(p)).unwrap_or(true) {
        return Ok(None);
    }
    let want = essence(c);
    let re = |w: &Words, how: usize| -> Vec<u8> {
        let (h, mut s, t) = sections(w);
        if how >= 2 {
            for x in s.iter_mut() {
                if let Some((a, mut its, z)) = items(x) {
                    its.reverse();
                    *x = a.into_iter().chain(its.into_iter().flatten()).chain(z).collect();
                }
            }
        }
        match how {
            1 | 3 => s.reverse(),
            4 if !s.is_empty() => {
                let n = s.len();
                s.rotate_left(n / 2)
            }
            _ => {}
        }
        lay(&h.into_iter().chain(s.into_iter().flatten()).chain(t).collect::<Words>())
    };
    for how in 1..5 {
        judge_same(&want)(&Case { d: re(&d, how), p: p.as_ref().map(|p| re(p, how)) })?;
    }
    Ok(Some(want[0][0].as_str().unwrap().to_string()))
}
/// a document in canonical layout under other names
fn renamed(c: &Case) -> Verdict {
    let cut = |b: &Vec<u8>| -> Words { String::from_utf8_lossy(b).lines().map(|s| s.to_string()).collect() };
    let (d, p) = (cut(&c.d), c.p.as_ref().map(cut));
    let names = names_of(&d, &p);
    let want = named(c, &BTreeMap::new());
    let n = names.len();
    let fams: [&dyn Fn(usize) -> String; 4] = [&|i| format!("x{}", n - i), &|i| (0..12).map(|b| if i >> b & 1 == 1 { 'Q' } else { 'q' }).collect(), &|i| "z".repeat(i + 1), &|i| POOL[(i * 7) % POOL.len()].to_string() + &"-".repeat(i / POOL.len())];
    for f in fams {
        let map: BTreeMap<String, String> = names.iter().enumerate().map(|(i, x)| (x.clone(), f(i))).collect();
        if map.values().collect::<BTreeSet<_>>().len() != n {
            continue;
        }
        let back: BTreeMap<String, String> = map.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
        let got = named(&Case { d: lay(&rename(&d, &map)), p: p.as_ref().map(|p| lay(&rename(p, &map))) }, &back);
        for key in ["verify", "warnings", "metadata", "json"] {
            if got[key] != want[key] {
                return Err(format!("{} differs under {:?}: {} with the original names, {} renamed (mapped back)", key, map, want[key], got[key]));
            }
        }
    }
    Ok(Some(match &want["verify"] {
        Value::Array(a) => a[0].as_str().unwrap().to_string(),
        _ => "accepted".into(),
    }))
}

/// a rearrangement of k things
enum Arr {
    All,
    /// every move of one thing, every exchange of two, reversal and rotations
    Moves,
}
fn arrange(c: &mut Chooser, k: usize, a: &Arr) -> Vec<usize> {
    match a {
        Arr::All => c.perm(k),
        Arr::Moves => {
            let mut v: Vec<usize> = (0..k).collect();
            if k < 2 {
                return v;
            }
            match c.pick(4) {
                0 => {
                    let (i, j) = (c.pick(k), c.pick(k));
                    let x = v.remove(i);
                    v.insert(j, x);
                }
                1 => {
                    let (i, j) = (c.pick(k), c.pick(k));
                    v.swap(i, j);
                }
                2 => v.reverse(),
                _ => v.rotate_left(c.pick(k)),
            }
            v
        }
    }
}

fn judge_same(want: &Value) -> impl Fn(&Case) -> Verdict + '_ {
    move |c: &Case| {
        let got = essence(c);
        if got != *want {
            return Err(format!("in the original order {}, rearranged {}", want, got));
        }
        Ok(Some(got[0][0].as_str().unwrap().to_string()))
    }
}

pub fn run_c13(ctx: &mut Ctx) {
    crate::feat::templates(ctx, ctx.bound(&[("world", 2), ("formulas", 1), ("networks", 2), ("lists", 2)], &[("world", 2), ("formulas", 2), ("networks", 3), ("lists", 2)]), &rearranged);
    let longest = ctx.bound(1025, 4097);
    space(ctx, "long lists in other orders", 0, |c| pick_long_if(c, &|n, _| n <= longest), &rearranged);
    let full = ctx.bound(6, 8);
    for (k, (d, p)) in bases().into_iter().enumerate() {
        let base = Case { d: lay(&d), p: p.as_ref().map(|p| lay(p)) };
        let want = essence(&base);
        let (h, secs, t) = sections(&d);
        let rebuild = |h: &Words, secs: &[&Words], t: &Words| -> Vec<u8> {
            let mut w = h.clone();
            for s in secs {
                w.extend(s.iter().cloned());
            }
            w.extend(t.iter().cloned());
            lay(&w)
        };
        let arr = if secs.len() <= full { Arr::All } else { Arr::Moves };
        space(
            ctx,
            &format!("document {}: {} orders of the domain's sections", k, if matches!(arr, Arr::All) { "all" } else { "moved, exchanged, reversed, rotated" }),
            0,
            |c| {
                let o = arrange(c, secs.len(), &arr);
                let (h, secs, t, base) = (&h, &secs, &t, &base);
                Some(move || Case { d: rebuild(h, &o.iter().map(|i| &secs[*i]).collect::<Vec<_>>(), t), p: base.p.clone() })
            },
            &judge_same(&want),
        );
        // the declarations within one section, and split over two sections
        for (si, s) in secs.iter().enumerate() {
            if let Some((a, its, z)) = items(s) {
                if its.len() < 2 {
                    continue;
                }
                space(
                    ctx,
                    &format!("document {}: all orders within section {}", k, si),
                    0,
                    |c| {
                        let o = c.perm(its.len());
                        let cut = c.pick(its.len());
                        let (h, secs, t, base, a, its, z) = (&h, &secs, &t, &base, &a, &its, &z);
                        Some(move || {
                            let mut w: Words = a.clone();
                            for (n, i) in o.iter().enumerate() {
                                if n == cut && cut > 0 {
                                    w.extend(z.iter().cloned());
                                    w.extend(a.iter().cloned());
                                }
                                w.extend(its[*i].iter().cloned());
                            }
                            w.extend(z.iter().cloned());
                            let mut all: Vec<&Words> = secs.iter().collect();
                            all[si] = &w;
                            Case { d: rebuild(h, &all, t), p: base.p.clone() }
                        })
                    },
                    &judge_same(&want),
                );
            }
        }
        if let Some(p) = &p {
            let (ph, psecs, pt) = sections(p);
            space(
                ctx,
                &format!("document {}: all orders of the problem's sections", k),
                0,
                |c| {
                    let o = c.perm(psecs.len());
                    let (ph, psecs, pt, base) = (&ph, &psecs, &pt, &base);
                    Some(move || Case { d: base.d.clone(), p: Some(rebuild(ph, &o.iter().map(|i| &psecs[*i]).collect::<Vec<_>>(), pt)) })
                },
                &judge_same(&want),
            );
            for (si, s) in psecs.iter().enumerate() {
                if let Some((a, its, z)) = items(s) {
                    space(
                        ctx,
                        &format!("document {}: all orders within problem section {}", k, si),
                        0,
                        |c| {
                            let o = c.perm(its.len());
                            let (ph, psecs, pt, base, a, its, z) = (&ph, &psecs, &pt, &base, &a, &its, &z);
                            Some(move || {
                                let mut w: Words = a.clone();
                                for i in &o {
                                    w.extend(its[*i].iter().cloned());
                                }
                                w.extend(z.iter().cloned());
                                let mut all: Vec<&Words> = psecs.iter().collect();
                                all[si] = &w;
                                Case { d: base.d.clone(), p: Some(rebuild(ph, &all, pt)) }
                            })
                        },
                        &judge_same(&want),
                    );
                }
            }
        }
    }
    // every single edit of names and groups (so: every small defect), against all reversals and rotations
    for (k, (d, p)) in pairs().into_iter().enumerate() {
        let mut w = d.clone();
        w.push("\u{1}".into());
        w.extend(p);
        let mut pool = id_pool(&w);
        pool.push("zz".into());
        let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
        let es = name_edits(&w, &pool);
        let rich = k == 0;
        space(
            ctx,
            &format!("pair {}, any edit of names and groups, sections reversed or rotated", k),
            0,
            |c| {
                let e = super::text::pick_edits(c, &es, 1);
                let (dr, pr) = if rich { (c.pick(3), c.pick(2)) } else { (c.pick(8), c.pick(4)) };
                let w = &w;
                Some(move || {
                    let x = apply(w, &e);
                    let at = x.iter().position(|s| s == "\u{1}").unwrap();
                    let re = |w: &[String], how: usize| -> Vec<u8> {
                        let toks = crate::model::lex::lex(&lay(w));
                        // only grammatical documents have sections to move
                        if toks.map(|t| crate::model::grammar::parse(&t).is_err()).unwrap_or(true) {
                            return b"not grammatical".to_vec();
                        }
                        let (h, mut s, t) = sections(w);
                        if how == 1 {
                            s.reverse();
                        } else if how > 1 && !s.is_empty() {
                            let n = s.len();
                            s.rotate_left((how - 1) % n);
                        }
                        let mut w = h;
                        w.extend(s.into_iter().flatten());
                        w.extend(t);
                        lay(&w)
                    };
                    // both orders in one case: the original goes along in front of a separator
                    let mut d = re(&x[..at], 0);
                    d.push(0);
                    d.extend(re(&x[at + 1..], 0));
                    d.push(0);
                    d.extend(re(&x[..at], dr));
                    Case { d, p: Some(re(&x[at + 1..], pr)) }
                })
            },
            &|c: &Case| {
                let parts: Vec<&[u8]> = c.d.split(|b| *b == 0).collect();
                if parts.iter().any(|p| *p == b"not grammatical") || c.p.as_deref() == Some(b"not grammatical") {
                    return Ok(None);
                }
                let before = Case { d: parts[0].to_vec(), p: Some(parts[1].to_vec()) };
                let after = Case { d: parts[2].to_vec(), p: c.p.clone() };
                if oracle::expect(&before.d, before.p.as_deref()).map(|e| e.ambiguous || matches!(e.exp, Exp::Bad(..))).unwrap_or(true) {
                    return Ok(None);
                }
                let want = essence(&before);
                let x = judge_same(&want)(&after);
                x
            },
        );
    }
    // every small task decomposition graph in every order of its declarations
    let n = ctx.bound(4, 5);
    let menu = [
        "(t) :subtasks ()", "(t) :subtasks (u)", "(t) :ordered-subtasks (and (u) (t))", "(t) :ordered-subtasks (and (t) (a))", "(u) :subtasks (t)", "(u) :subtasks (a)", "(u) :ordered-subtasks (and (a) (u))", "(u) :subtasks (and (w) (w))",
        "(w) :subtasks (u)", "(w) :precondition ()", "(w) :subtasks (and (i (t)) (j (w))) :ordering (< j i)",
    ];
    let heads = ["(:task t :parameters ())", "(:task u :parameters ())", "(:task w :parameters ())", "(:action a :parameters ())"];
    space(
        ctx,
        "methods in every order",
        0,
        |c| {
            // a set of methods in increasing order, then its permutation
            let mut set = vec![];
            let mut from = 0;
            for _ in 0..n {
                let i = c.pick(menu.len() - from + 1);
                if i == 0 {
                    break;
                }
                set.push(from + i - 1);
                from += i;
                if from == menu.len() {
                    break;
                }
            }
            let o = c.perm(set.len());
            let hr = c.pick(3);
            Some(move || {
                let mk = |set: &[usize], hr: usize| {
                    let ms: String = set.iter().map(|i| format!("(:method m{} :parameters () :task {}) ", i, menu[*i])).collect();
                    let mut h = heads.to_vec();
                    h.rotate_left(hr);
                    let s = if hr == 1 { format!("(define (domain d) {} {})", ms, h.concat()) } else { format!("(define (domain d) {} {})", h.concat(), ms) };
                    lay(&words(&s))
                };
                let mut d = mk(&set, 0);
                d.push(0);
                d.extend(mk(&o.iter().map(|i| set[*i]).collect::<Vec<_>>(), hr));
                Case::dom(d)
            })
        },
        &|c: &Case| {
            let parts: Vec<&[u8]> = c.d.split(|b| *b == 0).collect();
            let want = essence(&Case::dom(parts[0].to_vec()));
            let x = judge_same(&want)(&Case::dom(parts[1].to_vec()));
            x
        },
    );
}

// ---------------------------------------------------------------- C14

/// everything observable, with the names mapped
fn named(c: &Case, back: &BTreeMap<String, String>) -> Value {
    let m = |s: &str| back.get(s).cloned().unwrap_or_else(|| s.to_string());
    let err = |o: &Out<()>| match o {
        Out::Ok(_) => json!("ok"),
        Out::Lex { kind, lexeme, line, .. } => json!(["lexical", kind, m(lexeme), line]),
        Out::Syn { expected, found, line, .. } => json!(["syntax", expected, found.strip_prefix("Identifier ").map(|x| format!("Identifier {}", m(x))).unwrap_or(found.clone()), line]),
        Out::Sem(e, _) => {
            let t = |x: &String| x.strip_prefix('\'').map(|x| format!("'{}", m(x))).unwrap_or(x.clone());
            json!(["semantic", e.kind, m(&e.sym), e.line, e.line2, t(&e.exp), t(&e.found)])
        }
    };
    fn tree(v: &mut Value, m: &dyn Fn(&str) -> String) {
        match v {
            Value::Object(o) => o.values_mut().for_each(|x| tree(x, m)),
            Value::Array(a) => a.iter_mut().for_each(|x| tree(x, m)),
            Value::String(s) => *s = m(s),
            _ => {}
        }
    }
    let v = subject::verify(&c.d, c.p.as_ref());
    let ws: BTreeSet<(String, u32)> = match &v {
        Out::Ok(ws) => ws.iter().map(|w| (m(&w.symbol), w.line)).collect(),
        _ => BTreeSet::new(),
    };
    let j = match subject::to_json(&c.d, c.p.as_ref()) {
        Out::Ok(s) => {
            let mut v = parse_json(&s).unwrap();
            tree(&mut v, &m);
            v
        }
        o => err(&o.without_ok()),
    };
    let md = match subject::metadata(&c.d) {
        Out::Ok(x) => json!([format!("{:?}", x.class), x.nullables.iter().map(|n| m(n)).collect::<BTreeSet<_>>(), x.counts]),
        o => err(&o.without_ok()),
    };
    // which of several defects is named may depend on nothing but the text's structure; still, a
    // different one is only an alarm if there is just one
    let single = match oracle::expect(&c.d, c.p.as_deref()) {
        Some(x) => !matches!(x.exp, Exp::Sem(_, t) if t.errs.len() > 1),
        None => true,
    };
    let verdict = if single { err(&v.without_ok()) } else { json!(["semantic"]) };
    let md = if single { md } else { json!(md.is_array() && md.get(0).map(|x| x != "semantic").unwrap_or(false)) };
    json!({"verify": verdict, "warnings": ws, "json": j, "metadata": md})
}

const POOL: &[&str] = &[
    "a", "b", "aa", "aaa", "aaaa", "A", "Aa", "aA", "a1", "a2", "a10", "a-", "a--", "a-a", "a_a", "_", "__", "_a", "z", "zz", "Z9-_", "types", "action", "task", "method", "objects", "init", "goal", "htn", "typing", "strips", "requirements", "parameters", "subtasks",
    "when", "object", "number", "And", "OR", "notx", "xnot", "and-or", "forall1", "definex", "xdomain", "Problem", "problem1", "precondition", "effect", "ordering", "constraints", "line", "None", "null", "true", "Ok", "Error", "either", "total-cost", "imply-", "oneofx", "probabilistic2",
    "averyveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryverylongname",
    "averyveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryveryverylongnamf",
];

fn rename(w: &[String], map: &BTreeMap<String, String>) -> Words {
    w.iter()
        .map(|x| {
            if !is_id(x) {
                return x.clone();
            }
            let (q, n) = match x.strip_prefix('?') {
                Some(n) => ("?", n),
                None => ("", x.as_str()),
            };
            format!("{}{}", q, map.get(n).map(|s| s.as_str()).unwrap_or(n))
        })
        .collect()
}
fn names_of(d: &Words, p: &Option<Words>) -> Vec<String> {
    let mut all = d.clone();
    all.extend(p.iter().flatten().cloned());
    id_pool(&all).iter().map(|s| s.trim_start_matches('?').to_string()).collect()
}

pub fn run_c14(ctx: &mut Ctx) {
    let longest = ctx.bound(513, 2049);
    space(ctx, "long lists under other names", 0, |c| pick_long_if(c, &|n, _| n <= longest), &renamed);
    crate::feat::templates(ctx, ctx.bound(&[("world", 2), ("formulas", 1), ("networks", 2), ("lists", 2)], &[("world", 2), ("formulas", 2), ("networks", 3), ("lists", 2)]), &renamed);
    for (k, (d, p)) in bases().into_iter().enumerate() {
        let names = names_of(&d, &p);
        let base = Case { d: lay(&d), p: p.as_ref().map(|p| lay(p)) };
        let want = named(&base, &BTreeMap::new());
        let mk = |map: &BTreeMap<String, String>| Case { d: lay(&rename(&d, map)), p: p.as_ref().map(|p| lay(&rename(p, map))) };
        let judge = |c: &Case| -> Verdict {
            // the renaming is recovered by comparing the token sequences
            let mut back = BTreeMap::new();
            let cut = |b: &[u8]| String::from_utf8_lossy(b).lines().map(|s| s.to_string()).collect::<Vec<_>>();
            let (mut x, mut y) = (cut(&c.d), cut(&base.d));
            x.extend(c.p.as_deref().map(cut).unwrap_or_default());
            y.extend(base.p.as_deref().map(cut).unwrap_or_default());
            for (n, o) in x.iter().zip(&y) {
                if n != o {
                    back.insert(n.trim_start_matches('?').to_string(), o.trim_start_matches('?').to_string());
                }
            }
            let got = named(c, &back);
            if got != want {
                for key in ["verify", "warnings", "metadata", "json"] {
                    if got[key] != want[key] {
                        let (w, g) = (want[key].to_string(), got[key].to_string());
                        let at = w.bytes().zip(g.bytes()).position(|(a, b)| a != b).unwrap_or(0).saturating_sub(60);
                        let part = |s: &String| String::from_utf8_lossy(&s.as_bytes()[at.min(s.len())..(at + 160).min(s.len())]).to_string();
                        return Err(format!("{} differs (names mapped back): ...{}... with the original names, ...{}... renamed", key, part(&w), part(&g)));
                    }
                }
            }
            Ok(Some(match &got["verify"] {
                Value::Array(a) => a[0].as_str().unwrap().to_string(),
                _ => "accepted".into(),
            }))
        };
        // one name
        space(
            ctx,
            &format!("document {}: any name to any other", k),
            0,
            |c| {
                let n = c.of(&names).clone();
                let to = c.of(POOL).to_string();
                if names.contains(&to) {
                    return None;
                }
                let mk = &mk;
                Some(move || mk(&BTreeMap::from([(n, to)])))
            },
            &judge,
        );
        if k == 1 {
            // every name of one or two characters, and every name that is close to a word of the language
            let first: Vec<char> = ('a'..='z').chain('A'..='Z').chain(['_']).collect();
            let rest: Vec<char> = first.iter().copied().chain('0'..='9').chain(['-']).collect();
            let mut to: BTreeSet<String> = first.iter().map(|c| c.to_string()).collect();
            to.extend(first.iter().flat_map(|a| rest.iter().map(move |b| format!("{}{}", a, b))));
            to.extend(super::text::near_words());
            let to: Vec<String> = to.into_iter().filter(|w| w.chars().all(|c| rest.contains(&c)) && !w.starts_with(|c: char| c.is_ascii_digit() || c == '-') && !crate::model::lex::OPS.contains(&w.as_str()) && !["define", "domain", "problem"].contains(&w.as_str())).collect();
            space(
                ctx,
                &format!("document {}: any name to any short name, and to any close to a word of the language", k),
                0,
                |c| {
                    let n = c.of(&names).clone();
                    let to = c.of(&to).to_string();
                    if names.contains(&to) {
                        return None;
                    }
                    let mk = &mk;
                    Some(move || mk(&BTreeMap::from([(n, to)])))
                },
                &judge,
            );
        }
        // two names swapped, or chained into each other's places
        space(
            ctx,
            &format!("document {}: any two names exchanged", k),
            0,
            |c| {
                let i = c.pick(names.len());
                let j = c.pick(names.len());
                if i >= j {
                    return None;
                }
                let (mk, names) = (&mk, &names);
                Some(move || mk(&BTreeMap::from([(names[i].clone(), names[j].clone()), (names[j].clone(), names[i].clone())])))
            },
            &|c: &Case| {
                // exchanging needs the map from the names, not from a comparison with the original
                judge(c)
            },
        );
        // all names, by families
        let fams: &[fn(usize) -> String] = &[
            |i| format!("x{}", i),
            |i| format!("x{}", 9999 - i),
            |i| "x".repeat(i + 1),
            |i| format!("X{}", i),
            |i| {
                // differing in case only
                (0..12).map(|b| if i >> b & 1 == 1 { 'Q' } else { 'q' }).collect()
            },
            |i| format!("n{}", "-".repeat(i + 1)),
            |i| format!("{}_", "_".repeat(i)),
            |i| format!("and{}", i),
            |i| format!("{}types", "a".repeat(i)),
            |i| format!("k{}{}", "0".repeat(200), i),
            |i| format!("{}{}", ["a", "b", "c", "d", "e", "f", "g", "h"][i % 8], "z".repeat(i / 8 + 1)),
            |i| POOL[i % POOL.len()].to_string() + &"-".repeat(i / POOL.len()),
        ];
        space(
            ctx,
            &format!("document {}: all names at once", k),
            0,
            |c| {
                let f = *c.of(fams);
                let rev = c.flag();
                let rot = c.pick(names.len());
                let n = names.len();
                let (mk, names) = (&mk, &names);
                Some(move || mk(&names.iter().enumerate().map(|(i, x)| (x.clone(), f(if rev { n - 1 - (i + rot) % n } else { (i + rot) % n }))).collect()))
            },
            &judge,
        );
        // every assignment of a few names to the tasks and methods (their alphabetical order)
        let tm: Vec<String> = d.windows(2).filter(|w| w[0] == ":task" || w[0] == ":method" || w[0] == ":action").filter(|w| w[1] != "(").map(|w| w[1].clone()).collect::<BTreeSet<_>>().into_iter().collect();
        if tm.len() >= 2 {
            let m = tm.len().min(ctx.bound(6, 7));
            space(
                ctx,
                &format!("document {}: all orders of the names of tasks, methods and actions", k),
                0,
                |c| {
                    let o = c.perm(m);
                    let (mk, tm) = (&mk, &tm);
                    Some(move || mk(&o.iter().enumerate().map(|(i, x)| (tm[i].clone(), format!("n{}", x))).collect()))
                },
                &judge,
            );
        }
    }
}

// ---------------------------------------------------------------- C18

thread_local! {
    static KEYS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// The standard library takes the keys of its hash tables from here, once for each thread.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let mut x = KEYS.with(|k| k.get());
    for i in 0..len {
        // splitmix
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        *(buf as *mut u8).add(i) = (z ^ (z >> 31)) as u8;
    }
    len as libc::ssize_t
}
/// runs f with the hash keys of seed `s`
fn seeded<X: Send + 'static>(s: u64, f: impl FnOnce() -> X + Send + 'static) -> Result<X, String> {
    std::thread::Builder::new()
        .spawn(move || {
            KEYS.with(|k| k.set(s.wrapping_mul(0x2545F4914F6CDD1D)));
            f()
        })
        .unwrap()
        .join()
        .map_err(|_| "panic".to_string())
}
fn everything(c: &Case) -> Vec<String> {
    let show = |o: Out<String>| match o {
        Out::Ok(s) => s,
        o => format!("error {}", o.msg()),
    };
    let v = match subject::verify(&c.d, c.p.as_ref()) {
        Out::Ok(ws) => ws.iter().map(|w| format!("{}\n", w.msg)).collect::<String>(),
        o => format!("error {}", o.msg()),
    };
    let m = match subject::metadata2(&c.d, c.p.as_ref()) {
        Out::Ok(m) => m.text,
        o => format!("error {}", o.msg()),
    };
    vec![v, m, show(subject::to_json(&c.d, c.p.as_ref()))]
}

fn determinism_docs() -> Vec<Case> {
    let mut v: Vec<Case> = bases().into_iter().map(|(d, p)| Case { d: lay(&d), p: p.map(|p| lay(&p)) }).collect();
    // many warnings, many nullables, many cycles of each class, many errors of each kind
    let many = |f: &dyn Fn(usize) -> String, n: usize| (0..n).map(f).collect::<String>();
    let mut add = |s: String, p: Option<String>| v.push(Case { d: lay(&words(&s)), p: p.map(|p| lay(&words(&p))) });
    add(format!("(define (domain d) {})", many(&|i| format!("(:task t{} :parameters ()) ", i), 6)), None);
    add(format!("(define (domain d) {})", many(&|i| format!("(:task t{0} :parameters ()) (:method m{0} :parameters () :task (t{0}) :subtasks ()) ", i), 6)), None);
    for net in [":subtasks (t{})", ":ordered-subtasks (and (t{}) (a))", ":ordered-subtasks (and (a) (t{}))", ":ordered-subtasks (and (e) (t{}) (e))"] {
        let e = "(:action a :parameters ()) (:task e :parameters ()) (:method me :parameters () :task (e) :subtasks ()) ";
        // four loops of one step; two cycles of three steps; complete graph of four
        add(format!("(define (domain d) {e} {})", many(&|i| format!("(:task t{i} :parameters ()) (:method m{i} :parameters () :task (t{i}) {}) ", net.replace("{}", &i.to_string())), 4)), None);
        add(format!("(define (domain d) {e} {})", many(&|i| format!("(:task t{i} :parameters ()) (:method m{i} :parameters () :task (t{i}) {}) ", net.replace("{}", &(i / 3 * 3 + (i + 1) % 3).to_string())), 6)), None);
        add(format!("(define (domain d) {e} {})", many(&|i| format!("(:task t{i} :parameters ()) {} ", many(&|j| format!("(:method m{i}{j} :parameters () :task (t{i}) {}) ", net.replace("{}", &j.to_string())), 4)), 4)), None);
        // parallel methods
        add(format!("(define (domain d) {e} (:task t0 :parameters ()) {})", many(&|i| format!("(:method m{i} :parameters () :task (t0) {}) ", net.replace("{}", "0")), 5)), None);
    }
    add(format!("(define (domain d) (:constants {0} {0}) (:predicates (p)))", many(&|i| format!("k{} ", i), 6)), None);
    add(format!("(define (domain d) (:predicates {0} {0}))", many(&|i| format!("(k{}) ", i), 6)), None);
    add(format!("(define (domain d) {0} {0})", many(&|i| format!("(:action k{} :parameters ()) ", i), 6)), None);
    add(format!("(define (domain d) {0} {0})", many(&|i| format!("(:task k{} :parameters ()) ", i), 6)), None);
    add(format!("(define (domain d) (:task t :parameters ()) {0} {0})", many(&|i| format!("(:method k{} :parameters () :task (t) :subtasks ()) ", i), 6)), None);
    add(format!("(define (domain d) (:action a :parameters ({0} {0})))", many(&|i| format!("?k{} ", i), 6)), None);
    add(format!("(define (domain d) (:requirements {0} {0}))", many(&|i| format!(":{} ", crate::model::lex::REQS[i].0), 8)), None);
    add(format!("(define (domain d) (:predicates {}))", many(&|i| format!("(p{i} ?x - z{i}) "), 6)), None);
    add(format!("(define (domain d) (:action a :parameters () :precondition (and {})))", many(&|i| format!("(p{i} ?x) "), 6)), None);
    add(format!("(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :subtasks (and {})))", many(&|i| format!("(z{i}) "), 6)), None);
    add(format!("(define (domain d) (:predicates (p ?x)) {})", many(&|i| format!("(:action a{i} :parameters (?x ?y) :precondition (p ?x ?y) :effect (p)) "), 5)), None);
    add(format!("(define (domain d) (:types {}) (:predicates {}) (:action a :parameters (?x - t0) :precondition (and {})))", many(&|i| format!("t{i} "), 6), many(&|i| format!("(p{i} ?x - t{i}) "), 6), many(&|i| format!("(p{i} ?x) "), 6)), None);
    add(format!("(define (domain d) (:types {}))", many(&|i| format!("t{i} - t{} ", (i + 1) % 6), 6)), None);
    add("(define (domain d) (:predicates (p ?x)))".into(), Some(format!("(define (problem p) (:domain d) (:objects {0} {0}) (:init {1}))", many(&|i| format!("o{i} "), 6), many(&|i| format!("(z{i} o) "), 6))));
    add("(define (domain d) (:predicates (p ?x)))".into(), Some(format!("(define (problem p) (:domain d) (:objects {0}) (:init {1}) (:goal (and {1})))", many(&|i| format!("o{i} - z{i} "), 6), many(&|i| format!("(p z{i}) "), 6))));
    add("(define (domain d) (:predicates (p ?x)) (:task t :parameters ()) (:task u :parameters ()) (:task w :parameters ()))".into(), Some(format!("(define (problem p) (:domain d) (:objects o) (:htn :parameters () :subtasks (and {})))", many(&|i| format!("(i{i} (t)) "), 6))));
    v
}

/// the answers of a process that has seen nothing else
fn fresh(c: &Case, dir: &std::path::Path) -> Result<Vec<String>, String> {
    Ok(in_turn(&[c], dir)?.remove(0))
}
/// the answers of one process that is given these files one after another
fn in_turn(cs: &[&Case], dir: &std::path::Path) -> Result<Vec<Vec<String>>, String> {
    let file = dir.join("in_turn");
    let all: Vec<(&Vec<u8>, &Option<Vec<u8>>)> = cs.iter().map(|c| (&c.d, &c.p)).collect();
    std::fs::write(&file, serde_json::to_vec(&all).unwrap()).map_err(|e| e.to_string())?;
    let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("answer").arg(&file).output().map_err(|e| e.to_string())?;
    serde_json::from_slice(&o.stdout).map_err(|_| format!("a process ends with {:?} {}", o.status, String::from_utf8_lossy(&o.stderr)))
}
pub fn answer(file: &str) {
    let all: Vec<(Vec<u8>, Option<Vec<u8>>)> = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let got = seeded(1, move || all.into_iter().map(|(d, p)| everything(&Case { d, p })).collect::<Vec<_>>()).unwrap_or_default();
    println!("{}", serde_json::to_string(&got).unwrap());
}
fn call(api: usize, d: &Case) {
    match api {
        0 => drop(subject::verify(&d.d, d.p.as_ref())),
        1 => drop(subject::metadata2(&d.d, d.p.as_ref())),
        _ => drop(subject::to_json(&d.d, d.p.as_ref())),
    }
}

pub fn run_c18(ctx: &mut Ctx) {
    // how far do the seeds reach? every order of iteration over a small set must be among them
    let seeds = ctx.bound(400u64, 3000);
    let mut orders = BTreeSet::new();
    for s in 0..seeds {
        let o = seeded(s, || ["t0", "t1", "t2", "t3"].iter().cloned().collect::<std::collections::HashSet<&str>>().into_iter().collect::<Vec<_>>()).unwrap();
        orders.insert(o);
    }
    if orders.len() < 24 {
        // the seeds do not govern the hash tables of this build: the space below would be empty talk
        ctx.caps.push(format!("only {} of 24 iteration orders of a four-element set are reached", orders.len()));
    }
    let docs = determinism_docs();
    let dir = ctx.scratch.clone();
    let refs: Vec<Vec<String>> = docs.iter().map(|c| fresh(c, &dir).unwrap_or_else(|e| vec![e; 3])).collect();
    let step = 20usize;
    ctx.explore("every document under every seed of the hash tables", 0, |c, ctx| {
        let k = c.pick(docs.len());
        let block = c.pick(seeds as usize / step);
        if !ctx.mine() {
            return;
        }
        let doc = docs[k].clone();
        ctx.case(&(k, block), || docs[k].show(), || {
            for s in 0..step {
                let seed = (block * step + s) as u64;
                let d = doc.clone();
                let got = seeded(seed, move || everything(&d))?;
                for (i, api) in ["verify", "metadata", "to_json"].iter().enumerate() {
                    if got[i] != refs[k][i] {
                        return Err(format!("{} gives under hash seed {}:\n{}\nand under seed 1:\n{}", api, seed, got[i], refs[k][i]));
                    }
                }
            }
            Ok("same".into())
        });
    });
    // every feature of the language, under some seeds
    crate::feat::templates(ctx, ctx.bound(&[("world", 1), ("networks", 2), ("lists", 1)], &[("world", 2), ("formulas", 1), ("networks", 3), ("lists", 2)]), &|c: &Case| {
        let d = c.clone();
        let first = seeded(1, move || everything(&d))?;
        for seed in 2..14 {
            let d = c.clone();
            let got = seeded(seed, move || everything(&d))?;
            if got != first {
                return Err(format!("under hash seed {} the answers are {:?}, under seed 1 {:?}", seed, got, first));
            }
        }
        Ok(Some("same".into()))
    });
    // histories: any sequence of other calls before, in the same thread
    let hist = ctx.bound(2, 3);
    let menu: Vec<usize> = (0..docs.len()).filter(|i| *i < 14 || i % 3 == 0).collect();
    ctx.explore("every document after every history of calls", 0, |c, ctx| {
        let k = c.pick(docs.len());
        let h: Vec<(usize, usize)> = (0..hist - 1).map(|_| (menu[c.pick(menu.len())], c.pick(3))).collect();
        if !ctx.mine() {
            return;
        }
        ctx.case(&(k, h.clone()), || format!("after {:?}: {}", h, docs[k].show()), || {
            for (d, api) in &h {
                call(*api, &docs[*d]);
            }
            let got = everything(&docs[k]);
            let again = everything(&docs[k]);
            if got != refs[k] || again != refs[k] {
                return Err(format!("differs after {:?}: {:?} instead of {:?}", h, got, refs[k]));
            }
            Ok("same".into())
        });
    });
    // histories: a document that differs in one name or group before, in the same and in another thread
    let mut close: Vec<(Case, Vec<(Words, Option<Words>)>)> = vec![];
    for (k, (d, p)) in pairs().into_iter().enumerate() {
        if k == 0 && !ctx.thorough() {
            continue;
        }
        let mut w = d.clone();
        w.push("\u{1}".into());
        w.extend(p.clone());
        let mut pool = id_pool(&w);
        pool.push("zz".into());
        let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
        let split = |x: &[String]| {
            let at = x.iter().position(|s| s == "\u{1}").unwrap_or(x.len());
            (x[..at].to_vec(), x.get(at + 1..).map(|p| p.to_vec()))
        };
        let near = name_edits(&w, &pool).iter().map(|e| split(&apply(&w, &[e]))).collect();
        close.push((Case { d: lay(&d), p: Some(lay(&p)) }, near));
    }
    ctx.explore("every document before and after every close one", 0, |c, ctx| {
        let k = c.pick(close.len());
        let e = c.pick(close[k].1.len());
        if !ctx.mine() {
            return;
        }
        let (base, near) = (&close[k].0, &close[k].1[e]);
        let near = Case { d: lay(&near.0), p: near.1.as_ref().map(|p| lay(p)) };
        ctx.case(&(k, e), || format!("{}\nbefore and after\n{}", near.show(), base.show()), || {
            let (b, n) = (fresh(base, &dir)?, fresh(&near, &dir)?);
            let alone = |c: &Case| Case { d: c.d.clone(), p: None };
            let (ba, na) = (alone(base), alone(&near));
            let (bw, nw) = (fresh(&ba, &dir)?, fresh(&na, &dir)?);
            // processes that have seen only the other one before
            for (turn, want) in [([base, &near], [&b, &n]), ([&near, base], [&n, &b]), ([&ba, &na], [&bw, &nw]), ([&na, &ba], [&nw, &bw])] {
                let got = in_turn(&turn, &dir)?;
                if got[0] != *want[0] || got[1] != *want[1] {
                    return Err(format!("one after the other in one process gives {:?}, each in its own {:?}", got, want));
                }
            }
            for (first, second, want) in [(&near, base, &b), (base, &near, &n)] {
                for api in 0..3 {
                    call(api, first);
                    let got = everything(second);
                    if got != *want {
                        return Err(format!("differs after call {} on the other document: {:?} instead of {:?}", api, got, want));
                    }
                }
                let (f, g) = (first.clone(), second.clone());
                let got = seeded(7, move || {
                    everything(&f);
                    everything(&g)
                })?;
                if got != *want {
                    return Err(format!("differs in another thread after the other document: {:?} instead of {:?}", got, want));
                }
            }
            Ok("same".into())
        });
    });
    // other processes: the repository's own binary
    let bin = std::env::current_exe().unwrap().with_file_name("hddl_cli");
    let runs = 2 * ctx.bound(9, 18);
    ctx.explore("other processes", 0, |c, ctx| {
        let k = c.pick(docs.len());
        let cmd = c.pick(3);
        if !ctx.mine() {
            return;
        }
        let dir = ctx.scratch.clone();
        ctx.case(&(k, cmd), || docs[k].show(), || {
            let mut outs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
            for run in 0..runs {
                // the names of the files, the folder and the environment do not matter
                let (df, pf) = [("d.hddl", "p.hddl"), ("problem.pddl", "domain.pddl"), ("x", "y"), ("sub/d.hddl", "p.txt"), ("d d.hddl", "\u{e4}.hddl")][run % 5];
                let (df, pf) = (dir.join(df), dir.join(pf));
                let _ = std::fs::create_dir_all(dir.join("sub"));
                std::fs::write(&df, &docs[k].d).unwrap();
                let mut p = std::process::Command::new(&bin);
                p.current_dir(if run % 4 == 3 { std::path::Path::new("/") } else { &dir }).arg(["verify", "metadata", "to_json"][cmd]).arg(&df);
                match run % 6 {
                    1 => drop(p.env_clear()),
                    2 => drop(p.env("LC_ALL", "tr_TR.UTF-8").env("LANG", "tr_TR.UTF-8").env("TZ", "Asia/Tokyo")),
                    3 => drop(p.env("RUST_LOG", "trace").env("RUST_BACKTRACE", "full").env("DEBUG", "1")),
                    4 => drop(p.env("NO_COLOR", "1").env("TERM", "dumb").env("COLUMNS", "20")),
                    5 => drop(p.env("HOME", "/nowhere").env("TMPDIR", "/nowhere").env("USER", "other")),
                    _ => {}
                }
                if let Some(x) = &docs[k].p {
                    std::fs::write(&pf, x).unwrap();
                    p.arg("-p").arg(&pf);
                }
                let o = p.output().map_err(|e| e.to_string())?;
                outs.push((o.stdout, o.stderr));
            }
            if outs.iter().any(|o| *o != outs[0]) {
                return Err(format!("two processes print differently: {} / {}", String::from_utf8_lossy(&outs[0].0), String::from_utf8_lossy(&outs.iter().find(|o| **o != outs[0]).unwrap().0)));
            }
            // and the same as the library does here
            let text = format!("{}{}", String::from_utf8_lossy(&outs[0].0), String::from_utf8_lossy(&outs[0].1));
            let want = refs[k][cmd].strip_prefix("error ").unwrap_or(&refs[k][cmd]);
            if !want.is_empty() && cmd != 0 && !text.contains(want) {
                return Err(format!("the process prints {} where the library gives {}", text, want));
            }
            Ok("same".into())
        });
    });
}
