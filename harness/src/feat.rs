//! Templates: whole documents with a slot for every feature of the language. An execution takes the
//! plain filling everywhere except in as many slots as its budget of deviations allows.
use crate::docs::*;
use crate::engine::*;
use crate::oracle::Verdict;

pub enum Node {
    Text(String),
    Slot(Vec<Vec<Node>>),
}

/// `{plain|other|...}` is a slot; slots nest
pub fn compile(s: &str) -> Vec<Node> {
    fn seq(b: &mut std::iter::Peekable<std::str::Chars>, top: bool) -> Vec<Node> {
        let mut out = vec![];
        let mut text = String::new();
        while let Some(c) = b.peek().copied() {
            match c {
                '{' => {
                    b.next();
                    out.push(Node::Text(std::mem::take(&mut text)));
                    let mut alts = vec![];
                    loop {
                        alts.push(seq(b, false));
                        if b.next() == Some('}') {
                            break;
                        }
                    }
                    out.push(Node::Slot(alts));
                }
                '|' | '}' if !top => break,
                c => {
                    b.next();
                    text.push(c);
                }
            }
        }
        out.push(Node::Text(text));
        out
    }
    seq(&mut s.chars().peekable(), true)
}
fn choose(c: &mut Chooser, ns: &[Node], out: &mut Vec<u16>) {
    for n in ns {
        if let Node::Slot(alts) = n {
            let i = c.deviate(alts.len());
            out.push(i as u16);
            choose(c, &alts[i], out);
        }
    }
}
fn fill(ns: &[Node], at: &mut std::slice::Iter<u16>, out: &mut String) {
    for n in ns {
        match n {
            Node::Text(t) => out.push_str(t),
            Node::Slot(alts) => {
                let i = *at.next().unwrap() as usize;
                fill(&alts[i], at, out)
            }
        }
    }
}
pub fn slots(ns: &[Node]) -> (usize, usize) {
    let mut r = (0, 0);
    for n in ns {
        if let Node::Slot(alts) = n {
            r.0 += 1;
            r.1 += alts.len() - 1;
            for a in alts {
                let x = slots(a);
                r.0 += x.0;
                r.1 += x.1;
            }
        }
    }
    r
}

/// domain and problem (after a `%`), types, constants, all kinds of declarations and uses
const WORLD: &str = "(define (domain {d|typing|D-1})
 {|(:requirements)|(:requirements :typing)|(:requirements :typing :hierarchy :strips)|(:requirements :strips :strips)|(:requirements :typing) (:requirements :typing)|(:requirements :equality) (:requirements :hierarchy :equality)}
 (:types {|object|x|x - y|a - o} a b - c {c - o|c|c d - o|c - o e - object} {|e - a|c - a|a - a|o - a|e - f f - e|b - a|e|x - zz|c - e|object - a|a - o e - b|a - b|f - zz b - f})
 {|(:types)|(:types g - b)|(:types o - g g - c)|(:types o)|(:types c - object)}
 (:constants k - a {l|l - c|l - zz|l - o|k|l k|k - b|l - b|l n|l - object})
 {|(:constants)|(:constants n - e)|(:constants l)|(:constants n - a k)|(:constants n - c m)}
 (:predicates (q) (p ?x - c) {(r ?x ?y)|(r ?x - a ?y)|(r ?x ?y - a)|(r ?x ?x)|(r ?x - zz ?y)|(r)|(p)|(q ?z)|(r ?x - a ?y - c)|(r ?x)|(r ?x ?y ?z)} {|(s ?x - b)|(q)|(a ?c)|(t)|(k ?k - a)|(s ?x - object)|(r ?x - a)})
 {|(:predicates)|(:predicates (s))|(:predicates (r ?x ?y))|(:predicates (s ?x - zz))}
 {|(:functions)|(:functions (f))|(:functions (f ?x - a ?y) (g))|(:functions (q))|(:functions (f) (f))}
 (:task t :parameters ({?x - a|?x|?x - c|?x - o|?x - b}))
 (:task u :parameters ({|?x|?x - c|?x ?x|?x - zz|?x - a ?x - c|?x - a ?y - b}))
 {|(:task v :parameters ())|(:task u :parameters ())|(:task t :parameters (?x - a))|(:task act :parameters ())|(:task v :parameters (?y - o))|(:task m :parameters ())|(:task q :parameters (?q))}
 (:method m :parameters ({?x - a ?y|?x - a|?x - b ?y|?x ?y|?x - c ?y|?x - a ?y ?x|?x - a ?y ?x - c|?x - zz ?y|?x ?x|?x - o ?y|?x - a ?k|?x - e ?y}) :task ({t ?x|t|t ?x ?x|t ?y|t k|t l|t zz|zz ?x|act ?x|u|u ?x|m ?x|p ?x})
  {:precondition (p ?x)||:precondition ()|:precondition (and (p ?x) (q))|:precondition (r ?y l)|:precondition (p ?y)|:precondition (p l)|:precondition (zz)|:precondition (p)|:precondition (not (p k))|:precondition (or (q) (p zz))|:precondition (forall (?z - a) (p ?z))|:precondition (forall (?z) (p ?z ?z))|:precondition (exists (?z - b) (zz ?z))|:precondition (= ?x k)|:precondition (not (= ?x zz))|:precondition (oneof (q) (p k ?x))|:precondition (t ?x)}
  {:subtasks|:tasks|:ordered-subtasks|:ordered-tasks}
  {(and (i (act ?x)) (j (u)))|()|(and)|(act ?x)|(i (act ?x))|(and (act ?x) (u))|(and (i (act ?x)) (u) (j (u)))|(and (i (act ?x)) (j (t ?x)))|(and (i (act ?y)) (j (u)))|(and (i (act)) (j (u)))|(and (i (act k)) (j (u)))|(and (i (u)) (j (act l)))|(and (i (zz)) (j (u)))|(and (i (u)) (j (t)))|(and (i (u)) (j (act ?x ?x)))|(and (i (u)) (j (act zz)))|(and (i (u k)) (j (u)))|(and (i (m)) (j (u)))|(and (i (p ?x)) (j (u)))|(and (i (u)) (j (u)) (h (noop)))}
  {|:ordering (and (< i j))|:ordering ()|:order (< i j)|:ordering (and (< i j) (< j i))|:ordering (< i i)|:ordering (and (< i j)) :ordering (< j i)|:ordering (< i j) :ordering (< i j)|:ordering (< j i)|:ordering (and (< zz yy))|:ordering (and (< i j j))}
  {|:constraints ()|:constraints (= ?x k)|:constraints (and (not (= ?x zz)) (= k k))|:constraints (not (= ?x ?y))|:constraints (and)}
  {|:ordering (< j i)|:constraints (= a b)})
 (:method {n|m|t|act} :parameters ({|?x - a|?x ?x|?x - b ?y}) :task ({u|u k|t k|zz|v|t ?x}) {:ordered-subtasks ()|:subtasks (and (act k) (u))|:precondition (q)|:subtasks (u)|:ordered-subtasks (and (u) (noop))|:precondition (zz) :tasks ()|:subtasks (and (i (u)) (j (u))) :ordering (and (< j i) (< i j))})
 {|(:method h :parameters (?x - a) :task (t ?x) :subtasks ())|(:method m :parameters () :task (u) :subtasks (noop))|(:method h :parameters (?z - c) :task (t ?z) :ordered-subtasks (and (act ?z)))|(:method h :parameters () :task (u) :precondition (p k))}
 (:action act :parameters ({?z - c|?z|?z - a|?z - o|?z ?z|?z - a ?y|?z - c ?w - c ?z - c||?z - zz})
  {|:precondition (p ?z)|:precondition ()|:precondition (and (q) (p k))|:precondition (r ?z l)|:precondition (zz)|:precondition (p zz)|:precondition (or (p k k))|:precondition (not (p l))|:precondition (forall (?g - a) (and (p ?g) (zz)))|:precondition (exists (?g) (p ?g))|:precondition (= ?z k)|:precondition (act ?z)}
  {|:effect (not (p ?z))|:effect ()|:effect (and (q) (not (p k)))|:effect (r l l)|:effect (probabilistic 0.5 (q) 0.25 (p ?z))|:effect (probabilistic 1 (zz))|:effect (oneof (q) (p))|:effect (and (p ?z) (r k l))|:effect (s ?z)|:effect (p ?x)})
 {(:action noop :parameters ())|(:action noop :parameters ()) (:action b :parameters (?x - b) :effect (p ?x))|(:action noop :parameters (?x))|(:action act :parameters ())|(:action noop :parameters ()) (:action noop :parameters ())|(:action noop :parameters () :effect (p ?z))|(:action t :parameters ())|(:action noop :parameters (?k - b) :precondition (p ?k))}
)%
(define (problem {p|d|typing}) (:domain {d|zz})
 {|(:requirements :typing)|(:requirements :typing :typing)|(:requirements)}
 (:objects {o1 - a|o1 - b|o1 - zz|o1 - c|o1 - o} {o2|o2 - a|o1|o2 - o|o2 o1|k - a|o2 o3 - e})
 {|(:objects o3 - b)|(:objects o1)|(:objects)|(:objects o3 o2)|(:objects k2 - object)}
 {(:htn {|:parameters ()|:parameters (?h - a)|:parameters (?h ?h2)|:parameters (?h - zz)|:parameters (?h ?h)|:parameters (?h - b ?i)} {:subtasks|:tasks|:ordered-subtasks|:ordered-tasks}
   {(and (i (t o1)) (j (act k)))|()|(t o1)|(i (t o1))|(and (i (t ?h)) (j (act ?h)))|(and (i (t)) (j (act k)))|(and (i (zz)) (j (u)))|(and (i (u)) (j (t zz)))|(and (i (u)) (j (act l)))|(and (i (u)) (j (act o1 o1)))|(and (i (t o2)) (j (u)))|(and (u) (u) (noop))|(and (i (m)) (j (u)))|(and (i (u)) (j (p k)))}
   {|:ordering (and (< i j))|:ordering (< j i)|:ordering (and (< i j) (< j i))|:order ()|:ordering (< i j) :ordering (< j i)|:ordering (< zz zz)}
   {|:constraints (= o1 k)|:constraints ()|:constraints (and (= zz k) (not (= k k)))})||(:htn :parameters ())|(:htn)}
 {(:init (p o1) (r l o2))||(:init)|(:init (zz))|(:init (p))|(:init (p zz))|(:init (q) (q) (p o1))|(:init (p o1 o1))|(:init (p o2))|(:init (r o1 o2))|(:init (p k) (p l))|(:init (p o1)) (:init (r l zz))|(:init (= o1 o1))|(:init (r o2 l) (s o1))}
 {(:goal (p o1))||(:goal)|(:goal ())|(:goal (and (p o1) (not (q))))|(:goal (zz))|(:goal (or (p) (q)))|(:goal (not (p zz)))|(:goal (p l))|(:goal (forall (?g - a) (p ?g)))|(:goal (forall (?g) (zz ?g)))|(:goal (exists (?g - b) (and (p ?g ?g))))|(:goal (= o1 zz))|(:goal (and (and (r l o2)) (r o1 o2)))|(:goal (oneof (q) (p o2)))|(:goal (q)) (:goal (q))}
)";

/// formulas in every place
const FORMULAS: &str = "(define (domain d) (:types a - c b - c) (:constants k - a l) (:predicates (q) (p ?x - c) (r ?x ?y - a))
 (:task t :parameters (?x - a)) (:method m :parameters (?x - a ?u) :task (t ?x) :precondition @2 :subtasks (n ?x))
 (:action n :parameters (?x - c) :precondition @2 :effect @3))%
(define (problem p) (:domain d) (:objects o - a w) (:init (p o)) (:goal @4))";

fn formulas() -> String {
    let atoms = |x: &str, u: &str| format!("{{(p {x})|(q)|(p k)|(p)|(p {x} {x})|(zz {x})|(p zz)|(p l)|(p {u})|(r l k)|(r k k)|(r {u} k)|(q k)|(= {x} k)|(= zz {x})|()}}");
    let level = |a: &str, f: &str| format!("{{{a}|(and)|(and {f})|(or {f} {f})|(not {f})|(oneof {f} {f})|(forall (?g - a) {f})|(exists (?g ?x) {f})|(probabilistic 0.5 {f})|(probabilistic 0.2 {f} 0.8 {f})}}");
    let mk = |x: &str, u: &str| {
        let a = atoms(x, u);
        let f1 = level(&a, &a);
        format!("(and {f1} (not {a}) (or {a} {f1}))")
    };
    FORMULAS.replace("@2", &mk("?x", "?u")).replace("@3", &mk("?x", "l")).replace("@4", &mk("o", "w"))
}

/// task networks: what the analyses of decompositions look at, in every way of writing it
fn networks() -> String {
    let nets = [
        ":subtasks ()", ":ordered-subtasks ()", ":precondition (q)", ":precondition () :tasks (and)", ":ordered-tasks (and)",
        ":subtasks (a)", ":subtasks (i (a))", ":subtasks (t)", ":ordered-subtasks (u)", ":tasks (e)",
        ":ordered-subtasks (and (e) (t))", ":ordered-subtasks (and (t) (e))", ":ordered-subtasks (and (a) (t))", ":ordered-tasks (and (i (t)) (j (a)))", ":ordered-subtasks (and (e) (u) (e))",
        ":subtasks (and (t) (e))", ":subtasks (and (i (u)) (j (a)))", ":subtasks (and (i (e)) (j (t))) :ordering (< i j)", ":subtasks (and (i (a)) (j (t))) :ordering (and (< j i))",
        ":subtasks (and (i (a)) (j (e)) (h (t))) :ordering (and (< i j) (< j h))", ":subtasks (and (i (e)) (j (e)) (h (u))) :ordering (and (< i h)) :ordering (< j h)", ":subtasks (and (i (e)) (u)) :constraints (= i j)",
        ":ordered-subtasks (and (u) (a)) :constraints (not (= x y))", ":precondition (q) :ordered-subtasks (and (u) (u))", ":subtasks (and (i (u)) (j (t))) :constraints (and (= x x)) :ordering (and (< j i))", ":ordered-subtasks (and (w) (t))", ":subtasks (w)",
    ];
    let slot = |base: &str| format!("{{{}|{}}}", base, nets.join("|"));
    let extra = |i: usize| format!("{{|(:method x{i} :parameters () :task ({{t|u|e|w}}) {})}}", slot(":subtasks ()"));
    format!(
        "(define (domain d) (:predicates (q)) {{(:task t :parameters ())|}} (:task u :parameters ()) (:method m1 :parameters () :task (t) {}) (:task e :parameters ()) {} (:task w :parameters ()) (:method m2 :parameters () :task ({{u|t|e|w}}) {}) (:action a :parameters ()) (:method m3 :parameters () :task ({{e|t|u|w}}) {}) {} {{(:action b :parameters ())|(:task v :parameters ())|(:task v :parameters ()) (:method mv :parameters () :task (v) :subtasks (and (e) (t)))|}})",
        slot(":ordered-subtasks (and (e) (u))"),
        extra(1),
        slot(":subtasks (a)"),
        slot(":subtasks ()"),
        extra(2),
    )
}

/// lists of declarations, every item typed or not, repeated or not, in one section or two
fn lists() -> String {
    let item = |n: &str, others: &[&str]| {
        let mut alts = vec![n.to_string()];
        for x in std::iter::once(&n).chain(others) {
            for t in ["", " - a", " - b", " - zz"] {
                if (*x, t) != (n, "") {
                    alts.push(format!("{}{}", x, t));
                }
            }
        }
        alts.push(String::new());
        format!("{{{}}}", alts.join("|"))
    };
    let par = |p: &str| format!("{} {} {}", item(&format!("?{p}1"), &[&format!("?{p}2")]), item(&format!("?{p}2"), &[&format!("?{p}1")]), item(&format!("?{p}3"), &[&format!("?{p}1"), &format!("?{p}2")]));
    format!(
        "(define (domain d) (:requirements :typing) (:types a b - c {{|a - d|b|c}}) (:constants {} {}{{|) (:constants}} {})
         (:predicates (p {{|?x}}) {{(q)|(p)|(p ?y - a)|(q ?x ?x)}}{{|) (:predicates}} {{(r)|(p)|(q)|(r ?x - b)}})
         (:task {{t1|t2}} :parameters ({})) (:task {{t2|t1}} :parameters ())
         (:method {{m1|m2}} :parameters ({}) :task (t2) :subtasks ()) (:method {{m2|m1}} :parameters () :task (t2) :precondition ())
         (:action {{n1|n2}} :parameters ({})) (:action {{n2|n1|t1}} :parameters ({{|?x}})))%
         (define (problem p) (:domain d) (:objects {} {}{{|) (:objects}} {}) {{|(:htn :parameters (?h {{?i|?h|?h - a}}) :subtasks ())}})",
        item("k1", &["k2"]),
        item("k2", &["k1"]),
        item("k3", &["k1", "k2"]),
        par("t"),
        par("m"),
        par("n"),
        item("o1", &["o2"]),
        item("o2", &["o1"]),
        item("o3", &["o1", "o2"]),
    )
}

pub fn all() -> Vec<(&'static str, String)> {
    vec![("world", WORLD.to_string()), ("formulas", formulas()), ("networks", networks()), ("lists", lists())]
}

/// the choices of a filling; how to write it down
pub fn pick<'a>(c: &mut Chooser, d: &'a [Node], p: Option<&'a [Node]>) -> impl FnOnce() -> Case + 'a {
    let (mut x, mut y) = (vec![], vec![]);
    choose(c, d, &mut x);
    if let Some(p) = p {
        choose(c, p, &mut y);
    }
    move || {
        let mk = |n: &[Node], x: &[u16]| {
            let mut s = String::new();
            fill(n, &mut x.iter(), &mut s);
            lay(&words(&s))
        };
        Case { d: mk(d, &x), p: p.map(|p| mk(p, &y)) }
    }
}
/// every filling of the template with at most `budget` deviations from the plain one
pub fn template(ctx: &mut Ctx, name: &str, text: &str, budget: usize, judge: &dyn Fn(&Case) -> Verdict) {
    let (d, p) = match text.split_once('%') {
        Some((d, p)) => (compile(d), Some(compile(p))),
        None => (compile(text), None),
    };
    let n = slots(&d);
    let m = p.as_ref().map(|p| slots(p)).unwrap_or((0, 0));
    space(
        ctx,
        &format!("template {} ({} slots, {} other fillings), up to {} deviations", name, n.0 + m.0, n.1 + m.1, budget),
        budget,
        |c| {
            Some(pick(c, &d, p.as_deref()))
        },
        judge,
    );
}
pub fn templates(ctx: &mut Ctx, budgets: &[(&str, usize)], judge: &dyn Fn(&Case) -> Verdict) {
    for (name, text) in all() {
        if let Some((_, b)) = budgets.iter().find(|x| x.0 == name) {
            template(ctx, name, &text, *b, judge);
        }
    }
}
