//! Model of the semantic rules: every true defect of a domain / problem.
use super::grammar::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// A defect. `alt` is a second admissible name (type errors may name the argument or the symbol).
#[derive(Clone, Debug, PartialEq, Default)]
pub struct SE {
    pub kind: &'static str,
    pub sym: String,
    pub alt: Option<String>,
    pub line: u32,
    pub line2: u32,
    pub exp: String,
    pub found: String,
}

impl SE {
    pub fn same_fact(&self, model: &SE) -> bool {
        self.kind == model.kind
            && (self.sym == model.sym || Some(&self.sym) == model.alt.as_ref())
            && self.line == model.line
            && self.line2 == model.line2
            && self.exp == model.exp
            && self.found == model.found
    }
    pub fn same_kind_and_symbol(&self, model: &SE) -> bool {
        self.kind == model.kind && (self.sym == model.sym || Some(&self.sym) == model.alt.as_ref())
    }
}

#[derive(Clone, Debug, Default)]
pub struct Truth {
    pub errs: Vec<SE>,
    /// a name has two meanings in one scope: which one counts is not specified
    pub ambiguous: bool,
}

pub struct Types {
    parents: BTreeMap<String, BTreeSet<String>>,
}
impl Types {
    pub fn new(d: &Domain) -> Types {
        let mut parents: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
        for t in &d.types {
            parents.entry(t.name.clone()).or_default();
            if let Some((p, _)) = &t.ty {
                parents.entry(p.clone()).or_default();
                parents.get_mut(&t.name).unwrap().insert(p.clone());
            }
        }
        Types { parents }
    }
    /// strict supertypes, by one or more steps
    fn above(&self, t: &str) -> BTreeSet<&str> {
        let mut seen: BTreeSet<&str> = BTreeSet::new();
        let mut todo: Vec<&str> = self.parents.get(t).into_iter().flatten().map(|s| s.as_str()).collect();
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                todo.extend(self.parents.get(x).into_iter().flatten().map(|s| s.as_str()));
            }
        }
        seen
    }
    fn cyclic(&self) -> bool {
        cyclic(self.parents.iter().flat_map(|(t, ps)| ps.iter().map(move |p| (t.as_str(), p.as_str()))))
    }
    fn declared(&self, t: &str) -> bool {
        self.parents.contains_key(t)
    }
    fn fits(&self, found: &Option<String>, exp: &Option<String>) -> bool {
        match (found, exp) {
            (None, None) => true,
            (Some(f), Some(e)) => f == e || self.above(f).contains(e.as_str()),
            _ => false,
        }
    }
}

fn ty(s: &Sym) -> Option<String> {
    s.ty.as_ref().map(|t| t.0.clone())
}
fn show(t: &Option<String>) -> String {
    match t {
        Some(t) => format!("'{}", t),
        None => String::new(),
    }
}

fn dups<'x>(kind: &'static str, items: impl Iterator<Item = (&'x str, u32)>, errs: &mut Vec<SE>) {
    let mut at: BTreeMap<&str, Vec<u32>> = BTreeMap::new();
    for (n, l) in items {
        at.entry(n).or_default().push(l);
    }
    for (n, l) in at {
        if l.len() > 1 {
            errs.push(SE { kind, sym: n.into(), line: l[0], line2: l[1], ..Default::default() });
        }
    }
}

/// what is before nothing is taken away, as long as there is such a thing: what is left is on a cycle, or before one
fn cyclic<'x>(pairs: impl Iterator<Item = (&'x str, &'x str)>) -> bool {
    let mut before: HashMap<&str, Vec<&str>> = HashMap::new();
    let mut after: HashMap<&str, usize> = HashMap::new();
    for (a, b) in pairs {
        before.entry(b).or_default().push(a);
        *after.entry(a).or_default() += 1;
        after.entry(b).or_default();
    }
    let mut todo: Vec<&str> = after.iter().filter(|x| *x.1 == 0).map(|x| *x.0).collect();
    while let Some(x) = todo.pop() {
        after.remove(x);
        for a in before.get(x).into_iter().flatten() {
            let n = after.get_mut(a).unwrap();
            *n -= 1;
            if *n == 0 {
                todo.push(a);
            }
        }
    }
    !after.is_empty()
}
pub fn cyclic_relation(ords: &[(String, String)]) -> bool {
    cyclic(ords.iter().map(|(a, b)| (a.as_str(), b.as_str())))
}

/// what stands behind each name
type Index<'a, T> = HashMap<&'a str, Vec<T>>;
fn index<'a, T>(items: impl Iterator<Item = (&'a str, T)>) -> Index<'a, T> {
    let mut m: Index<T> = HashMap::new();
    for (n, t) in items {
        m.entry(n).or_default().push(t);
    }
    m
}
fn names(v: &[Sym]) -> Index<'_, Option<String>> {
    index(v.iter().map(|x| (x.name.as_str(), ty(x))))
}
fn at<T: Clone>(m: &Index<T>, n: &str) -> Vec<T> {
    m.get(n).cloned().unwrap_or_default()
}

struct Ctx<'a> {
    types: &'a Types,
    preds: Index<'a, &'a Decl>,
    errs: Vec<SE>,
    ambiguous: bool,
    undef_arg: &'static str,
}

impl<'a> Ctx<'a> {
    fn undef_types(&mut self, syms: &[Sym]) {
        for s in syms {
            if let Some((t, l)) = &s.ty {
                if !self.types.declared(t) {
                    self.errs.push(SE { kind: "UndefType", sym: t.clone(), line: *l, ..Default::default() });
                }
            }
        }
    }
    /// one use of a symbol against one declaration
    fn using(&mut self, arity: &'static str, typing: &'static str, name: &str, line: u32, args: &[Sym], decl: &[Sym], scope: &dyn Fn(&str) -> Vec<Option<String>>) {
        if args.len() != decl.len() {
            self.errs.push(SE { kind: arity, sym: name.into(), line, exp: decl.len().to_string(), found: args.len().to_string(), ..Default::default() });
        }
        for (a, e) in args.iter().zip(decl) {
            let found = scope(&a.name);
            if found.len() > 1 && found.iter().any(|f| *f != found[0]) {
                self.ambiguous = true;
            }
            if let Some(f) = found.first() {
                if !self.types.fits(f, &ty(e)) {
                    self.errs.push(SE { kind: typing, sym: a.name.clone(), alt: Some(name.into()), line: a.line, exp: show(&ty(e)), found: show(f), ..Default::default() });
                }
            }
        }
    }
    fn undef_args(&mut self, args: &[Sym], scope: &dyn Fn(&str) -> Vec<Option<String>>) {
        for a in args {
            if scope(&a.name).is_empty() {
                self.errs.push(SE { kind: self.undef_arg, sym: a.name.clone(), line: a.line, ..Default::default() });
            }
        }
    }
    fn atom(&mut self, d: &Decl, quantified: bool, scope: &dyn Fn(&str) -> Vec<Option<String>>) {
        let decls: Vec<&Decl> = at(&self.preds, &d.name);
        if decls.is_empty() {
            self.errs.push(SE { kind: "UndefPredicate", sym: d.name.clone(), line: d.line, ..Default::default() });
        }
        for p in decls {
            if quantified {
                if p.args.len() != d.args.len() {
                    self.errs.push(SE { kind: "PredArity", sym: d.name.clone(), line: d.line, exp: p.args.len().to_string(), found: d.args.len().to_string(), ..Default::default() });
                }
            } else {
                self.using("PredArity", "PredType", &d.name, d.line, &d.args, &p.args, scope);
            }
        }
        if !quantified {
            self.undef_args(&d.args, scope);
        }
    }
    fn formula(&mut self, f: &F, quantified: bool, scope: &dyn Fn(&str) -> Vec<Option<String>>) {
        match f {
            F::Empty | F::Eq(_, _) => {}
            F::Atom(d) => self.atom(d, quantified, scope),
            F::Not(g) | F::Weighted(_, g) => self.formula(g, quantified, scope),
            F::And(v) | F::Or(v) | F::Xor(v) => {
                for g in v {
                    self.formula(g, quantified, scope)
                }
            }
            F::Exists(_, g) | F::ForAll(_, g) => self.formula(g, true, scope),
        }
    }
    fn task_use(&mut self, t: &Sym, args: &[Sym], decls: &[&[Sym]], undef: &'static str, scope: &dyn Fn(&str) -> Vec<Option<String>>) {
        if decls.is_empty() {
            self.errs.push(SE { kind: undef, sym: t.name.clone(), line: t.line, ..Default::default() });
        }
        for d in decls {
            self.using("TaskArity", "TaskType", &t.name, t.line, args, d, scope);
        }
        self.undef_args(args, scope);
    }
    fn orderings(&mut self, n: &Net) {
        if cyclic_relation(&n.ords) {
            for l in &n.ord_lines {
                self.errs.push(SE { kind: "CyclicOrder", line: *l, ..Default::default() });
            }
        }
    }
}

fn task_decls(d: &Domain) -> Index<'_, &[Sym]> {
    index(d.actions.iter().map(|a| (a.d.name.as_str(), &a.d.args[..])).chain(d.tasks.iter().map(|t| (t.name.as_str(), &t.args[..]))))
}

pub fn domain(d: &Domain) -> Truth {
    let types = Types::new(d);
    let mut c = Ctx { types: &types, preds: index(d.preds.iter().map(|p| (p.name.as_str(), p))), errs: vec![], ambiguous: false, undef_arg: "UndefParameter" };
    // declarations
    for (i, r) in d.reqs.iter().enumerate() {
        if d.reqs[..i].contains(r) {
            c.errs.push(SE { kind: "DupRequirement", sym: format!(":{}", r), ..Default::default() });
        }
    }
    if types.cyclic() {
        c.errs.push(SE { kind: "CyclicType", ..Default::default() });
    }
    dups("DupObject", d.constants.iter().map(|x| (x.name.as_str(), x.line)), &mut c.errs);
    dups("DupPredicate", d.preds.iter().map(|x| (x.name.as_str(), x.line)), &mut c.errs);
    dups("DupTask", d.tasks.iter().map(|x| (x.name.as_str(), x.line)), &mut c.errs);
    dups("DupAction", d.actions.iter().map(|x| (x.d.name.as_str(), x.d.line)), &mut c.errs);
    dups("DupMethod", d.methods.iter().map(|x| (x.name.name.as_str(), x.name.line)), &mut c.errs);
    c.undef_types(&d.constants);
    for p in d.preds.iter().chain(&d.funcs).chain(&d.tasks) {
        c.undef_types(&p.args);
    }
    // bodies: a parameter hides a constant of the same name
    let constants = names(&d.constants);
    let scope_of = |params: &Index<Option<String>>, n: &str| -> Vec<Option<String>> {
        let v = at(params, n);
        if v.is_empty() {
            at(&constants, n)
        } else {
            v
        }
    };
    let tasks = index(d.tasks.iter().map(|t| (t.name.as_str(), &t.args[..])));
    let both = task_decls(d);
    for a in &d.actions {
        dups("DupParameter", a.d.args.iter().map(|x| (x.name.as_str(), x.line)), &mut c.errs);
        c.undef_types(&a.d.args);
        let params = names(&a.d.args);
        let scope = |n: &str| scope_of(&params, n);
        for f in a.pre.iter().chain(a.eff.iter()) {
            c.formula(f, false, &scope);
        }
    }
    for m in &d.methods {
        dups("DupParameter", m.params.iter().map(|x| (x.name.as_str(), x.line)), &mut c.errs);
        c.undef_types(&m.params);
        let params = names(&m.params);
        let scope = |n: &str| scope_of(&params, n);
        if let Some(f) = &m.pre {
            c.formula(f, false, &scope);
        }
        c.task_use(&m.task, &m.terms, &at(&tasks, &m.task.name), "UndefTask", &scope);
        for s in &m.net.subs {
            c.task_use(&s.task, &s.terms, &at(&both, &s.task.name), "UndefSubtask", &scope);
        }
        c.orderings(&m.net);
    }
    let mut ambiguous = c.ambiguous;
    for a in &d.actions {
        if tasks.contains_key(a.d.name.as_str()) {
            ambiguous = true;
        }
    }
    Truth { errs: c.errs, ambiguous }
}

/// defects of a problem with respect to a valid domain
pub fn problem(d: &Domain, p: &Problem) -> Truth {
    let types = Types::new(d);
    let mut c = Ctx { types: &types, preds: index(d.preds.iter().map(|p| (p.name.as_str(), p))), errs: vec![], ambiguous: false, undef_arg: "UndefObject" };
    c.undef_types(&p.objects);
    dups("DupObject", p.objects.iter().map(|x| (x.name.as_str(), x.line)), &mut c.errs);
    let (objects, constants, both) = (names(&p.objects), names(&d.constants), task_decls(d));
    let ground = |n: &str| -> Vec<Option<String>> {
        let mut v = at(&objects, n);
        v.extend(at(&constants, n));
        v
    };
    for a in &p.init {
        c.atom(a, false, &ground);
    }
    if let Some(g) = &p.goal {
        c.formula(g, false, &ground);
    }
    if let Some((params, net)) = &p.tn {
        let empty = vec![];
        let params = params.as_ref().unwrap_or(&empty);
        c.undef_types(params);
        c.orderings(net);
        let params = names(params);
        let scope = |n: &str| -> Vec<Option<String>> {
            let mut v = at(&params, n);
            v.extend(ground(n));
            v
        };
        for s in &net.subs {
            c.task_use(&s.task, &s.terms, &at(&both, &s.task.name), "UndefSubtask", &scope);
        }
    }
    Truth { errs: c.errs, ambiguous: c.ambiguous }
}
