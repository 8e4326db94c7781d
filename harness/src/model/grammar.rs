//! Model of the grammar: tokens -> tree, or the index of the first token that cannot follow.
use super::lex::*;
use serde_json::{json, Value};

#[derive(Clone, Debug, PartialEq)]
pub struct Sym {
    pub name: String,
    pub line: u32,
    pub ty: Option<(String, u32)>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Decl {
    pub name: String,
    pub line: u32,
    pub args: Vec<Sym>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum F {
    Empty,
    Atom(Decl),
    Not(Box<F>),
    And(Vec<F>),
    Or(Vec<F>),
    Xor(Vec<F>),
    Exists(Vec<Sym>, Box<F>),
    ForAll(Vec<Sym>, Box<F>),
    Weighted(Num, Box<F>),
    Eq(String, String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Sub {
    pub id: Option<Sym>,
    pub task: Sym,
    pub terms: Vec<Sym>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Net {
    pub subs: Vec<Sub>,
    pub total: bool,
    /// lines of the ordering keywords
    pub ord_lines: Vec<u32>,
    pub ords: Vec<(String, String)>,
    pub cons: Option<Vec<(bool, String, String)>>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Method {
    pub name: Sym,
    pub params: Vec<Sym>,
    pub task: Sym,
    pub terms: Vec<Sym>,
    pub pre: Option<F>,
    pub net: Net,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Action {
    pub d: Decl,
    pub pre: Option<F>,
    pub eff: Option<F>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Domain {
    pub name: String,
    pub types: Vec<Sym>,
    pub constants: Vec<Sym>,
    pub reqs: Vec<&'static str>,
    pub preds: Vec<Decl>,
    pub funcs: Vec<Decl>,
    pub tasks: Vec<Decl>,
    pub methods: Vec<Method>,
    pub actions: Vec<Action>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Problem {
    pub reqs: Vec<&'static str>,
    pub objects: Vec<Sym>,
    pub init: Vec<Decl>,
    pub goal: Option<F>,
    pub tn: Option<(Option<Vec<Sym>>, Net)>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Doc {
    D(Domain),
    P(Problem),
}

pub const MAX_DEPTH: usize = 128;

pub struct P<'a> {
    toks: &'a [Tok],
    at: usize,
}
type R<X> = Result<X, usize>;

/// Err(i): token i cannot continue the text before it.
pub fn parse(toks: &[Tok]) -> R<Doc> {
    P { toks, at: 0 }.document()
}

impl<'a> P<'a> {
    fn peek(&self) -> &'a T {
        &self.toks[self.at].t
    }
    fn line(&self) -> u32 {
        self.toks[self.at].line
    }
    fn next(&mut self) -> (&'a T, u32) {
        let t = &self.toks[self.at];
        if self.at + 1 < self.toks.len() {
            self.at += 1;
        }
        (&t.t, t.line)
    }
    fn fail<X>(&self) -> R<X> {
        Err(self.at)
    }
    fn expect(&mut self, t: T) -> R<()> {
        if *self.peek() == t {
            self.next();
            Ok(())
        } else {
            self.fail()
        }
    }
    fn eat(&mut self, t: T) -> bool {
        self.expect(t).is_ok()
    }
    fn ident(&mut self) -> R<Sym> {
        match self.peek() {
            T::Id(x) => {
                let line = self.line();
                self.next();
                Ok(Sym { name: x.clone(), line, ty: None })
            }
            _ => self.fail(),
        }
    }
    fn idents(&mut self) -> Vec<Sym> {
        let mut v = vec![];
        while let Ok(s) = self.ident() {
            v.push(s);
        }
        v
    }
    /// names with optional types, up to and including the ')'
    fn typed_list(&mut self) -> R<Vec<Sym>> {
        let mut out = vec![];
        loop {
            let names = self.idents();
            match self.peek() {
                T::Dash if !names.is_empty() => {
                    self.next();
                    let t = self.ident()?;
                    out.extend(names.into_iter().map(|n| Sym { ty: Some((t.name.clone(), t.line)), ..n }));
                }
                T::RP => {
                    self.next();
                    out.extend(names);
                    return Ok(out);
                }
                _ => return self.fail(),
            }
        }
    }
    fn document(&mut self) -> R<Doc> {
        self.expect(T::LP)?;
        self.expect(T::Kw("define"))?;
        self.expect(T::LP)?;
        let doc = if self.eat(T::Kw("domain")) {
            let name = self.ident()?.name;
            self.expect(T::RP)?;
            let d = self.domain(name)?;
            self.expect(T::RP)?;
            Doc::D(d)
        } else {
            self.expect(T::Kw("problem"))?;
            self.ident()?;
            self.expect(T::RP)?;
            self.expect(T::LP)?;
            self.expect(T::Kw("domain"))?;
            self.ident()?;
            self.expect(T::RP)?;
            let p = self.problem()?;
            if *self.peek() != T::Eof {
                self.expect(T::RP)?;
            }
            Doc::P(p)
        };
        while self.eat(T::RP) {}
        self.expect(T::Eof)?;
        Ok(doc)
    }
    fn requirements(&mut self, out: &mut Vec<&'static str>) -> R<()> {
        while let T::Req(r) = self.peek() {
            out.push(r);
            self.next();
        }
        self.expect(T::RP)
    }
    /// a sequence of (name args...) up to and including the ')'
    fn decls(&mut self, out: &mut Vec<Decl>) -> R<()> {
        while self.eat(T::LP) {
            let n = self.ident()?;
            let args = self.typed_list()?;
            out.push(Decl { name: n.name, line: n.line, args });
        }
        self.expect(T::RP)
    }
    fn header(&mut self) -> R<Decl> {
        let n = self.ident()?;
        self.expect(T::Kw("parameters"))?;
        self.expect(T::LP)?;
        let args = self.typed_list()?;
        Ok(Decl { name: n.name, line: n.line, args })
    }
    fn domain(&mut self, name: String) -> R<Domain> {
        let mut d = Domain { name, ..Default::default() };
        while self.eat(T::LP) {
            let k = match self.peek() {
                T::Kw(k) => *k,
                _ => return self.fail(),
            };
            if !["predicates", "functions", "task", "method", "action", "requirements", "types", "constants"].contains(&k) {
                return self.fail();
            }
            self.next();
            match k {
                "predicates" => self.decls(&mut d.preds)?,
                "functions" => self.decls(&mut d.funcs)?,
                "task" => {
                    let h = self.header()?;
                    self.expect(T::RP)?;
                    d.tasks.push(h);
                }
                "requirements" => self.requirements(&mut d.reqs)?,
                "types" => d.types.extend(self.typed_list()?),
                "constants" => d.constants.extend(self.typed_list()?),
                "action" => {
                    let h = self.header()?;
                    let pre = if self.eat(T::Kw("precondition")) { Some(self.formula(1)?) } else { None };
                    let eff = if self.eat(T::Kw("effect")) { Some(self.formula(1)?) } else { None };
                    self.expect(T::RP)?;
                    d.actions.push(Action { d: h, pre, eff });
                }
                _ => {
                    let h = self.header()?;
                    self.expect(T::Kw("task"))?;
                    self.expect(T::LP)?;
                    let task = self.ident()?;
                    let terms = self.typed_list()?;
                    let pre = if self.eat(T::Kw("precondition")) { Some(self.formula(1)?) } else { None };
                    if pre.is_none() && *self.peek() == T::RP {
                        return self.fail();
                    }
                    let net = self.net()?;
                    let name = Sym { name: h.name, line: h.line, ty: None };
                    d.methods.push(Method { name, params: h.args, task, terms, pre, net });
                }
            }
        }
        Ok(d)
    }
    fn problem(&mut self) -> R<Problem> {
        let mut p = Problem::default();
        while self.eat(T::LP) {
            match self.peek() {
                T::Kw("requirements") => {
                    self.next();
                    self.requirements(&mut p.reqs)?
                }
                T::Kw("objects") => {
                    self.next();
                    p.objects.extend(self.typed_list()?)
                }
                T::Kw("init") => {
                    self.next();
                    self.decls(&mut p.init)?
                }
                T::Kw("goal") if p.goal.is_none() => {
                    self.next();
                    p.goal = Some(if *self.peek() == T::RP { F::Empty } else { self.formula(1)? });
                    self.expect(T::RP)?
                }
                T::Kw("htn") if p.tn.is_none() => {
                    self.next();
                    let params = if self.eat(T::Kw("parameters")) {
                        self.expect(T::LP)?;
                        Some(self.typed_list()?)
                    } else {
                        None
                    };
                    let net = self.net()?;
                    p.tn = Some((params, net));
                }
                _ => return self.fail(),
            }
        }
        Ok(p)
    }
    /// up to and including the ')' of the enclosing block
    fn net(&mut self) -> R<Net> {
        let mut n = Net::default();
        if self.eat(T::RP) {
            return Ok(n);
        }
        n.total = self.eat(T::Kw("ordered-subtasks"));
        if !n.total {
            self.expect(T::Kw("subtasks"))?;
        }
        self.expect(T::LP)?;
        if self.eat(T::Op("and")) {
            while self.eat(T::LP) {
                n.subs.push(self.subtask()?);
            }
            self.expect(T::RP)?;
        } else if !self.eat(T::RP) {
            n.subs.push(self.subtask()?);
        }
        loop {
            match self.peek() {
                T::Kw("ordering") if !n.total => {
                    n.ord_lines.push(self.line());
                    self.next();
                    self.expect(T::LP)?;
                    if self.eat(T::Op("and")) {
                        while self.eat(T::LP) {
                            self.ordering(&mut n.ords)?;
                        }
                        self.expect(T::RP)?;
                    } else if !self.eat(T::RP) {
                        self.ordering(&mut n.ords)?;
                    }
                }
                T::Kw("constraints") if !n.total || n.cons.is_none() => {
                    self.next();
                    self.expect(T::LP)?;
                    let cs = n.cons.get_or_insert(vec![]);
                    if self.eat(T::Op("and")) {
                        while self.eat(T::LP) {
                            let c = self.constraint()?;
                            cs.push(c);
                        }
                        self.expect(T::RP)?;
                    } else if !self.eat(T::RP) {
                        let c = self.constraint()?;
                        cs.push(c);
                    }
                }
                _ => {
                    self.expect(T::RP)?;
                    return Ok(n);
                }
            }
        }
    }
    /// after '(' up to and including ')'
    fn subtask(&mut self) -> R<Sub> {
        let a = self.ident()?;
        if self.eat(T::LP) {
            let task = self.ident()?;
            let terms = self.idents();
            self.expect(T::RP)?;
            self.expect(T::RP)?;
            Ok(Sub { id: Some(a), task, terms })
        } else {
            let terms = self.idents();
            self.expect(T::RP)?;
            Ok(Sub { id: None, task: a, terms })
        }
    }
    fn ordering(&mut self, out: &mut Vec<(String, String)>) -> R<()> {
        self.expect(T::Op("<"))?;
        let a = self.ident()?;
        for b in self.idents() {
            out.push((a.name.clone(), b.name));
        }
        self.expect(T::RP)
    }
    fn constraint(&mut self) -> R<(bool, String, String)> {
        let neg = self.eat(T::Op("not"));
        if neg {
            self.expect(T::LP)?;
        }
        self.expect(T::Op("="))?;
        let a = self.ident()?;
        let b = self.ident()?;
        self.expect(T::RP)?;
        if neg {
            self.expect(T::RP)?;
        }
        Ok((!neg, a.name, b.name))
    }
    fn formulas(&mut self, depth: usize) -> R<Vec<F>> {
        let mut v = vec![];
        while !self.eat(T::RP) {
            v.push(self.formula(depth + 1)?);
        }
        Ok(v)
    }
    fn formula(&mut self, depth: usize) -> R<F> {
        if depth > MAX_DEPTH {
            return self.fail();
        }
        self.expect(T::LP)?;
        match self.peek() {
            T::RP => {
                self.next();
                Ok(F::Empty)
            }
            T::Id(_) => {
                let n = self.ident()?;
                let args = self.typed_list()?;
                Ok(F::Atom(Decl { name: n.name, line: n.line, args }))
            }
            T::Op(o) => {
                match *o {
                    "and" | "or" | "oneof" | "not" | "=" | "forall" | "exists" | "probabilistic" => {}
                    _ => return self.fail(),
                }
                self.next();
                match *o {
                    "and" => Ok(F::And(self.formulas(depth)?)),
                    "or" => Ok(F::Or(self.formulas(depth)?)),
                    "oneof" => Ok(F::Xor(self.formulas(depth)?)),
                    "not" => {
                        let f = self.formula(depth + 1)?;
                        self.expect(T::RP)?;
                        Ok(F::Not(Box::new(f)))
                    }
                    "=" => {
                        let a = self.ident()?.name;
                        let b = self.ident()?.name;
                        self.expect(T::RP)?;
                        Ok(F::Eq(a, b))
                    }
                    "probabilistic" => {
                        let mut v = vec![];
                        while let T::Num(n) = self.peek() {
                            self.next();
                            // the branch of a probability must not be empty
                            if *self.peek() == T::LP && matches!(self.toks.get(self.at + 1).map(|t| &t.t), Some(T::RP)) && depth < MAX_DEPTH {
                                return Err(self.at + 1);
                            }
                            let f = self.formula(depth + 1)?;
                            v.push(F::Weighted(*n, Box::new(f)));
                        }
                        self.expect(T::RP)?;
                        Ok(F::And(v))
                    }
                    q => {
                        self.expect(T::LP)?;
                        let vars = self.typed_list()?;
                        let f = Box::new(self.formula(depth + 1)?);
                        self.expect(T::RP)?;
                        Ok(if q == "forall" { F::ForAll(vars, f) } else { F::Exists(vars, f) })
                    }
                }
            }
            _ => self.fail(),
        }
    }
}

// ---------------------------------------------------------------- expected JSON

fn pos(line: u32) -> Value {
    json!({ "line": line })
}
fn sym_j(s: &Sym) -> Value {
    let mut v = json!({"name": s.name, "name_pos": pos(s.line)});
    if let Some((t, l)) = &s.ty {
        v["symbol_type"] = json!(t);
        v["type_pos"] = pos(*l);
    }
    v
}
fn syms_j(s: &[Sym]) -> Value {
    Value::Array(s.iter().map(sym_j).collect())
}
fn decl_j(d: &Decl, args: &str) -> Value {
    json!({"name": d.name, "name_pos": pos(d.line), args: syms_j(&d.args)})
}
fn num_j(n: &Num) -> Value {
    match n {
        Num::Real(r) => json!({ "Real": r }),
        Num::Int(i) => json!({ "Integer": i }),
    }
}
fn f_j(f: &F) -> Value {
    let many = |v: &Vec<F>| Value::Array(v.iter().map(f_j).collect());
    match f {
        F::Empty => json!("Empty"),
        F::Atom(d) => json!({"Atom": decl_j(d, "variables")}),
        F::Not(g) => json!({"Not": f_j(g)}),
        F::And(v) => json!({"And": many(v)}),
        F::Or(v) => json!({"Or": many(v)}),
        F::Xor(v) => json!({"Xor": many(v)}),
        F::Exists(s, g) => json!({"Exists": [syms_j(s), f_j(g)]}),
        F::ForAll(s, g) => json!({"ForAll": [syms_j(s), f_j(g)]}),
        F::Weighted(n, g) => json!({"Weighted": [num_j(n), f_j(g)]}),
        F::Eq(a, b) => json!({"Equals": [a, b]}),
    }
}
fn fo_j(f: &Option<F>) -> Value {
    f.as_ref().map(f_j).unwrap_or(Value::Null)
}
fn req_j(r: &[&str]) -> Value {
    Value::Array(r.iter().map(|r| json!(REQS.iter().find(|x| x.0 == *r).unwrap().1)).collect())
}
fn net_j(n: &Net) -> Value {
    json!({
        "subtasks": n.subs.iter().map(|s| json!({"id": s.id.as_ref().map(sym_j), "task": sym_j(&s.task), "terms": syms_j(&s.terms)})).collect::<Vec<_>>(),
        "ordering_pos": n.ord_lines.last().map(|l| pos(*l)),
        "orderings": if n.total { json!("Total") } else { json!({"Partial": n.ords}) },
        "constraints": n.cons.as_ref().map(|c| c.iter().map(|(eq, a, b)| if *eq { json!({"Equal": [a, b]}) } else { json!({"NotEqual": [a, b]}) }).collect::<Vec<_>>()),
    })
}
fn opt_syms_j(s: &[Sym]) -> Value {
    if s.is_empty() {
        Value::Null
    } else {
        syms_j(s)
    }
}
pub fn domain_j(d: &Domain) -> Value {
    json!({
        "name": d.name,
        "types": opt_syms_j(&d.types),
        "constants": opt_syms_j(&d.constants),
        "requirements": req_j(&d.reqs),
        "predicates": d.preds.iter().map(|p| decl_j(p, "variables")).collect::<Vec<_>>(),
        "functions": d.funcs.iter().map(|p| decl_j(p, "variables")).collect::<Vec<_>>(),
        "compound_tasks": d.tasks.iter().map(|p| decl_j(p, "parameters")).collect::<Vec<_>>(),
        "methods": d.methods.iter().map(|m| json!({
            "name": sym_j(&m.name), "task": sym_j(&m.task), "task_terms": syms_j(&m.terms),
            "params": syms_j(&m.params), "precondition": fo_j(&m.pre), "tn": net_j(&m.net)})).collect::<Vec<_>>(),
        "actions": d.actions.iter().map(|a| {
            let mut v = decl_j(&a.d, "parameters");
            v["preconditions"] = fo_j(&a.pre);
            v["effects"] = fo_j(&a.eff);
            v
        }).collect::<Vec<_>>(),
    })
}
pub fn problem_j(p: &Problem) -> Value {
    json!({
        "requirements": req_j(&p.reqs),
        "objects": syms_j(&p.objects),
        "init_state": p.init.iter().map(|d| decl_j(d, "variables")).collect::<Vec<_>>(),
        "goal": fo_j(&p.goal),
        "init_tn": p.tn.as_ref().map(|(params, net)| json!({"parameters": params.as_ref().map(|s| syms_j(s)), "tn": net_j(net)})),
    })
}
