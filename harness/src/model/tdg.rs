//! Model of the analyses over the task decomposition graph, on occurrences.
use super::grammar::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Class {
    NonRecursive,
    Recursive,
    GrowingEmptyPrefix,
    Empty,
    GrowAndShrink,
}

/// one occurrence of a compound subtask in a method
#[derive(Clone, Debug)]
pub struct Edge {
    pub from: usize,
    pub method: usize,
    pub to: usize,
    pub eps_prefix: bool,
    pub empty_rest: bool,
    pub null_rest: bool,
}

pub struct Tdg<'a> {
    d: &'a Domain,
    index: BTreeMap<&'a str, usize>,
    pub nullable: Vec<bool>,
    pub refinable: Vec<bool>,
    pub edges: Vec<Edge>,
}

impl<'a> Tdg<'a> {
    /// of a valid domain with distinct names for actions and compound tasks and distinct subtask ids
    pub fn new(d: &'a Domain) -> Tdg<'a> {
        let index: BTreeMap<&str, usize> = d.tasks.iter().enumerate().map(|(i, t)| (t.name.as_str(), i)).collect();
        let n = d.tasks.len();
        // least fixpoints: rounds of simultaneous application over the methods not used yet,
        // as a worklist of methods waiting for their compound subtasks
        let lfp = |action_ok: bool| {
            let mut cur = vec![false; n];
            let mut waits: Vec<usize> = vec![0; d.methods.len()];
            let mut used_by: Vec<Vec<usize>> = vec![vec![]; n];
            let mut todo = vec![];
            for (mi, m) in d.methods.iter().enumerate() {
                for s in &m.net.subs {
                    match index.get(s.task.name.as_str()) {
                        Some(i) => used_by[*i].push(mi),
                        None if action_ok => continue,
                        None => (),
                    }
                    waits[mi] += 1;
                }
                if waits[mi] == 0 {
                    todo.push(index[m.task.name.as_str()]);
                }
            }
            while let Some(i) = todo.pop() {
                if std::mem::replace(&mut cur[i], true) {
                    continue;
                }
                for mi in &used_by[i] {
                    waits[*mi] -= 1;
                    if waits[*mi] == 0 {
                        todo.push(index[d.methods[*mi].task.name.as_str()]);
                    }
                }
            }
            cur
        };
        let nullable = lfp(false);
        let refinable = lfp(true);
        let is_null = |s: &Sub| index.get(s.task.name.as_str()).map(|i| nullable[*i]).unwrap_or(false);
        let mut edges = vec![];
        for (mi, m) in d.methods.iter().enumerate() {
            let before = before(&m.net);
            for (k, s) in m.net.subs.iter().enumerate() {
                if let Some(to) = index.get(s.task.name.as_str()) {
                    let prefix: Vec<&Sub> = (0..m.net.subs.len()).filter(|j| before[k][*j]).map(|j| &m.net.subs[j]).collect();
                    let rest: Vec<&Sub> = (0..m.net.subs.len()).filter(|j| *j != k && !before[k][*j]).map(|j| &m.net.subs[j]).collect();
                    edges.push(Edge {
                        from: index[m.task.name.as_str()],
                        method: mi,
                        to: *to,
                        eps_prefix: prefix.iter().all(|s| is_null(s)),
                        empty_rest: rest.is_empty(),
                        null_rest: rest.iter().all(|s| is_null(s)),
                    });
                }
            }
        }
        Tdg { d, index, nullable, refinable, edges }
    }

    pub fn nullables(&self) -> BTreeSet<String> {
        self.d.tasks.iter().enumerate().filter(|(i, _)| self.nullable[*i]).map(|(_, t)| t.name.clone()).collect()
    }
    /// (name, line) of the tasks without a primitive refinement
    pub fn unrefinable(&self) -> BTreeSet<(String, u32)> {
        self.d.tasks.iter().enumerate().filter(|(i, _)| !self.refinable[*i]).map(|(_, t)| (t.name.clone(), t.line)).collect()
    }

    fn allowed(class: Class, e: &Edge) -> bool {
        match class {
            Class::GrowAndShrink => e.eps_prefix && e.null_rest,
            Class::Empty => e.eps_prefix && e.empty_rest,
            Class::GrowingEmptyPrefix => e.eps_prefix,
            _ => true,
        }
    }
    fn required(class: Class, e: &Edge) -> bool {
        class != Class::GrowAndShrink || !e.empty_rest
    }
    fn has(&self, class: Class) -> bool {
        // e lies on a cycle iff its ends are in one strongly connected component of the allowed edges
        let n = self.d.tasks.len();
        let (mut next, mut prev) = (vec![vec![]; n], vec![vec![]; n]);
        for e in self.edges.iter().filter(|e| Self::allowed(class, e)) {
            next[e.from].push(e.to);
            prev[e.to].push(e.from);
        }
        let mut order = vec![];
        let mut seen = vec![false; n];
        for root in 0..n {
            if std::mem::replace(&mut seen[root], true) {
                continue;
            }
            let mut stack = vec![(root, 0)];
            while let Some((v, k)) = stack.pop() {
                match next[v].get(k) {
                    Some(w) => {
                        stack.push((v, k + 1));
                        if !std::mem::replace(&mut seen[*w], true) {
                            stack.push((*w, 0));
                        }
                    }
                    None => order.push(v),
                }
            }
        }
        let mut component = vec![usize::MAX; n];
        for root in order.into_iter().rev() {
            let mut todo = vec![root];
            while let Some(v) = todo.pop() {
                if component[v] == usize::MAX {
                    component[v] = root;
                    todo.extend(&prev[v]);
                }
            }
        }
        self.edges.iter().any(|e| Self::allowed(class, e) && Self::required(class, e) && component[e.from] == component[e.to])
    }
    pub fn class(&self) -> Class {
        for c in [Class::GrowAndShrink, Class::Empty, Class::GrowingEmptyPrefix, Class::Recursive] {
            if self.has(c) {
                return c;
            }
        }
        Class::NonRecursive
    }
    /// Is t0 -m0-> t1 -m1-> ... -> t0 a cycle of the class?
    pub fn is_witness(&self, class: Class, tasks: &[String], methods: &[String]) -> Result<(), String> {
        if tasks.len() < 2 || methods.len() != tasks.len() - 1 || tasks[0] != tasks[tasks.len() - 1] {
            return Err(format!("not a closed cycle: {:?} {:?}", tasks, methods));
        }
        let mut required = false;
        for k in 0..methods.len() {
            let (from, to) = match (self.index.get(tasks[k].as_str()), self.index.get(tasks[k + 1].as_str())) {
                (Some(a), Some(b)) => (*a, *b),
                _ => return Err(format!("{} or {} is no compound task", tasks[k], tasks[k + 1])),
            };
            let steps: Vec<&Edge> = self.edges.iter().filter(|e| e.from == from && e.to == to && self.d.methods[e.method].name.name == methods[k]).collect();
            if steps.is_empty() {
                return Err(format!("method {} does not decompose {} into {}", methods[k], tasks[k], tasks[k + 1]));
            }
            if !steps.iter().any(|e| Self::allowed(class, e)) {
                return Err(format!("step {} -{}-> {} is not admissible for {:?}", tasks[k], methods[k], tasks[k + 1], class));
            }
            required |= steps.iter().any(|e| Self::allowed(class, e) && Self::required(class, e));
        }
        if required {
            Ok(())
        } else {
            Err("no step of the cycle grows".into())
        }
    }
}

/// for every position b, the positions a with subtask a ordered before subtask b
pub fn before(n: &Net) -> Vec<Vec<bool>> {
    let k = n.subs.len();
    let mut out = vec![vec![false; k]; k];
    if n.total {
        for (b, row) in out.iter_mut().enumerate() {
            row[..b].fill(true);
        }
        return out;
    }
    // identifiers as numbers, then everything that reaches b backwards along the orderings
    let mut num: BTreeMap<&str, usize> = BTreeMap::new();
    let mut preds: Vec<Vec<usize>> = vec![];
    for (a, b) in &n.ords {
        for x in [a, b] {
            let next = num.len();
            if *num.entry(x.as_str()).or_insert(next) == preds.len() {
                preds.push(vec![]);
            }
        }
        let (a, b) = (num[a.as_str()], num[b.as_str()]);
        preds[b].push(a);
    }
    let of: Vec<Option<usize>> = n.subs.iter().map(|s| s.id.as_ref().and_then(|i| num.get(i.name.as_str()).copied())).collect();
    for b in 0..k {
        let Some(start) = of[b] else { continue };
        let mut seen = vec![false; preds.len()];
        let mut todo = preds[start].clone();
        while let Some(x) = todo.pop() {
            if !seen[x] {
                seen[x] = true;
                todo.extend(&preds[x]);
            }
        }
        for a in 0..k {
            out[b][a] = a != b && of[a].map(|x| seen[x]).unwrap_or(false);
        }
    }
    out
}
