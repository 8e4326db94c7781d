//! C19, C20, C21: the language server.
use super::text::valid_domain;
use crate::docs::*;
use crate::engine::*;
use crate::lspsim::*;
use crate::model::lex::{self, T};
use crate::oracle::Verdict;
use crate::subject::{self, Out};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub fn url(p: &Path) -> String {
    tower_lsp::lsp_types::Url::from_file_path(p).unwrap().to_string()
}

// ---------------------------------------------------------------- C19

/// a text whose diagnostics name its version
fn version(kind: usize, v: usize) -> String {
    let pad = "\n".repeat(v % 3);
    match kind {
        // undefined type, undefined predicate with a domain at hand, syntax errors
        0 => format!("{pad}(define (domain d) (:predicates (p ?x - v{v}e)))"),
        1 => format!("{pad}(define (problem p) (:domain d) (:init (v{v}e)))"),
        2 => format!("{pad}(define (domain d) v{v}e)"),
        3 => format!("{pad}(define (problem p) (:domain d) v{v}e)"),
        // nothing to report
        4 => format!("{pad}(define (domain d) (:predicates (p{v})))"),
        5 => format!("{pad}(define (problem p) (:domain d) (:init (p)))"),
        7 => String::new(),
        8 => format!(" {pad}\t"),
        // few different texts, so that an earlier one comes back
        9 => format!("(define (domain d) (:predicates (p ?x - v{}e)))", said(kind, v)),
        10 => format!("(define (problem p) (:domain d) (:init (v{}e)))", said(kind, v)),
        // the text of the file on disk
        11 => version(1, 99),
        _ => format!("{pad}v{v}e is not a planning file"),
    }
}
fn reports(kind: usize) -> bool {
    kind < 4 || kind == 9 || kind == 10 || kind == 11
}
/// the version a text names
fn said(kind: usize, v: usize) -> usize {
    match kind {
        9 | 10 => v % 2 + 1,
        11 => 99,
        _ => v,
    }
}
const KINDS: &[&[usize]] = &[&[0], &[1], &[2, 4], &[0, 7], &[0, 1, 6], &[3, 5], &[1, 4, 3], &[7, 0], &[1, 8], &[9], &[10, 7], &[9, 10], &[11, 1]];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Open,
    Change,
    Change2,
    Change0,
    SaveText,
    Save,
    Ask,
}
const OPS: [Op; 7] = [Op::Open, Op::Change, Op::Change2, Op::Change0, Op::SaveText, Op::Save, Op::Ask];

/// None: no notification gave a text, but the document was saved (the file on disk may be taken)
type Want = Option<Result<(usize, usize), ()>>;

fn history(ops: &[(Op, usize)], uris: &[String], kinds: &[usize]) -> (Vec<Value>, BTreeMap<i64, Want>) {
    let mut msgs = vec![];
    let mut want = BTreeMap::new();
    let mut now: Vec<Want> = vec![Some(Err(())); uris.len()];
    let mut v = 0;
    for (i, (op, d)) in ops.iter().enumerate() {
        let mut fresh = || {
            v += 1;
            (kinds[(v - 1) % kinds.len()], v)
        };
        let u = &uris[*d];
        msgs.push(match op {
            Op::Open => {
                let (k, v) = fresh();
                now[*d] = Some(Ok((k, v)));
                open(u, &version(k, v))
            }
            Op::Change => {
                let (k, v) = fresh();
                now[*d] = Some(Ok((k, v)));
                change(u, &[&version(k, v)])
            }
            Op::Change2 => {
                let (k0, v0) = fresh();
                let (k, v) = fresh();
                now[*d] = Some(Ok((k, v)));
                change(u, &[&version(k0, v0), &version(k, v)])
            }
            Op::Change0 => change(u, &[]),
            Op::SaveText => {
                let (k, v) = fresh();
                now[*d] = Some(Ok((k, v)));
                save(u, Some(&version(k, v)))
            }
            Op::Save => {
                if now[*d] == Some(Err(())) {
                    now[*d] = None;
                }
                save(u, None)
            }
            Op::Ask => {
                want.insert(i as i64, now[*d]);
                diagnose(i as i64, u)
            }
        });
    }
    (msgs, want)
}

pub fn items(a: &Value) -> Option<&Vec<Value>> {
    a["result"]["items"].as_array()
}

fn check_answers(answers: &BTreeMap<i64, Vec<Value>>, want: &BTreeMap<i64, Want>, vmax: usize) -> Result<(), String> {
    for (id, w) in want {
        let a = match answers.get(id).map(|a| a.as_slice()) {
            Some([a]) => a,
            Some(m) => return Err(format!("request {} is answered {} times", id, m.len())),
            None => return Err(format!("request {} is not answered", id)),
        };
        match w {
            None => {}
            Some(Err(())) => {
                if a.get("error").is_none() {
                    return Err(format!("request {} for a document without text is answered {}", id, a));
                }
            }
            Some(Ok((k, v))) => {
                let its = items(a).ok_or(format!("request {} is answered {} instead of a report on version {}", id, a, v))?;
                let said = its.iter().map(|i| i["message"].as_str().unwrap_or("")).collect::<Vec<_>>().join(" ");
                let named: Vec<usize> = (1..=vmax.max(99)).filter(|x| said.contains(&format!("v{}e", x))).collect();
                let ok = if reports(*k) { named == vec![self::said(*k, *v)] } else { its.is_empty() };
                if !ok {
                    return Err(format!("request {} should be answered for version {} (kind {}), the answer is {}", id, v, k, a));
                }
            }
        }
    }
    Ok(())
}

fn show_history(ops: &[(Op, usize)], uris: &[String], kinds: &[usize]) -> String {
    format!("{} texts of kinds {:?}, documents {:?}", ops.iter().map(|(o, d)| format!("{:?}({})", o, d)).collect::<Vec<_>>().join(" "), kinds, uris)
}

/// Folders: one with a domain, one more with a domain, one without
fn folders(scratch: &Path) -> (PathBuf, PathBuf, PathBuf) {
    let (a, b, c) = (scratch.join("with"), scratch.join("with2"), scratch.join("without"));
    for x in [&a, &b, &c] {
        std::fs::create_dir_all(x).unwrap();
    }
    let dom = "(define (domain d) (:predicates (p)))";
    std::fs::write(a.join("domain.hddl"), dom).unwrap();
    std::fs::write(b.join("dom.pddl"), dom).unwrap();
    // documents on disk, with a version no message gives
    std::fs::write(a.join("doc.hddl"), version(1, 99)).unwrap();
    (a, b, c)
}

const POLICIES: [Policy; 3] = [Policy::Sequential, Policy::Eager, Policy::LastFirst];

/// budget None: every schedule
fn explore_history(ops: &[(Op, usize)], uris: &[String], kinds: &[usize], budget: Option<usize>) -> Verdict {
    let (msgs, want) = history(ops, uris, kinds);
    let vmax = 2 * ops.len();
    let n = Chooser::all(budget.unwrap_or(0), |c| {
        let policy = if budget.is_some() { *c.of(&POLICIES) } else { Policy::Any };
        let mut s = Sim::ready()?;
        s.interleaved(&msgs, c, policy)?;
        if s.abandoned() {
            return Ok(());
        }
        if s.finished != msgs.len() + 2 {
            return Err(format!("{} of {} messages handled", s.finished - 2, msgs.len()));
        }
        check_answers(&s.answers, &want, vmax)
    })?;
    Ok(Some(match n {
        1 => "1 schedule",
        2..=9 => "2 to 9 schedules",
        10..=99 => "10 to 99 schedules",
        100..=999 => "100 to 999 schedules",
        _ => "1000 or more schedules",
    }
    .to_string()))
}

pub fn run_c19(ctx: &mut Ctx) {
    CPU_LIMIT_MS.store(200_000, std::sync::atomic::Ordering::SeqCst);
    WALL_LIMIT_MS.store(400_000, std::sync::atomic::Ordering::SeqCst);
    let (a, b, _) = folders(&ctx.scratch);
    let uris = vec![url(&a.join("doc.hddl")), url(&b.join("doc.hddl"))];
    // all histories of a length over two documents, every schedule of each
    let depth = ctx.bound(5, 5);
    let (full, full_domains, budget) = ctx.bound((2, 3, 2), (3, 4, 3));
    let deep = ctx.thorough();
    for len in 1..=depth {
        let kinds: &[&[usize]] = if len <= 3 { KINDS } else { &KINDS[..3] };
        ctx.explore(&format!("all histories of {} messages over two documents, schedules", len), 0, |c, ctx| {
            let k = *c.of(kinds);
            let mut ops: Vec<(Op, usize)> = vec![];
            for i in 0..len {
                // the rarer messages in the shorter histories only; the last message is a request
                let op = if i + 1 == len {
                    Op::Ask
                } else if len <= 3 {
                    *c.of(&OPS)
                } else {
                    *c.of(&[Op::Open, Op::Change, Op::SaveText, Op::Save, Op::Ask])
                };
                // documents are interchangeable: the first one named is 0
                let d = if i == 0 { 0 } else { c.pick(2) };
                ops.push((op, d));
            }
            if !ctx.mine() {
                return;
            }
            let budget = if len <= full || k.iter().all(|k| [0, 2, 4, 6, 7, 8, 9].contains(k)) && len <= full_domains { None } else { Some(budget) };
            // file operations multiply the schedules
            let reads = ops.iter().filter(|(o, _)| *o == Op::Save).count();
            let budget = if !deep && len >= 5 && reads > 0 { budget.map(|b| b.min(1)) } else { budget };
            ctx.case(&(k, ops.iter().map(|(o, d)| (*o as usize, *d)).collect::<Vec<_>>()), || show_history(&ops, &uris, k), || explore_history(&ops, &uris, k, budget).map(|l| l.unwrap_or_default()));
        });
    }
    // many messages in progress: patterns of requests and changes
    let long = ctx.bound(6, 7);
    ctx.explore(&format!("an opened document, then all histories of {} changes and requests, schedules", long - 1), 0, |c, ctx| {
        let k = *c.of(&KINDS[..2]);
        let mut ops = vec![(Op::Open, 0)];
        for i in 1..long {
            ops.push((if i + 1 < long && c.flag() { Op::Change } else { Op::Ask }, 0));
        }
        if !ctx.mine() {
            return;
        }
        ctx.case(&(k, ops.iter().map(|(o, d)| (*o as usize, *d)).collect::<Vec<_>>()), || show_history(&ops, &uris, k), || explore_history(&ops, &uris, k, Some(budget)).map(|l| l.unwrap_or_default()));
    });
    // addresses that resemble each other
    let base = a.to_str().unwrap().to_string();
    let names: Vec<String> = [
        "doc.hddl", "Doc.hddl", "doc.HDDL", "doc.pddl", "doc", "doc.hddl.hddl", "doc2.hddl", "doc%20.hddl", "doc%2520.hddl", "d%C3%B6c.hddl", "doc.hddl?x=1", "doc.hddl#frag", "sub/doc.hddl", "sub/sub/doc.hddl", "x/doc.hddl", "do%2Fc.hddl", ".hddl", "doc.hddl/", "%64oc.hddl2",
    ]
    .iter()
    .map(|n| format!("file://{}/{}", base, n))
    .chain(["untitled:doc.hddl", "untitled:Untitled-1", "untitled:Untitled-2", "inmemory://model/1", "inmemory://model/2", "http://host/doc.hddl", "https://host/doc.hddl", "http://host2/doc.hddl", "git:/doc.hddl", "file:///doc.hddl"].iter().map(|s| s.to_string()))
    .collect();
    ctx.explore("two documents with similar addresses", 0, |c, ctx| {
        let i = c.pick(names.len());
        let j = c.pick(names.len());
        let how = c.pick(6);
        let k = *c.of(&[&[0usize][..], &[3], &[2, 4]]);
        if i == j || !ctx.mine() {
            return;
        }
        let w = *[Op::Open, Op::Change, Op::SaveText].get(how % 3).unwrap();
        let ops = if how < 3 { vec![(w, 0), (Op::Ask, 1), (w, 1), (Op::Ask, 0), (Op::Ask, 1)] } else { vec![(w, 0), (w, 1), (Op::Change, 0), (Op::Save, 1), (Op::Ask, 1), (Op::Ask, 0)] };
        let u = vec![names[i].clone(), names[j].clone()];
        ctx.case(&(i, j, how, k), || show_history(&ops, &u, k), || {
            let (msgs, want) = history(&ops, &u, k);
            let mut s = Sim::ready()?;
            s.in_order(&msgs)?;
            check_answers(&s.answers, &want, 12)?;
            Ok("in order".into())
        });
    });
    // numbers and languages the client gives to its texts: the texts count in the order they come
    let numbers = [1i64, 0, -1, 2, 5, i32::MAX as i64, i32::MIN as i64];
    let languages = ["hddl", "pddl", "plaintext", "", "HDDL", "lisp"];
    let steps = ctx.bound(3, 4);
    ctx.explore("every sequence of version numbers and languages", 0, |c, ctx| {
        let k = *c.of(&[&[0usize][..], &[3], &[2, 4], &[1]]);
        let lang = c.pick(languages.len());
        let ops: Vec<(bool, i64)> = (0..steps).map(|i| (c.pick(2) == 0, *c.of(if i == 0 || lang > 0 { &numbers[..3] } else { &numbers }))).collect();
        if !ctx.mine() {
            return;
        }
        ctx.case(&(k, lang, ops.clone()), || format!("language {:?}, (open, version) {:?}, texts {:?}", languages[lang], ops, k), || {
            let u = &uris[0];
            let mut s = Sim::ready()?;
            let mut want = BTreeMap::new();
            for (i, (new, n)) in ops.iter().enumerate() {
                let kind = k[i % k.len()];
                let t = version(kind, i + 1);
                let m = if *new {
                    notification("textDocument/didOpen", json!({"textDocument": {"uri": u, "languageId": languages[lang], "version": n, "text": t}}))
                } else {
                    notification("textDocument/didChange", json!({"textDocument": {"uri": u, "version": n}, "contentChanges": [{"text": t}]}))
                };
                want.insert(i as i64, Some(Ok((kind, i + 1))));
                s.in_order(&[m, diagnose(i as i64, u)])?;
            }
            check_answers(&s.answers, &want, 9)?;
            Ok("in order".into())
        });
    });
    // long texts: of every size around the powers of two
    let top = ctx.bound(21, 24);
    ctx.explore("texts of every size", 0, |c, ctx| {
        let e = c.pick(top + 1);
        let off = c.pick(5);
        let how = c.pick(3);
        let back = c.flag();
        if !ctx.mine() {
            return;
        }
        let n = ((1usize << e) + off).saturating_sub(2);
        ctx.case(&(n, how, back), || format!("texts with {} bytes of comment {}, sent as {:?}", n, if back { "before" } else { "after" }, [Op::Open, Op::Change, Op::SaveText][how]), || {
            let u = &uris[0];
            let pad = format!(";{}\n", "c".repeat(n));
            let t = |v| if back { format!("{}{}", pad, version(0, v)) } else { format!("{}\n{}", version(0, v), pad) };
            let msgs = vec![
                open(u, "(define (domain d))"),
                match how {
                    0 => open(u, &t(1)),
                    1 => change(u, &[&t(1)]),
                    _ => save(u, Some(&t(1))),
                },
                diagnose(1, u),
                change(u, &[&t(2)]),
                diagnose(2, u),
            ];
            let mut s = Sim::ready()?;
            s.in_order(&msgs)?;
            check_answers(&s.answers, &[(1, Some(Ok((0, 1)))), (2, Some(Ok((0, 2))))].into(), 9)?;
            Ok("in order".into())
        });
    });
    // several documents and long histories, in order
    // documents in growing numbers
    let numbers = ctx.bound(vec![1100usize, 5000], vec![5000, 70_000]);
    ctx.explore("very many documents", 0, |c, ctx| {
        let n = *c.of(&numbers);
        let how = c.pick(3);
        if !ctx.mine() {
            return;
        }
        ctx.case(&(n, how), || format!("{} documents, {}", n, ["opened", "changed", "saved"][how]), || {
            let docs: Vec<String> = (0..n).map(|i| url(&a.join(format!("doc{}.hddl", i)))).collect();
            let ops: Vec<(Op, usize)> = (0..n).map(|d| (*[Op::Open, Op::Change, Op::SaveText].get(how).unwrap(), d)).chain((0..n).map(|d| (Op::Ask, d))).collect();
            let (msgs, want) = history(&ops, &docs, &[0, 1]);
            let mut s = Sim::ready()?;
            s.in_order(&msgs)?;
            check_answers(&s.answers, &want, ops.len())?;
            Ok("in order".into())
        });
    });
    let n = ctx.bound(300, 1200);
    let docs: Vec<String> = (0..n).map(|i| url(&a.join(format!("doc{}.hddl", i)))).collect();
    ctx.explore("many documents", 0, |c, ctx| {
        let k = *c.of(KINDS);
        let stride = c.pick(8);
        if !ctx.mine() {
            return;
        }
        let mut ops: Vec<(Op, usize)> = (0..n).map(|d| (Op::Open, d)).collect();
        ops.extend((0..n).filter(|d| d % 8 == stride).map(|d| (Op::Change, d)));
        ops.extend((0..n).filter(|d| d % 8 != stride).map(|d| (Op::Save, d)));
        ops.extend((0..n).map(|d| (Op::Ask, n - 1 - d)));
        ctx.case(&(k, stride), || format!("{} documents, every eighth changed", n), || {
            let (msgs, want) = history(&ops, &docs, k);
            let mut s = Sim::ready()?;
            s.in_order(&msgs)?;
            check_answers(&s.answers, &want, ops.len())?;
            Ok("in order".into())
        });
    });
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Domain,
    Problem,
    Neither,
}
/// by the header alone
pub fn kind(src: &[u8]) -> Option<Kind> {
    let toks = lex::lex(src)?;
    let is = |i: usize, t: &str| toks.get(i).map(|x| lex::display(&x.t) == t && !matches!(x.t, T::Bad { .. })).unwrap_or(false);
    let want = lex::lex(b"(define(domain problem").unwrap();
    let d = |i: usize| lex::display(&want[i].t);
    Some(if is(0, &d(0)) && is(1, &d(1)) && is(2, &d(2)) {
        if is(3, &d(3)) {
            Kind::Domain
        } else if is(3, &d(4)) {
            Kind::Problem
        } else {
            Kind::Neither
        }
    } else {
        Kind::Neither
    })
}

/// message, line (0: none given), whether it must be marked as an error
#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    msg: String,
    line: u32,
    error: bool,
}
fn diag<X>(o: &Out<X>) -> Option<Diag> {
    let msg = o.msg().to_string();
    Some(match o {
        Out::Ok(_) => return None,
        Out::Lex { line, .. } | Out::Syn { line, .. } => Diag { msg, line: *line, error: true },
        // a duplicate is where it is declared again
        Out::Sem(e, _) => Diag { msg, line: if e.line2 > 0 { e.line2 } else { e.line }, error: e.kind != "DupRequirement" },
    })
}
fn fits(d: &Diag, item: &Value) -> bool {
    let (s, e) = (&item["range"]["start"], &item["range"]["end"]);
    let at = |v: &Value| (v["line"].as_u64().unwrap_or(9999999), v["character"].as_u64().unwrap_or(0));
    item["message"].as_str() == Some(&d.msg) && (d.line == 0 || at(s).0 + 1 == d.line as u64) && at(s) <= at(e) && (!d.error || item["severity"] == 1)
}

/// what a document must be answered with, given the text of the domain in its folder
pub fn expected(doc: &[u8], domain: Option<&[u8]>) -> Option<(Vec<Diag>, Vec<Diag>)> {
    let own = |e: Out<Vec<subject::Warn>>| match &e {
        Out::Lex { .. } | Out::Syn { .. } => diag(&e),
        _ => None,
    };
    Some(match kind(doc)? {
        Kind::Neither => (vec![], vec![]),
        Kind::Domain => (diag(&subject::verify(&doc.to_vec(), None)).into_iter().collect(), vec![]),
        Kind::Problem => match domain {
            None => (own(subject::verify(&valid_domain(), Some(&doc.to_vec()))).into_iter().collect(), vec![]),
            Some(d) => {
                let mut must: Vec<Diag> = diag(&subject::verify(&d.to_vec(), Some(&doc.to_vec()))).into_iter().collect();
                if !subject::verify(&d.to_vec(), None).is_ok() {
                    // a broken domain does not hide the problem's own lexical and syntax errors
                    must.extend(own(subject::verify(&valid_domain(), Some(&doc.to_vec()))));
                }
                (must, vec![])
            }
        },
    })
}
pub fn agrees(answer: &Value, exp: &(Vec<Diag>, Vec<Diag>)) -> Result<(), String> {
    let its = items(answer).ok_or(format!("the answer is {}", answer))?;
    for d in &exp.0 {
        if !its.iter().any(|i| fits(d, i)) {
            return Err(format!("the analyzer says {:?}, the diagnostics are {}", d, json!(its)));
        }
    }
    for i in its {
        if !exp.0.iter().chain(&exp.1).any(|d| fits(d, i)) {
            return Err(format!("the diagnostics say {}, the analyzer says {:?}", i, exp));
        }
    }
    if its.len() > exp.0.len() + exp.1.len() {
        return Err(format!("diagnosed more than once: {}", json!(its)));
    }
    Ok(())
}
fn ask(sim: &mut Sim, uri: &str, text: &str) -> Result<Value, String> {
    sim.in_order(&[open(uri, text), diagnose(7, uri)])?;
    match sim.answers.remove(&7) {
        Some(a) if a.len() == 1 => Ok(a[0].clone()),
        a => Err(format!("the request is answered {:?}", a)),
    }
}
fn label(exp: &(Vec<Diag>, Vec<Diag>)) -> String {
    match exp.0.first() {
        None => "no diagnostics".into(),
        Some(d) if !d.error => "a note".into(),
        Some(d) => format!("error {}", if d.line == 0 { "without line" } else { "with its line" }),
    }
}
/// the document, opened in a folder
fn judge_doc(folder: &Path, doc: &[u8], domain: Option<&[u8]>) -> Verdict {
    // documents of an editor are Unicode text
    let text = match std::str::from_utf8(doc) {
        Ok(t) => t,
        Err(_) => return Ok(None),
    };
    let exp = match expected(doc, domain) {
        Some(e) => e,
        None => return Ok(None),
    };
    let a = ask(&mut Sim::ready()?, &url(&folder.join("editing.hddl")), text)?;
    agrees(&a, &exp)?;
    Ok(Some(label(&exp)))
}
/// domain and problem: the domain is on disk
fn judge_pair(folder: &Path, c: &Case) -> Verdict {
    let f = folder.join("domain.hddl");
    if std::fs::read(&f).ok().as_deref() != Some(&c.d[..]) {
        std::fs::write(&f, &c.d).unwrap();
    }
    match &c.p {
        // whether the file on disk is a domain is for its header to say
        Some(p) => {
            let d = match kind(&c.d) {
                None => return Ok(None),
                Some(Kind::Domain) => Some(&c.d[..]),
                Some(_) => None,
            };
            judge_doc(folder, p, d)
        }
        None => judge_doc(folder, &c.d, None),
    }
}

/// texts that are hard on a server
pub fn hard_texts() -> Vec<String> {
    let mut v: Vec<String> = vec![
        "".into(),
        " ".into(),
        "\n".into(),
        ";".into(),
        "; only a comment".into(),
        "(".into(),
        ")".into(),
        "(define".into(),
        "(define (".into(),
        "(define (domain".into(),
        "(define (problem".into(),
        "(define (domain)".into(),
        "(define (domain d)".into(),
        "(define (problem p)".into(),
        "(define (problem p) (:domain d)".into(),
        "(define (problem p) (:domain d))".into(),
        "(define (domain d))".into(),
        "(DEFINE (DOMAIN d))".into(),
        "((define (domain d)))".into(),
        "(define domain d)".into(),
        "(define (task d))".into(),
        "\u{feff}(define (domain d))".into(),
        "\u{0}".into(),
        "(define (domain d) \u{0})".into(),
        "(define\r\n(domain d)\r\n(:predicates (p))\r\n)".into(),
        "(define (domain d) (:bad))".into(),
        "(define (domain d) 1.)".into(),
        "(define (domain d) ?)".into(),
        "(define (domain d) #)".into(),
        "(define (domain \u{fc}))".into(),
        "\u{1F600}".into(),
        "just text\nin lines".into(),
        format!("(define (domain d) (:action a :parameters () :precondition {}(p){}))", "(not ".repeat(5000), ")".repeat(5000)),
        format!("(define (domain d) (:action a :parameters () :precondition {}", "(and ".repeat(20000)),
        "(".repeat(50_000),
        "\n".repeat(50_000) + "(define (domain d) zz)",
        format!("(define (domain {}))", "d".repeat(100_000)),
        format!("(define (domain d) (:predicates {}))", (0..3000).map(|i| format!("(p{}) ", i)).collect::<String>()),
    ];
    // every kind of defect, in documents on one line and on many
    for (d, p) in super::meta::bases() {
        v.push(String::from_utf8(flat(&d)).unwrap());
        v.push(String::from_utf8(lay(&d)).unwrap());
        if let Some(p) = p {
            v.push(String::from_utf8(flat(&p)).unwrap());
            v.push(String::from_utf8(lay(&p)).unwrap());
        }
    }
    for p in [
        "(:objects o o)", "(:objects o - zz)", "(:init (zz))", "(:init (p o))", "(:goal (zz))", "(:htn :parameters () :subtasks (zz))", "(:htn :parameters () :subtasks (t o))", "(:htn :parameters (?x ?x) :subtasks ())", "(:htn :parameters () :subtasks (and (i (t)) (j (t))) :ordering (and (< i j) (< j i)))", "(:requirements :typing :typing)", "(:init) (:init)",
    ] {
        v.push(format!("(define (problem p) (:domain d) {})", p));
        v.push(format!("(define\n(problem p)\n(:domain d)\n{})", p.replace(' ', "\n")));
    }
    v
}

pub fn run_c20(ctx: &mut Ctx) {
    let base = ctx.scratch.join("docs");
    std::fs::create_dir_all(&base).unwrap();
    let fresh = |n: &str| {
        let p = base.join(n);
        std::fs::create_dir_all(&p).unwrap();
        p
    };
    let (pair_dir, no_dir) = (fresh("pair"), fresh("none"));
    let nowhere = base.join("missing");
    // hard texts: as a document with every hard text as the domain in its folder
    let hard = hard_texts();
    ctx.explore("every document text with every domain text", 0, |c, ctx| {
        let i = c.pick(hard.len());
        let j = c.pick(hard.len() + 2);
        let dk = kind(hard[i].as_bytes());
        // the folder matters to problems only
        if !ctx.mine() || (dk != Some(Kind::Problem) && j > 2) {
            return;
        }
        ctx.case(&(i, j), || format!("document {}\nfolder {}", text(hard[i].as_bytes()).chars().take(500).collect::<String>(), if j >= 2 { text(hard[j - 2].as_bytes()).chars().take(500).collect() } else { String::new() }), || {
            match j {
                0 => judge_doc(&no_dir, hard[i].as_bytes(), None),
                1 => judge_doc(&nowhere, hard[i].as_bytes(), None),
                _ => judge_pair(&pair_dir, &Case { d: hard[j - 2].clone().into_bytes(), p: Some(hard[i].clone().into_bytes()) }),
            }
            .map(|l| l.unwrap_or_default())
        });
    });
    // every edit of tokens and names, in the domain and in the problem
    for (k, (d, p)) in pairs().into_iter().enumerate() {
        let mut w = d.clone();
        w.push("\u{1}".into());
        w.extend(p.clone());
        let mut pool = id_pool(&w);
        pool.push("zz".into());
        let pool: Vec<&str> = pool.iter().map(|s| s.as_str()).collect();
        let full = ctx.thorough() || k > 0;
        let mut es = token_edits(&w, if full { super::text::FULL } else { super::text::CORE });
        es.extend(name_edits(&w, &pool));
        let one_line = [false, true];
        space(
            ctx,
            &format!("pair {}: any edit, problem opened next to its domain", k),
            0,
            |c| {
                let e = super::text::pick_edits(c, &es, 1);
                let l = *c.of(if full { &one_line } else { &one_line[..1] });
                let w = &w;
                Some(move || {
                    let x = apply(w, &e);
                    let at = x.iter().position(|s| s == "\u{1}").unwrap_or(x.len());
                    let f = |w: &[String]| if l { flat(w) } else { lay(w) };
                    Case { d: f(&x[..at]), p: Some(f(x.get(at + 1..).unwrap_or(&[]))) }
                })
            },
            &|c| judge_pair(&pair_dir, c),
        );
        let mut es = token_edits(&d, if full { super::text::FULL } else { super::text::CORE });
        es.extend(name_edits(&d, &pool));
        space(
            ctx,
            &format!("pair {}: any edit, domain opened", k),
            0,
            |c| {
                let e = super::text::pick_edits(c, &es, 1);
                let d = &d;
                Some(move || Case::dom(lay(&apply(d, &e))))
            },
            &|c| judge_doc(&no_dir, &c.d, None),
        );
        let mut es = token_edits(&p, super::text::CORE);
        es.extend(name_edits(&p, &pool));
        space(
            ctx,
            &format!("pair {}: any edit, problem opened without a domain", k),
            0,
            |c| {
                let e = super::text::pick_edits(c, &es, 1);
                let p = &p;
                Some(move || Case { d: vec![], p: Some(lay(&apply(p, &e))) })
            },
            &|c| judge_doc(&no_dir, c.p.as_ref().unwrap(), None),
        );
    }
    space(ctx, "every defect about names of many lengths", 0, |c| Some(pick_defect(c)), &|c: &Case| match c.p {
        None => judge_doc(&no_dir, &c.d, None),
        Some(_) => judge_pair(&pair_dir, c),
    });
    // every feature of the language
    crate::feat::templates(ctx, ctx.bound(&[("world", 2), ("formulas", 1), ("lists", 1)], &[("world", 2), ("formulas", 2), ("networks", 2), ("lists", 2)]), &|c: &Case| {
        let x = judge_doc(&no_dir, &c.d, None)?;
        if c.p.is_some() {
            return Ok(judge_pair(&pair_dir, c)?.or(x));
        }
        Ok(x)
    });
    // far down in a long text
    let downs: Vec<usize> = ctx.bound(vec![1usize, 99, 255, 256, 999, 1000, 4096, 9999, 32767, 65535, 65536], (0..18).flat_map(|e| [(1 << e) - 1, 1 << e, (1 << e) + 1]).chain([99, 100, 999, 1000, 9999, 10_000, 99_999, 100_000, 999_999]).collect());
    ctx.explore("every document, moved down", 0, |c, ctx| {
        let i = c.pick(hard.len());
        let n = *c.of(&downs);
        let inside = c.flag();
        let at = if inside { hard[i].find(')').map(|x| x + 1) } else { Some(0) };
        if at.is_none() || hard[i].len() > 5000 || !ctx.mine() {
            return;
        }
        let (x, y) = hard[i].split_at(at.unwrap());
        let doc = format!("{}{}{}", x, "\n".repeat(n), y).into_bytes();
        ctx.case(&(i, n, inside), || format!("{} lines further down from byte {}: {}", n, x.len(), hard[i]), || {
            Ok(match kind(&doc) {
                Some(Kind::Problem) => judge_pair(&pair_dir, &Case { d: CONTENTS[0].to_vec(), p: Some(doc.clone()) })?,
                _ => judge_doc(&no_dir, &doc, None)?,
            }
            .unwrap_or_default())
        });
    });
    // texts of one length that begin and end alike, one after another
    let cores: [&[u8]; 6] = [CONTENTS[0], CONTENTS[1], CONTENTS[2], CONTENTS[3], CONTENTS[4], CONTENTS[5]];
    let width = cores.iter().map(|c| c.len()).max().unwrap();
    let alike_dir = fresh("alike");
    let sizes = ctx.bound(vec![0usize, 8, 64, 256, 1024, 4096, 65_536], vec![0, 1, 8, 16, 32, 64, 100, 128, 256, 512, 1000, 1024, 2048, 4096, 8192, 16_384, 32_768, 65_536, 1 << 17, 1 << 20]);
    ctx.explore("texts that look alike, one after another", 0, |c, ctx| {
        let (h, t) = (*c.of(&sizes), *c.of(&sizes));
        if h > 0 && t > 0 && h != t {
            return;
        }
        let one_address = c.flag();
        let one_time = c.flag();
        let steps: Vec<(usize, usize)> = (0..2).map(|_| (c.pick(6), c.pick(3))).collect();
        // the folder matters to problems only
        if steps.iter().any(|(d, f)| !(3..=4).contains(d) && *f > 0) || one_time && steps.iter().all(|(d, _)| !(3..=4).contains(d)) || !ctx.mine() {
            return;
        }
        let shape = |k: usize| -> Vec<u8> {
            let comment = |n: usize| if n == 0 { vec![] } else { [vec![b';'], vec![b'c'; n - 1], vec![b'\n']].concat() };
            [comment(h), cores[k].to_vec(), vec![b' '; width - cores[k].len()], vec![b'\n'], comment(t)].concat()
        };
        ctx.case(&(h, t, one_address, one_time, steps.clone()), || format!("comments of {} and {} bytes around texts of one length; (document, domain in its folder): {:?}, then the first again; {}, {}", h, t, steps, if one_address { "one address" } else { "two addresses" }, if one_time { "the domain file always has the same time" } else { "new files" }), || {
            let mut sim = Sim::ready()?;
            let file = alike_dir.join("domain.hddl");
            let mut seen = String::new();
            for (i, (doc, domain)) in [steps[0], steps[1], steps[0]].iter().enumerate() {
                let (doc, domain) = (shape(*doc), shape(*domain));
                std::fs::write(&file, &domain).unwrap();
                if one_time {
                    std::fs::OpenOptions::new().write(true).open(&file).unwrap().set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000)).unwrap();
                }
                let exp = match expected(&doc, Some(&domain)) {
                    Some(e) => e,
                    None => return Ok(String::new()),
                };
                let name = if one_address { "editing.hddl".to_string() } else { format!("editing{}.hddl", i % 2) };
                let a = ask(&mut sim, &url(&alike_dir.join(name)), std::str::from_utf8(&doc).unwrap())?;
                agrees(&a, &exp).map_err(|e| format!("question {}: {}", i + 1, e))?;
                seen = label(&exp);
            }
            Ok(seen)
        });
    });
    // all headers: every sequence of a few tokens
    let len = ctx.bound(5, 6);
    let heads = ["(", ")", "define", "domain", "problem", "d", ":domain", "DEFINE", "defined", ";c\n", ""];
    space(
        ctx,
        "all beginnings of a document",
        0,
        |c| {
            let w: Words = (0..len).map(|_| c.of(&heads).to_string()).collect();
            if w.windows(2).any(|x| x[0].is_empty() && !x[1].is_empty()) {
                return None;
            }
            Some(move || Case::dom(flat(&w)))
        },
        &|c| judge_doc(&no_dir, &c.d, None),
    );
    run_folders(ctx, true);
}

/// what may lie in a folder
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Entry {
    File(&'static str, usize),
    Dir(&'static str),
    /// dangling
    Link(&'static str),
    /// to itself
    Loop(&'static str),
    /// to a file with that content elsewhere
    LinkTo(&'static str, usize),
    /// domain in a folder below
    Below(&'static str),
    /// no permission
    Locked(&'static str),
    /// a name that is no text
    Raw(&'static [u8], usize),
    /// several problems and notes
    Many(usize),
    /// a domain behind a comment of that many bytes
    Big(&'static str, usize),
    /// a pipe that nobody writes to, and a link to one
    Pipe(&'static str),
    PipeLink(&'static str),
    Socket(&'static str),
}
/// contents: a good domain, one that rejects the problem, a broken one, the problem, another problem, no planning file, not text, nothing
const CONTENTS: [&[u8]; 8] = [
    b"(define (domain d) (:predicates (p) (q)))",
    b"(define (domain d)\n(:predicates (q)))",
    b"\n\n(define (domain d) (:predicates (p) (q) (p)))",
    b"(define (problem p) (:domain d) (:init\n(p)))",
    b"(define (problem other) (:domain d) (:init (zz)))",
    b"notes",
    b"\xff\xfe\x00(define",
    b"",
];
const ENTRIES: &[Entry] = &[
    Entry::File("a.hddl", 0),
    Entry::File("z.pddl", 0),
    Entry::File("m.hddl", 1),
    Entry::File("b.pddl", 2),
    Entry::File("editing.hddl", 3),
    Entry::File("c.hddl", 4),
    Entry::File("n.hddl", 5),
    Entry::File("x.pddl", 6),
    Entry::File("y.hddl", 7),
    Entry::File("domain.txt", 1),
    Entry::File("domain", 1),
    Entry::File("domain.hddl.bak", 1),
    Entry::File(".hddl", 1),
    Entry::Dir("sub.hddl"),
    Entry::Link("l.hddl"),
    Entry::Loop("o.pddl"),
    Entry::LinkTo("k.hddl", 0),
    Entry::Below("sub"),
    Entry::Locked("s.hddl"),
    Entry::Raw(b"\xff\xfe.hddl", 0),
    Entry::Raw(b"r.\xff", 1),
    Entry::Raw(b"\xc3\xa4.pddl", 2),
    Entry::Many(3),
    Entry::Many(70),
    Entry::Big("g.hddl", 100_000),
    Entry::Big("e.hddl", 3_000_000),
    Entry::File("UPPER.HDDL", 7),
    Entry::File("two.dots.hddl", 0),
    Entry::File("sp ace.pddl", 1),
    Entry::File("~tmp.hddl", 2),
    Entry::File(".hidden.hddl", 0),
    Entry::File("-.pddl", 1),
    Entry::Pipe("pipe.hddl"),
    Entry::PipeLink("to-pipe.pddl"),
    Entry::Socket("socket.hddl"),
];
/// contents 1, after a long comment
fn big(k: usize) -> &'static [u8] {
    static BIG: std::sync::Mutex<BTreeMap<usize, &'static [u8]>> = std::sync::Mutex::new(BTreeMap::new());
    BIG.lock().unwrap().entry(k).or_insert_with(|| Box::leak([b";".repeat(k), b"\n".to_vec(), CONTENTS[1].to_vec()].concat().into_boxed_slice()))
}
pub fn put(dir: &Path, e: &Entry) {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::{symlink, PermissionsExt};
    match e {
        Entry::File(n, c) => std::fs::write(dir.join(n), CONTENTS[*c]).unwrap(),
        Entry::Dir(n) => std::fs::create_dir(dir.join(n)).unwrap(),
        Entry::Link(n) => symlink(dir.join("nothing-there"), dir.join(n)).unwrap(),
        Entry::Loop(n) => symlink(n, dir.join(n)).unwrap(),
        Entry::LinkTo(n, c) => {
            let t = dir.parent().unwrap().join("elsewhere.txt");
            std::fs::write(&t, CONTENTS[*c]).unwrap();
            symlink(t, dir.join(n)).unwrap()
        }
        Entry::Below(n) => {
            std::fs::create_dir(dir.join(n)).unwrap();
            std::fs::write(dir.join(n).join("domain.hddl"), CONTENTS[1]).unwrap();
        }
        Entry::Locked(n) => {
            std::fs::write(dir.join(n), CONTENTS[1]).unwrap();
            std::fs::set_permissions(dir.join(n), std::fs::Permissions::from_mode(0o000)).unwrap();
        }
        Entry::Raw(n, c) => std::fs::write(dir.join(std::ffi::OsStr::from_bytes(n)), CONTENTS[*c]).unwrap(),
        Entry::Many(k) => {
            for i in 0..*k {
                std::fs::write(dir.join(format!("many{}.{}", i, ["hddl", "pddl", "txt", "png"][i % 4])), CONTENTS[[4, 5, 1, 6][i % 4]]).unwrap();
            }
        }
        Entry::Big(n, k) => std::fs::write(dir.join(n), big(*k)).unwrap(),
        Entry::Pipe(n) => pipe(&dir.join(n)),
        Entry::PipeLink(n) => {
            let t = dir.parent().unwrap().join("elsewhere.pipe");
            pipe(&t);
            symlink(t, dir.join(n)).unwrap()
        }
        Entry::Socket(n) => {
// the name of a socket must be short to be bound
            let path = std::ffi::CString::new(dir.join(n).as_os_str().as_bytes()).unwrap();
            if unsafe { libc::mknod(path.as_ptr(), libc::S_IFSOCK | 0o666, 0) } != 0 {
                use std::os::fd::AsRawFd;
                let at = std::fs::File::open(dir).unwrap();
                let _ = std::os::unix::net::UnixListener::bind(format!("/proc/self/fd/{}/{}", at.as_raw_fd(), n)).unwrap();
            }
        }
    }
}
pub fn pipe(at: &Path) {
    use std::os::unix::ffi::OsStrExt;
    use std::os::unix::fs::PermissionsExt;
    let n = std::ffi::CString::new(at.as_os_str().as_bytes()).unwrap();
    assert_eq!(unsafe { libc::mkfifo(n.as_ptr(), 0o666) }, 0);
    std::fs::set_permissions(at, std::fs::Permissions::from_mode(0o666)).unwrap();
}
/// the domains a problem in the folder may be held against
pub fn domains_in(es: &[Entry]) -> Vec<&'static [u8]> {
    es.iter()
        .filter_map(|e| match e {
            Entry::File(n, c) | Entry::LinkTo(n, c) if (n.ends_with(".hddl") || n.ends_with(".pddl")) && *n != ".hddl" && *c < 3 => Some(CONTENTS[*c]),
            Entry::Raw(n, c) if (n.ends_with(b".hddl") || n.ends_with(b".pddl")) && *c < 3 => Some(CONTENTS[*c]),
            Entry::Big(_, k) => Some(big(*k)),
            _ => None,
        })
        .collect()
}
/// runs f as a user without privileges, if this process may change to one
pub fn unprivileged<X>(f: impl FnOnce() -> X) -> X {
    struct Back(bool);
    impl Drop for Back {
        fn drop(&mut self) {
            if self.0 {
                unsafe { libc::seteuid(0) };
            }
        }
    }
    let _b = Back(unsafe { libc::geteuid() == 0 && libc::seteuid(65534) == 0 });
    f()
}
pub fn public_scratch(tag: &str) -> PathBuf {
    use std::os::unix::fs::PermissionsExt;
    let p = std::env::temp_dir().join(format!("mc-{}-{}", tag, std::process::id()));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
    p
}

/// strict: the diagnostics are those of the analyzer; otherwise only that the server answers, and goes on
fn run_folders(ctx: &mut Ctx, strict: bool) {
    use std::os::unix::ffi::OsStrExt;
    let pub_dir = public_scratch("lsp");
    let max = if strict { ctx.bound(2, 3) } else { ctx.bound(1, 2) };
    let docs: Vec<&[u8]> = vec![CONTENTS[3], CONTENTS[4], b"(define (problem p) (:domain d) (:init\n\n(p) zz", b"(define (problem p)"];
    let places: [&[u8]; 14] = [b"f", b"with space", "\u{fc}ml\u{e4}ut".as_bytes(), b"a%20b", b"x.hddl", b"q?x=1", b"h#frag", b"semi;colon", b"f/deeper", b"per%cent", b"no\xfftext", b"\xe2\x82", b"back\\slash", b"new\nline"];
    let names: [&[u8]; 4] = [b"editing.hddl", b"\xff.hddl", b"editing", "\u{e4} b.pddl".as_bytes()];
    // every choice of a few things in the folder, in every order of their creation
    ctx.explore(&format!("all folders with up to {} things in them", max), max, |c, ctx| {
        let d = c.pick(docs.len());
        let place = c.pick(places.len());
        let name = c.pick(names.len());
        let mut es: Vec<Entry> = vec![];
        for _ in 0..max {
            let k = c.deviate(ENTRIES.len() + 1);
            if k == 0 {
                break;
            }
            es.push(ENTRIES[k - 1]);
        }
        let dup = (0..es.len()).any(|i| es[..i].contains(&es[i]));
        // the name of the folder is varied for the small ones
        if dup || ((place > 0 || name > 0) && es.len() > 1) || (place > 0 && name > 1) || !ctx.mine() {
            return;
        }
        ctx.case(&(d, place, name, es.clone()), || format!("document {} at {:?}, folder {:?} {:?}", text(docs[d]), text(names[name]), text(places[place]), es), || {
            let root = pub_dir.join("r");
            let dir = root.join(std::ffi::OsStr::from_bytes(places[place]));
            std::fs::create_dir_all(&dir).unwrap();
            for e in &es {
                put(&dir, e);
            }
            let mut doms = domains_in(&es);
            if es.contains(&Entry::Locked("s.hddl")) && unprivileged(|| std::fs::read(dir.join("s.hddl")).is_ok()) {
                doms.push(CONTENTS[1]);
            }
            let mut s = Sim::ready()?;
            let uri = url(&dir.join(std::ffi::OsStr::from_bytes(names[name])));
            let r = unprivileged(|| ask(&mut s, &uri, std::str::from_utf8(docs[d]).unwrap()));
            let _ = std::fs::remove_dir_all(&root);
            let a = r?;
            if !strict {
                return goes_on(s, &a);
            }
            let exps: Vec<_> = if doms.is_empty() { vec![expected(docs[d], None).unwrap()] } else { doms.iter().map(|x| expected(docs[d], Some(x)).unwrap()).collect() };
            // with several domains in the folder, it is any of them
            let rs: Vec<_> = exps.iter().map(|e| agrees(&a, e)).collect();
            if rs.iter().all(|r| r.is_err()) {
                return rs.into_iter().next().unwrap().map(|_| String::new());
            }
            Ok(format!("{} domains, {}", doms.len(), label(&exps[0])))
        });
    });
    // addresses that are no files, for every kind of document
    let odd = ["untitled:Untitled-1", "inmemory://model/1", "http://host/p.hddl", "file:///p.hddl", "file:///", "file:///nowhere/at/all/p.hddl", "git:/p.hddl", "mailto:a@b", "file:///tmp", "data:,x", "file:///%00/p.hddl", "file:///a%2Fb/p.hddl", "vscode-notebook-cell:/x/y.hddl#abc", "file://host/share/p.hddl", "file:///%FF/p.hddl", "file:///nowhere/%FF", "untitled:%FF", "x:", "file:///proc/self/nothing/p.hddl", "http://[::1]:80/p"];
    let hard = hard_texts();
    ctx.explore("documents that are no files", 0, |c, ctx| {
        let u = c.pick(odd.len());
        let t = c.pick(hard.len());
        if !ctx.mine() {
            return;
        }
        ctx.case(&(u, t), || format!("{} {}", odd[u], text(hard[t].as_bytes()).chars().take(300).collect::<String>()), || {
            let mut s = Sim::ready()?;
            let a = ask(&mut s, odd[u], &hard[t])?;
            if !strict {
                return goes_on(s, &a);
            }
            let exp = match expected(hard[t].as_bytes(), None) {
                Some(e) => e,
                None => return Ok(String::new()),
            };
            agrees(&a, &exp)?;
            Ok(label(&exp))
        });
    });
    if !strict {
        let _ = std::fs::remove_dir_all(&pub_dir);
        return;
    }
    // one domain among many other files, and domains of every size
    let counts = ctx.bound(vec![0usize, 1, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 511, 999, 1000, 1001, 1024, 2000], vec![0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 10_000]);
    ctx.explore("a domain among many files", 0, |c, ctx| {
        let n = *c.of(&counts);
        let what = c.pick(4);
        let first = c.flag();
        let which = c.pick(3);
        if !ctx.mine() {
            return;
        }
        ctx.case(&(n, what, first, which), || format!("{} files with {}, and {} made {}", n, ["nothing", "another problem", "notes", "a broken text"][what], ["a good domain", "a domain that rejects the problem", "no domain"][which], if first { "first" } else { "last" }), || {
            let root = pub_dir.join("m");
            let _ = std::fs::remove_dir_all(&root);
            std::fs::create_dir_all(&root).unwrap();
            let dom = || {
                if which < 2 {
                    std::fs::write(root.join("the-domain.hddl"), CONTENTS[which]).unwrap();
                }
            };
            if first {
                dom();
            }
            for i in 0..n {
                let text: &[u8] = [b"" as &[u8], CONTENTS[4], b"notes", b"(define (domai"][what];
                std::fs::write(root.join(format!("{}{}.{}", ["x", "a", "n", "zz"][what], i, ["hddl", "pddl", "txt", "hddl"][what])), text).unwrap();
            }
            if !first {
                dom();
            }
            let mut s = Sim::ready()?;
            let doc = CONTENTS[3];
            let a = ask(&mut s, &url(&root.join("editing.hddl")), std::str::from_utf8(doc).unwrap());
            let _ = std::fs::remove_dir_all(&root);
            let exp = expected(doc, if which < 2 { Some(CONTENTS[which]) } else { None }).unwrap();
            agrees(&a?, &exp)?;
            Ok(label(&exp))
        });
    });
    let top = ctx.bound(21, 25);
    ctx.explore("domains of every size", 0, |c, ctx| {
        let e = c.pick(top + 1);
        let off = c.pick(3);
        let at = c.pick(4);
        let which = c.pick(3);
        if !ctx.mine() {
            return;
        }
        let n = ((1usize << e) + off).saturating_sub(1);
        ctx.case(&(n, at, which), || format!("{} bytes of {} in domain {}", n, ["comment before it", "comment within", "comment after it", "lines before it"][at], which), || {
            let root = pub_dir.join("s");
            let _ = std::fs::remove_dir_all(&root);
            std::fs::create_dir_all(&root).unwrap();
            let t = std::str::from_utf8(CONTENTS[which]).unwrap();
            let pad = format!(";{}\n", "c".repeat(n));
            let text = match at {
                0 => format!("{}{}", pad, t),
                1 => t.replacen("domain d)", &format!("domain d)\n{}", pad), 1),
                2 => format!("{}\n{}", t, pad),
                _ => format!("{}{}", "\n".repeat(n), t),
            }
            .into_bytes();
            std::fs::write(root.join("d.hddl"), &text).unwrap();
            let mut s = Sim::ready()?;
            let doc = CONTENTS[3];
            let a = ask(&mut s, &url(&root.join("editing.hddl")), std::str::from_utf8(doc).unwrap());
            let _ = std::fs::remove_dir_all(&root);
            let exp = expected(doc, Some(&text)).unwrap();
            agrees(&a?, &exp)?;
            Ok(label(&exp))
        });
    });
    // the folder changes between requests: the domain that is there now counts
    let steps = ctx.bound(3, 4);
    ctx.explore(&format!("all histories of {} changes to the folder, a request after each", steps), 0, |c, ctx| {
        let moves: Vec<usize> = (0..steps).map(|_| c.pick(7)).collect();
        let order = c.flag();
        if !ctx.mine() {
            return;
        }
        ctx.case(&(moves.clone(), order), || format!("folder: {:?} (0 no domain, 1 good, 2 rejecting, 3 broken, 4 folder gone, 5 replaced by a folder, 6 reopened)", moves), || {
            let root = pub_dir.join("h");
            let dir = root.join("f");
            let _ = std::fs::remove_dir_all(&root);
            std::fs::create_dir_all(&dir).unwrap();
            let mut s = Sim::ready()?;
            let uri = url(&dir.join("editing.hddl"));
            let doc = CONTENTS[3];
            s.in_order(&[open(&uri, std::str::from_utf8(doc).unwrap())])?;
            let f = dir.join(if order { "a.hddl" } else { "z.pddl" });
            let mut now: Option<&[u8]> = None;
            for m in &moves {
                if *m != 6 {
                    let _ = std::fs::remove_dir_all(&root);
                    std::fs::create_dir_all(&dir).unwrap();
                    now = None;
                }
                match m {
                    0 => {}
                    1..=3 => {
                        now = Some(CONTENTS[*m - 1]);
                        std::fs::write(&f, CONTENTS[*m - 1]).unwrap();
                    }
                    4 => std::fs::remove_dir_all(&root).unwrap(),
                    5 => std::fs::create_dir(&f).unwrap(),
                    _ => s.in_order(&[open(&uri, std::str::from_utf8(doc).unwrap())])?,
                }
                s.in_order(&[diagnose(7, &uri)])?;
                let a = s.answers.remove(&7).ok_or("no answer")?;
                agrees(&a[0], &expected(doc, now).unwrap())?;
            }
            let _ = std::fs::remove_dir_all(&root);
            Ok("followed".into())
        });
    });
    let _ = std::fs::remove_dir_all(&pub_dir);
}

// ---------------------------------------------------------------- C21

const PROBE: &str = "\n\n(define (domain d) (:predicates (p ?x - probed)))";
/// the answer is a report, and so is the next one
fn goes_on(mut s: Sim, a: &Value) -> Result<String, String> {
    if items(a).is_none() {
        return Err(format!("a synced document is answered {}", a));
    }
    s.in_order(&probe_msgs())?;
    probe_ok(s.answers.get(&900))?;
    Ok("answered".into())
}
fn probe_ok(a: Option<&Vec<Value>>) -> Result<(), String> {
    match a {
        Some(a) if a.len() == 1 => {
            let exp = expected(PROBE.as_bytes(), None).unwrap();
            agrees(&a[0], &exp).map_err(|e| format!("afterwards the server does not serve: {}", e))
        }
        a => Err(format!("afterwards the server does not serve: {:?}", a)),
    }
}
fn probe_msgs() -> Vec<Value> {
    vec![open("untitled:probe", PROBE), diagnose(900, "untitled:probe")]
}
/// every request answered once (the number of a request may be used again), and the probe
fn all_answered(msgs: &[Value], answers: &BTreeMap<i64, Vec<Value>>) -> Result<(), String> {
    for m in msgs {
        if let Some(id) = m.get("id").and_then(|i| i.as_i64()) {
            match answers.get(&id) {
                Some(a) if a.len() == 1 && (a[0].get("result").is_some() || a[0].get("error").is_some()) => {}
                a => return Err(format!("request {} {} is answered {:?}", id, m["method"], a)),
            }
        }
    }
    Ok(())
}

/// message number n of a menu; ids are positions
fn menu(n: usize, id: i64, f: &Path) -> Option<Value> {
    let (d, p, q) = (url(&f.join("doc.hddl")), url(&f.join("prob.hddl")), url(&f.join("never.hddl")));
    Some(match n {
        0 => diagnose(id, &d),
        1 => diagnose(id, &p),
        2 => diagnose(id, &q),
        3 => open(&d, "(define (domain d) (:predicates (p) (p)))"),
        4 => open(&p, "(define (problem p) (:domain d) (:init (zz)))"),
        5 => change(&d, &["(define (domain d))"]),
        6 => change(&p, &[]),
        7 => save(&q, None),
        8 => save(&p, Some("(define (problem p) (:domain d) zz)")),
        9 => notification("$/cancelRequest", json!({"id": id - 1})),
        10 => notification("textDocument/didClose", json!({"textDocument": {"uri": p}})),
        11 => request(id, "textDocument/unknown", json!({})),
        12 => request(id, "textDocument/diagnostic", json!({"textDocument": 3})),
        13 => notification("textDocument/didOpen", json!({"wrong": true})),
        14 => notification("workspace/didChangeConfiguration", json!({"settings": null})),
        15 => request(id, "textDocument/hover", json!({"textDocument": {"uri": d}, "position": {"line": 0, "character": 0}})),
        16 => notification("$/setTrace", json!({"value": "off"})),
        17 => initialize(id),
        18 => notification("initialized", json!({})),
        19 => request(id, "shutdown", Value::Null),
        _ => return None,
    })
}
const MENU: usize = 20;

pub fn run_c21(ctx: &mut Ctx) {
    CPU_LIMIT_MS.store(200_000, std::sync::atomic::Ordering::SeqCst);
    WALL_LIMIT_MS.store(400_000, std::sync::atomic::Ordering::SeqCst);
    let f = ctx.scratch.join("f");
    std::fs::create_dir_all(&f).unwrap();
    std::fs::write(f.join("domain.hddl"), CONTENTS[0]).unwrap();
    let len = ctx.bound(4, 5);
    let budget = 2;
    // all sequences, before and after the handshake
    for n in 1..=len {
        ctx.explore(&format!("all sequences of {} messages, schedules", n), 0, |c, ctx| {
            let ready = c.flag();
            let ops: Vec<usize> = (0..n).map(|_| c.pick(MENU)).collect();
            // what comes after the handshake needs no second one, and vice versa
            if n > 3 && (!ready || ops.iter().any(|o| *o >= 10)) {
                return;
            }
            if !ctx.mine() {
                return;
            }
            let msgs: Vec<Value> = ops.iter().enumerate().map(|(i, o)| menu(*o, i as i64, &f).unwrap()).collect();
            ctx.case(&(ready, ops.clone()), || format!("{}{}", if ready { "after the handshake: " } else { "" }, msgs.iter().map(|m| m.to_string()).collect::<Vec<_>>().join("\n")), || {
                Chooser::all(budget, |c| {
                    let policy = *c.of(&POLICIES);
                    let mut s = if ready { Sim::ready()? } else { Sim::new() };
                    s.interleaved(&msgs, c, policy)?;
                    if s.abandoned() {
                        return Ok(());
                    }
                    all_answered(&msgs, &s.answers)?;
                    // it goes on serving, unless it was told to stop or never told to start
                    let started = ready || ops.contains(&17);
                    let stopped = (0..ops.len()).any(|i| ops[i] == 19 && (ready || ops[..i].contains(&17)));
                    s.in_order(&probe_msgs())?;
                    if started && !stopped {
                        probe_ok(s.answers.get(&900))
                    } else if s.answers.get(&900).map(|a| a.len() == 1 && a[0].get("error").is_some()).unwrap_or(false) {
                        Ok(())
                    } else {
                        Err(format!("a server that is not running answers {:?}", s.answers.get(&900)))
                    }
                })?;
                Ok(format!("{} messages answered", n))
            });
        });
    }
    // long sessions: every pair of messages over and over
    let top = ctx.bound(300, 3000);
    ctx.explore("every two messages, over and over", 0, |c, ctx| {
        let (a, b) = (c.pick(17), c.pick(17));
        let n = *c.of(&[17, 70, top]);
        if !ctx.mine() {
            return;
        }
        ctx.case(&(a, b, n), || format!("{} times {} and {}", n, menu(a, 0, &f).unwrap(), menu(b, 1, &f).unwrap()), || {
            let mut s = Sim::ready()?;
            for i in 0..n {
                let msgs = [menu(a, 1000 + 2 * i as i64, &f).unwrap(), menu(b, 1001 + 2 * i as i64, &f).unwrap()];
                s.in_order(&msgs)?;
                all_answered(&msgs, &s.answers)?;
            }
            s.in_order(&probe_msgs())?;
            probe_ok(s.answers.get(&900))?;
            Ok("answered".into())
        });
    });
    // texts that are hard on the analyzer, one after the other
    let hard = hard_texts();
    ctx.explore("every text, then every other text", 0, |c, ctx| {
        let i = c.pick(hard.len());
        let j = c.pick(hard.len());
        let how = c.pick(3);
        let uris = [url(&f.join("editing.hddl")), "untitled:x".to_string(), url(Path::new("/nowhere/at/all/x.hddl"))];
        if !ctx.mine() {
            return;
        }
        ctx.case(&(i, j, how), || format!("{} then {} at {}", hard[i].chars().take(300).collect::<String>(), hard[j].chars().take(300).collect::<String>(), uris[how]), || {
            let u = &uris[how];
            let mut msgs = vec![match how {
                0 => open(u, &hard[i]),
                1 => change(u, &[&hard[i]]),
                _ => save(u, Some(&hard[i])),
            }];
            msgs.extend([diagnose(1, u), change(u, &[&hard[j]]), diagnose(2, u), save(u, None), diagnose(3, u)]);
            let mut s = Sim::ready()?;
            s.in_order(&msgs)?;
            all_answered(&msgs, &s.answers)?;
            for a in s.answers.values() {
                if items(&a[0]).is_none() {
                    return Err(format!("a synced document is answered {}", a[0]));
                }
            }
            s.in_order(&probe_msgs())?;
            probe_ok(s.answers.get(&900))?;
            Ok("answered".into())
        });
    });
    // saving a document that has no text yet, and is something or other on disk
    let at = ctx.scratch.join("saved");
    ctx.explore("saving a document without text, over whatever is there", 0, |c, ctx| {
        let k = c.pick(ENTRIES.len());
        let n = 1 + c.pick(6);
        let asked = c.flag();
        let unpriv = c.flag();
        let name = match ENTRIES[k] {
            Entry::File(n, _) | Entry::Dir(n) | Entry::Link(n) | Entry::Loop(n) | Entry::LinkTo(n, _) | Entry::Below(n) | Entry::Locked(n) | Entry::Big(n, _) | Entry::Pipe(n) | Entry::PipeLink(n) | Entry::Socket(n) => n,
            _ => return,
        };
        if !ctx.mine() {
            return;
        }
        ctx.case(&(k, n, asked, unpriv), || format!("{} saves of {:?}{}{}", n, ENTRIES[k], if asked { ", a request before" } else { "" }, if unpriv { ", as someone without rights" } else { "" }), || {
            let dir = at.join("f");
            let _ = std::fs::remove_dir_all(&at);
            std::fs::create_dir_all(&dir).unwrap();
            put(&dir, &ENTRIES[k]);
            let u = url(&dir.join(name));
            let mut msgs = vec![];
            if asked {
                msgs.push(diagnose(1, &u));
            }
            msgs.extend((0..n).map(|_| save(&u, None)));
            msgs.extend([diagnose(2, &u), open(&u, PROBE), diagnose(3, &u)]);
            let mut s = Sim::ready()?;
            let r = if unpriv { unprivileged(|| s.in_order(&msgs)) } else { s.in_order(&msgs) };
            let _ = std::fs::remove_dir_all(&at);
            r?;
            all_answered(&msgs, &s.answers)?;
            let a = s.answers[&3][0].clone();
            agrees(&a, &expected(PROBE.as_bytes(), None).unwrap())?;
            goes_on(s, &a)
        });
    });
    run_folders(ctx, false);
    // what a client may say of itself
    ctx.explore("every form of the handshake", 0, |c, ctx| {
        let rooturi = c.pick(5);
        let caps = c.pick(6);
        let extra = c.pick(5);
        let second = c.pick(4);
        let what = c.pick(4);
        if !ctx.mine() {
            return;
        }
        let here = url(&f);
        let mut p = json!({"processId": if extra == 1 { json!(1) } else { Value::Null }, "capabilities": match caps {
            0 => json!({}),
            1 => json!({"textDocument": {"diagnostic": {"dynamicRegistration": true, "relatedDocumentSupport": true}}}),
            2 => json!({"textDocument": {"synchronization": {"didSave": true, "willSave": true}, "publishDiagnostics": {"relatedInformation": true}}}),
            3 => json!({"workspace": {"workspaceFolders": true, "configuration": true, "diagnostics": {"refreshSupport": true}}}),
            4 => json!({"general": {"positionEncodings": ["utf-8", "utf-16"]}, "window": {"workDoneProgress": true}}),
            _ => json!({"experimental": {"x": [1, 2]}, "unheard": 1}),
        }});
        match rooturi {
            0 => p["rootUri"] = Value::Null,
            1 => p["rootUri"] = json!(here),
            2 => p["rootUri"] = json!("file:///nowhere"),
            3 => p["rootPath"] = json!("/nowhere"),
            _ => p["workspaceFolders"] = json!([{"uri": here, "name": "f"}, {"uri": "untitled:x", "name": ""}]),
        }
        match extra {
            2 => p["clientInfo"] = json!({"name": "an editor"}),
            3 => p["initializationOptions"] = json!({"a": null}),
            4 => p["trace"] = json!("verbose"),
            _ => {}
        }
        let mut msgs = vec![request(1, "initialize", p)];
        match second {
            0 => msgs.push(notification("initialized", json!({}))),
            1 => {}
            2 => msgs.extend([notification("initialized", json!({})), notification("initialized", json!({}))]),
            _ => msgs.extend([notification("$/setTrace", json!({"value": "verbose"})), notification("initialized", json!({}))]),
        }
        let u = [url(&f.join("x.hddl")), "untitled:x".into()][what % 2].clone();
        let t = if what < 2 { "(define (problem p) (:domain d) (:init (zz)))" } else { "(define (domain d) zz)" };
        msgs.extend([open(&u, t), diagnose(2, &u)]);
        ctx.case(&(rooturi, caps, extra, second, what), || msgs.iter().map(|m| m.to_string()).collect::<Vec<_>>().join("\n"), || {
            let mut s = Sim::new();
            s.in_order(&msgs)?;
            all_answered(&msgs, &s.answers)?;
            if s.answers[&1][0].get("result").is_none() {
                return Err(format!("the handshake is answered {}", s.answers[&1][0]));
            }
            let a = s.answers[&2][0].clone();
            goes_on(s, &a)
        });
    });
    // the folder changes while a request is being handled: any one fault before any file operation
    let root = ctx.scratch.join("faults");
    let points = ctx.bound(8, 16);
    ctx.explore("a fault in the folder at every file operation of a request", 0, |c, ctx| {
        let at = c.pick(points);
        let fault = c.pick(6);
        let at2 = c.pick(if ctx.thorough() { points } else { 1 });
        let doc = c.pick(3);
        let files = c.pick(4);
        let op = c.pick(2);
        if !ctx.mine() {
            return;
        }
        ctx.case(&(at, at2, fault, doc, files, op), || format!("fault {} before file operation {} (and {}), document {}, folder {}", fault, at, at2, doc, files), || {
            let dir = root.join("f");
            let _ = std::fs::remove_dir_all(&root);
            std::fs::create_dir_all(&dir).unwrap();
            let es: &[Entry] = match files {
                0 => &[],
                1 => &[Entry::File("a.hddl", 0)],
                2 => &[Entry::File("c.hddl", 4), Entry::File("a.hddl", 0), Entry::File("editing.hddl", 3)],
                _ => &[Entry::File("n.hddl", 5), Entry::Dir("sub.hddl"), Entry::File("b.pddl", 2), Entry::Link("l.hddl")],
            };
            for e in es {
                put(&dir, e);
            }
            let uri = url(&dir.join("editing.hddl"));
            let texts = [std::str::from_utf8(CONTENTS[3]).unwrap(), "(define (problem p) zz", "(define (problem p) (:domain d) (:init (zz)))"];
            let mut s = Sim::ready()?;
            let d2 = dir.clone();
            s.fault = Some(Box::new(move |n| {
                if n != at && n != at2 || n == 0 && at2 == 0 && at != 0 {
                    return;
                }
                let all = || std::fs::read_dir(&d2).map(|r| r.filter_map(|e| e.ok()).map(|e| e.path()).collect::<Vec<_>>()).unwrap_or_default();
                match fault {
                    0 => {
                        let _ = std::fs::remove_dir_all(&d2);
                    }
                    1 => all().iter().for_each(|p| {
                        let _ = std::fs::remove_file(p);
                    }),
                    2 => all().iter().for_each(|p| {
                        let _ = std::fs::remove_file(p);
                        let _ = std::fs::create_dir(p);
                    }),
                    3 => all().iter().for_each(|p| {
                        let _ = std::fs::write(p, CONTENTS[6]);
                    }),
                    4 => {
                        let _ = std::fs::remove_dir_all(&d2);
                        let _ = std::fs::write(&d2, "a file now");
                    }
                    _ => all().iter().for_each(|p| {
                        let _ = std::fs::write(p, CONTENTS[2]);
                    }),
                }
            }));
            let first = if op == 0 { open(&uri, texts[doc]) } else { save(&uri, None) };
            let msgs = vec![first, diagnose(1, &uri), diagnose(2, &uri)];
            s.in_order(&msgs)?;
            all_answered(&msgs, &s.answers)?;
            if op == 0 && s.answers.values().any(|a| items(&a[0]).is_none()) {
                return Err(format!("a synced document is answered {:?}", s.answers));
            }
            s.in_order(&probe_msgs())?;
            probe_ok(s.answers.get(&900))?;
            let _ = std::fs::remove_file(&dir);
            let _ = std::fs::remove_dir_all(&root);
            Ok(if s.waits > at { "with the fault" } else { "no such operation" }.to_string())
        });
    });
    // the real server process
    let bin = std::env::current_exe().unwrap().with_file_name("hddl_lsp");
    let depth = ctx.bound(2, 3);
    ctx.explore(&format!("the server process: every text; all sequences of {} messages", depth), 0, |c, ctx| {
        let mut msgs: Vec<Value> = vec![initialize(-1), notification("initialized", json!({}))];
        if c.flag() {
            let i = c.pick(hard.len());
            let u = [url(&f.join("editing.hddl")), "untitled:x".to_string()][c.pick(2)].clone();
            msgs.extend([open(&u, &hard[i]), diagnose(1, &u), change(&u, &[&hard[i]]), diagnose(2, &u), save(&u, None), diagnose(3, &u)]);
        } else {
            for i in 0..depth {
                msgs.push(menu(c.pick(MENU - 1), i as i64, &f).unwrap());
            }
        }
        msgs.extend(probe_msgs());
        if !ctx.mine() {
            return;
        }
        let key = serde_json::to_string(&msgs).unwrap();
        ctx.case(&key, || msgs.iter().map(|m| m.to_string().chars().take(400).collect::<String>()).collect::<Vec<_>>().join("\n"), || {
            let answers = stdio(&bin, &f, &msgs)?;
            all_answered(&msgs, &answers)?;
            probe_ok(answers.get(&900))?;
            Ok("process answered".into())
        });
    });
}

/// the messages through the process, all at once after the handshake; returns when every request is answered
pub fn stdio(bin: &Path, cwd: &Path, msgs: &[Value]) -> Result<BTreeMap<i64, Vec<Value>>, String> {
    use std::io::{BufRead, Read, Write};
    let mut kid = std::process::Command::new(bin).current_dir(cwd).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let mut stdin = kid.stdin.take().unwrap();
    let mut out = std::io::BufReader::new(kid.stdout.take().unwrap());
    let frame = |m: &Value| {
        let b = serde_json::to_vec(m).unwrap();
        let mut v = format!("Content-Length: {}\r\n\r\n", b.len()).into_bytes();
        v.extend(b);
        v
    };
    // the rest may be sent once the first message, initialize, is answered
    let head = frame(&msgs[0]);
    let bytes: Vec<u8> = msgs[1..].iter().flat_map(frame).collect();
    let (go, gone) = std::sync::mpsc::channel::<()>();
    let want = msgs.iter().filter(|m| m.get("id").is_some()).count();
    let (tx, rx) = std::sync::mpsc::channel::<Result<Value, String>>();
    let w = std::thread::spawn(move || {
        let _ = stdin.write_all(&head);
        let _ = stdin.flush();
        let _ = gone.recv();
        let _ = stdin.write_all(&bytes);
        let _ = stdin.flush();
        stdin
    });
    let r = std::thread::spawn(move || loop {
        let mut len = 0;
        loop {
            let mut l = String::new();
            match out.read_line(&mut l) {
                Ok(0) | Err(_) => {
                    let _ = tx.send(Err("the server process ended".into()));
                    return;
                }
                _ => {}
            }
            let l = l.trim().to_lowercase();
            if l.is_empty() {
                break;
            }
            if let Some(n) = l.strip_prefix("content-length:") {
                len = n.trim().parse().unwrap_or(0);
            }
        }
        let mut b = vec![0; len];
        if out.read_exact(&mut b).is_err() {
            return;
        }
        match serde_json::from_slice(&b) {
            Ok(v) => {
                let _ = tx.send(Ok(v));
            }
            Err(e) => {
                let _ = tx.send(Err(format!("the server writes no JSON: {}", e)));
            }
        }
    });
    let mut answers: BTreeMap<i64, Vec<Value>> = BTreeMap::new();
    let mut n = 0;
    let mut res = Ok(());
    while n < want {
        match rx.recv_timeout(std::time::Duration::from_secs(60)) {
            Ok(Ok(v)) => {
                if v.get("method").is_none() {
                    let _ = go.send(());
                    n += 1;
                    answers.entry(v["id"].as_i64().unwrap_or(-99)).or_default().push(v);
                }
            }
            Ok(Err(e)) => {
                res = Err(e);
                break;
            }
            Err(_) => {
                res = Err(format!("after 60 s only {} of {} requests are answered", n, want));
                break;
            }
        }
    }
    let _ = kid.kill();
    let _ = kid.wait();
    drop(go);
    let _ = w.join();
    let _ = r.join();
    res.map(|_| answers)
}
