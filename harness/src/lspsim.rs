//! The language server under a scheduler of our own. The real server (tower-lsp) polls the handlers
//! from one task: messages start in the order of arrival, at most four are in progress, and between
//! two awaits anything may happen first. Every such choice is explored here.
use crate::engine::Chooser;
use futures::future::BoxFuture;
use futures::stream::StreamExt;
use hddl_analyzer::RequestHandler;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tower_lsp::jsonrpc::{Request, Response};
use tower_lsp::{ClientSocket, LspService};
use tower_service::Service;

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Pool {
    rt: &'static tokio::runtime::Runtime,
    gate: std::cell::RefCell<std::sync::mpsc::Sender<()>>,
}
fn pool() -> Pool {
    let rt: &'static _ = Box::leak(Box::new(tokio::runtime::Builder::new_current_thread().enable_all().max_blocking_threads(1).build().unwrap()));
    Pool { rt, gate: std::cell::RefCell::new(shut(rt)) }
}
thread_local! {
    static POOL: std::cell::RefCell<Pool> = std::cell::RefCell::new(pool());
}
/// The one thread for file operations is kept busy until the gate opens, so that a file operation
/// always suspends the handler that awaits it.
fn shut(rt: &'static tokio::runtime::Runtime) -> std::sync::mpsc::Sender<()> {
    let (tx, rx) = std::sync::mpsc::channel();
    rt.spawn_blocking(move || {
        let _ = rx.recv();
    });
    tx
}
/// File operations started before are finished afterwards. One that does not come back (in half a
/// minute) is left behind: the handler that awaits it will never go on.
fn settle() {
    let back = POOL.with(|p| {
        let p = p.borrow();
        let _ = p.gate.borrow().send(());
        let h = p.rt.spawn_blocking(|| ());
        let back = p.rt.block_on(async { tokio::time::timeout(std::time::Duration::from_secs(30), h).await.is_ok() });
        if back {
            *p.gate.borrow_mut() = shut(p.rt);
        }
        back
    });
    if !back {
        POOL.with(|p| *p.borrow_mut() = pool());
    }
}
fn inside<X>(f: impl FnOnce() -> X) -> X {
    POOL.with(|p| {
        let rt = p.borrow().rt;
        let _g = rt.enter();
        f()
    })
}

type Fut = BoxFuture<'static, Result<Option<Response>, tower_lsp::ExitedError>>;
pub struct Sim {
    service: LspService<RequestHandler>,
    socket: ClientSocket,
    flying: Vec<(usize, Fut, Arc<Flag>)>,
    pub answers: BTreeMap<i64, Vec<Value>>,
    /// messages handled to the end
    pub finished: usize,
    delivered: usize,
    /// called before file operations are carried out, with their number
    pub fault: Option<Box<dyn FnMut(usize)>>,
    pub waits: usize,
}

pub fn request(id: i64, method: &str, params: Value) -> Value {
    json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params})
}
pub fn notification(method: &str, params: Value) -> Value {
    json!({"jsonrpc": "2.0", "method": method, "params": params})
}
pub fn initialize(id: i64) -> Value {
    request(id, "initialize", json!({"processId": null, "rootUri": null, "capabilities": {}}))
}
pub fn open(uri: &str, text: &str) -> Value {
    notification("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "hddl", "version": 1, "text": text}}))
}
pub fn change(uri: &str, texts: &[&str]) -> Value {
    notification("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": 2}, "contentChanges": texts.iter().map(|t| json!({"text": t})).collect::<Vec<_>>()}))
}
pub fn save(uri: &str, text: Option<&str>) -> Value {
    let mut p = json!({"textDocument": {"uri": uri}});
    if let Some(t) = text {
        p["text"] = json!(t);
    }
    notification("textDocument/didSave", p)
}
pub fn diagnose(id: i64, uri: &str) -> Value {
    request(id, "textDocument/diagnostic", json!({"textDocument": {"uri": uri}}))
}

impl Sim {
    pub fn new() -> Sim {
        let (service, socket) = LspService::new(RequestHandler::new);
        Sim { service, socket, flying: vec![], answers: BTreeMap::new(), finished: 0, delivered: 0, fault: None, waits: 0 }
    }
    /// handshake done
    pub fn ready() -> Result<Sim, String> {
        let mut s = Sim::new();
        s.in_order(&[initialize(-1), notification("initialized", json!({}))])?;
        match s.answers.remove(&-1) {
            Some(a) if a.len() == 1 && a[0].get("result").is_some() => Ok(s),
            a => Err(format!("initialize is answered with {:?}", a)),
        }
    }
    fn poll(&mut self, i: usize) {
        let (_, f, flag) = &mut self.flying[i];
        flag.0.store(false, Ordering::SeqCst);
        let w = Waker::from(flag.clone());
        let r = inside(|| f.as_mut().poll(&mut Context::from_waker(&w)));
        match r {
            Poll::Pending => {
                if !self.flying[i].2 .0.load(Ordering::SeqCst) {
                    if let Some(f) = &mut self.fault {
                        f(self.waits);
                    }
                    self.waits += 1;
                    settle();
                }
            }
            Poll::Ready(r) => {
                drop(self.flying.remove(i));
                self.finished += 1;
                if let Ok(Some(r)) = r {
                    let v = serde_json::to_value(&r).unwrap();
                    self.answers.entry(v["id"].as_i64().unwrap_or(-99)).or_default().push(v);
                }
            }
        }
    }
    fn deliver(&mut self, m: &Value) -> bool {
        let req: Request = serde_json::from_value(m.clone()).expect("message");
        let waker = futures::task::noop_waker();
        match inside(|| self.service.poll_ready(&mut Context::from_waker(&waker))) {
            Poll::Ready(Ok(())) => {}
            // the server has exited: nothing is read any more
            Poll::Ready(Err(_)) => {
                self.delivered += 1;
                return true;
            }
            Poll::Pending => return false,
        }
        let fut = self.service.call(req);
        self.delivered += 1;
        self.flying.push((self.delivered, fut, Arc::new(Flag(AtomicBool::new(true)))));
        let last = self.flying.len() - 1;
        self.poll(last);
        true
    }
    fn drain(&mut self) -> bool {
        let w = futures::task::noop_waker();
        matches!(self.socket.poll_next_unpin(&mut Context::from_waker(&w)), Poll::Ready(Some(_)))
    }
    fn woken(&self) -> Vec<usize> {
        (0..self.flying.len()).filter(|i| self.flying[*i].2 .0.load(Ordering::SeqCst)).collect()
    }
    fn stuck(&mut self) -> bool {
        // anything the handlers may have started on the runtime gets two seconds
        let t0 = std::time::Instant::now();
        while t0.elapsed().as_millis() < 2000 {
            settle();
            let rt = POOL.with(|p| p.borrow().rt);
            rt.block_on(async { tokio::time::sleep(std::time::Duration::from_millis(2)).await });
            if !self.woken().is_empty() || self.drain() {
                return false;
            }
        }
        true
    }
    /// one message after the other
    pub fn in_order(&mut self, msgs: &[Value]) -> Result<(), String> {
        for m in msgs {
            if !self.deliver(m) {
                return Err("the server is not ready for the next message".into());
            }
            while !self.flying.is_empty() {
                if let Some(i) = self.woken().first() {
                    self.poll(*i);
                } else if !self.drain() && self.stuck() {
                    return Err(format!("no progress with message {}", m));
                }
            }
        }
        Ok(())
    }
    /// All messages, under the choices of `c`: every schedule, or, with a policy, every schedule
    /// that departs from it at most as often as the budget of `c` allows.
    pub fn interleaved(&mut self, msgs: &[Value], c: &mut Chooser, policy: Policy) -> Result<(), String> {
        let mut next = 0;
        // drained until empty, nothing done since
        let mut dry = false;
        loop {
            let woken = self.woken();
            let can = next < msgs.len() && self.flying.len() < 4;
            let blocked = self.flying.len() > woken.len() && !dry;
            // the actions, in the order the policy prefers them
            let mut acts: Vec<Act> = woken.iter().map(|i| Act::Poll(*i)).collect();
            if blocked {
                acts.push(Act::Drain);
            }
            if can {
                match policy {
                    Policy::Eager => acts.insert(0, Act::Deliver),
                    Policy::LastFirst => {
                        acts.reverse();
                        acts.insert(0, Act::Deliver)
                    }
                    _ => acts.push(Act::Deliver),
                }
            }
            if acts.is_empty() {
                if next == msgs.len() && self.flying.is_empty() {
                    return Ok(());
                }
                if self.stuck() {
                    return Err(format!("deadlock: {} messages in progress, none can continue", self.flying.len()));
                }
                dry = false;
                continue;
            }
            let n = acts.len();
            let k = if policy == Policy::Any { c.pick(n) } else { c.deviate(n) };
            match acts[k] {
                Act::Poll(i) => {
                    self.poll(i);
                    dry = false;
                }
                Act::Deliver => {
                    if self.deliver(&msgs[next]) {
                        next += 1;
                        dry = false;
                    } else if n == 1 {
                        return Err("the server is not ready for the next message and nothing is in progress".into());
                    } else {
                        self.finished = usize::MAX;
                        return Ok(());
                    }
                }
                Act::Drain => {
                    if !self.drain() {
                        // nothing there: this order is covered by the others
                        if k > 0 && policy != Policy::Any || n > 1 && policy == Policy::Any {
                            self.finished = usize::MAX;
                            return Ok(());
                        }
                        dry = true;
                    }
                }
            }
        }
    }
    pub fn abandoned(&self) -> bool {
        self.finished == usize::MAX
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy {
    Any,
    /// what is in progress goes first
    Sequential,
    /// messages start as early as possible
    Eager,
    /// and what started last continues first
    LastFirst,
}
enum Act {
    Poll(usize),
    Drain,
    Deliver,
}
