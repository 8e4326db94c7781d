//! Exhaustive stateless exploration: choice trees, sharding over worker processes, watchdogs.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

/// A source of choices; the driver enumerates every sequence of answers.
pub struct Chooser {
    path: Vec<(usize, usize)>,
    at: usize,
    /// deviations still allowed in this execution
    pub budget: usize,
    max_budget: usize,
}
/// executions explored inside of cases (schedules) and their steps
pub static INNER: AtomicU64 = AtomicU64::new(0);
pub static INNER_STEPS: AtomicU64 = AtomicU64::new(0);
/// cases judged once more in another layout
pub static RELAID: AtomicU64 = AtomicU64::new(0);

impl Chooser {
    /// Runs `f` under every sequence of answers; stops at the first error.
    pub fn all(budget: usize, mut f: impl FnMut(&mut Chooser) -> Result<(), String>) -> Result<u64, String> {
        let mut c = Chooser { path: vec![], at: 0, budget, max_budget: budget };
        let mut n = 0;
        loop {
            let r = f(&mut c);
            n += 1;
            INNER.fetch_add(1, Ordering::Relaxed);
            INNER_STEPS.fetch_add(c.at as u64, Ordering::Relaxed);
            r.map_err(|e| format!("{} (choices {:?})", e, c.path.iter().take(c.at).map(|(x, _)| *x).collect::<Vec<_>>()))?;
            if !c.advance() {
                return Ok(n);
            }
        }
    }
    /// every answer 0..n is explored
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        if self.at == self.path.len() {
            self.path.push((0, n));
        }
        let (c, m) = self.path[self.at];
        assert_eq!(m, n, "replay divergence at choice {}", self.at);
        self.at += 1;
        c
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn of<'x, X>(&mut self, xs: &'x [X]) -> &'x X {
        let i = self.pick(xs.len());
        &xs[i]
    }
    /// answer 0 is free, every other one is a deviation and uses up budget
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.budget == 0 || n <= 1 {
            return 0;
        }
        let c = self.pick(n);
        if c > 0 {
            self.budget -= 1;
        }
        c
    }
    /// a permutation of 0..n
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut rest: Vec<usize> = (0..n).collect();
        let mut out = vec![];
        while !rest.is_empty() {
            let i = self.pick(rest.len());
            out.push(rest.remove(i));
        }
        out
    }
    fn advance(&mut self) -> bool {
        self.path.truncate(self.at);
        while let Some((c, n)) = self.path.pop() {
            if c + 1 < n {
                self.path.push((c + 1, n));
                self.at = 0;
                self.budget = self.max_budget;
                return true;
            }
        }
        false
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub idx: u64,
    pub space: String,
    pub message: String,
    pub case: String,
}

pub struct Ctx {
    pub tier_thorough: bool,
    shard: u64,
    shards: u64,
    only: Option<u64>,
    case_file: Option<PathBuf>,
    pub idx: u64,
    pub transitions: u64,
    pub executions: u64,
    pub distinct: HashSet<u64>,
    pub outcomes: BTreeMap<String, u64>,
    pub spaces: Vec<(String, u64, u64)>,
    pub violations: Vec<Violation>,
    pub samples: Vec<(String, String)>,
    pub skipped: u64,
    pub caps: Vec<String>,
    space: String,
    sampled_in_space: u64,
    pub seed: u64,
    shm: *mut u64,
    pub scratch: PathBuf,
    space_filter: Option<String>,
    /// judge every case in other layouts, too
    pub layouts: bool,
}

static CASE: AtomicU64 = AtomicU64::new(0);
pub static CPU_LIMIT_MS: AtomicU64 = AtomicU64::new(60_000);
pub static WALL_LIMIT_MS: AtomicU64 = AtomicU64::new(240_000);
static IN_CASE: AtomicBool = AtomicBool::new(false);

pub const EXIT_HANG: i32 = 97;

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier_thorough
    }
    /// quick / thorough bound
    pub fn bound<X>(&self, quick: X, thorough: X) -> X {
        if self.tier_thorough {
            thorough
        } else {
            quick
        }
    }
    pub fn wants(&self, space: &str) -> bool {
        self.space_filter.as_ref().map(|f| space.starts_with(f.as_str())).unwrap_or(true)
    }
    /// Enumerates every execution of `f` with at most `budget` deviations.
    pub fn explore(&mut self, space: &str, budget: usize, mut f: impl FnMut(&mut Chooser, &mut Ctx)) {
        if !self.wants(space) {
            return;
        }
        self.space = space.to_string();
        self.sampled_in_space = 0;
        let (t0, i0) = (self.transitions, self.idx);
        let mut c = Chooser { path: vec![], at: 0, budget, max_budget: budget };
        let mut common = 0;
        loop {
            f(&mut c, self);
            self.transitions += (c.at - common.min(c.at)) as u64;
            if self.done() {
                break;
            }
            if !c.advance() {
                break;
            }
            common = c.path.len() - 1;
        }
        self.spaces.push((space.to_string(), self.idx - i0, self.transitions - t0));
    }
    fn done(&self) -> bool {
        self.violations.len() >= 3 || self.only.map(|o| self.idx > o).unwrap_or(false)
    }
    /// Registers the next case; true if this worker is to run it.
    pub fn mine(&mut self) -> bool {
        self.idx += 1;
        if self.violations.len() >= 3 {
            return false;
        }
        match self.only {
            Some(o) => self.idx - 1 == o,
            None => (self.idx - 1) % self.shards == self.shard,
        }
    }
    /// Runs one case: `f` gives a label of what was observed or a violation.
    pub fn case(&mut self, key: &impl Hash, show: impl Fn() -> String, f: impl FnOnce() -> Result<String, String>) {
        let idx = self.idx - 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.space.hash(&mut h);
        key.hash(&mut h);
        if let Some(p) = &self.case_file {
            std::fs::write(p, format!("space {}\n{}", self.space, show())).unwrap();
        }
        unsafe { std::ptr::write_volatile(self.shm, idx + 1) };
        CASE.fetch_add(1, Ordering::SeqCst);
        IN_CASE.store(true, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(f));
        IN_CASE.store(false, Ordering::SeqCst);
        unsafe { std::ptr::write_volatile(self.shm, 0) };
        let r = match r {
            // the case says nothing about the property
            Ok(Ok(label)) if label.is_empty() => {
                self.skipped += 1;
                return;
            }
            r => r,
        };
        self.executions += 1;
        self.distinct.insert(h.finish());
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                let what = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(format!("panic: {} {}", what, LAST_PANIC.lock().unwrap()))
            }
        };
        match r {
            Ok(label) => {
                *self.outcomes.entry(label.clone()).or_default() += 1;
                // deterministic spread of written-out cases
                if self.sampled_in_space < 2 && (idx.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(self.seed) >> 32) % 64 == 0 {
                    self.sampled_in_space += 1;
                    if self.samples.len() < 12 {
                        let s: String = show().chars().take(900).collect();
                        self.samples.push((format!("{} -> {}", self.space, label), s));
                    }
                }
            }
            Err(message) => {
                let v = Violation { idx, space: self.space.clone(), message, case: show() };
                self.violations.push(v);
            }
        }
    }
}

pub static LAST_PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub struct Args {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub verif: PathBuf,
    pub workers: u64,
    pub space: Option<String>,
}

/// worker process: explores its share and writes the result, on a stack as small as that of the language server's threads
pub fn worker(args: &Args, shard: u64, dir: &Path, only: Option<u64>, run: impl Fn(&mut Ctx) + Sync) {
    std::thread::scope(|s| {
        let t = std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, || explore_share(args, shard, dir, only, &run)).unwrap();
        if let Err(e) = t.join() {
            std::panic::resume_unwind(e);
        }
    });
}
fn explore_share(args: &Args, shard: u64, dir: &Path, only: Option<u64>, run: impl Fn(&mut Ctx)) {
    unsafe {
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    std::panic::set_hook(Box::new(|i| {
        if let Ok(mut l) = LAST_PANIC.try_lock() {
            *l = i.location().map(|l| l.to_string()).unwrap_or_default();
        }
    }));
    let shm_path = dir.join(format!("shm-{}", shard));
    let shm = unsafe {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(&shm_path).unwrap();
        f.set_len(4096).unwrap();
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        p as *mut u64
    };
    // watchdog on CPU time (and, much later, wall time) of a single case
    let main_clock = unsafe {
        let mut c: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
        c
    };
    let hang_file = dir.join(format!("hang-{}", shard));
    std::thread::spawn(move || {
        let cpu = || unsafe {
            let mut t: libc::timespec = std::mem::zeroed();
            libc::clock_gettime(main_clock, &mut t);
            t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
        };
        let (mut case, mut cpu0, mut wall0) = (CASE.load(Ordering::SeqCst), cpu(), std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let now = CASE.load(Ordering::SeqCst);
            if now != case || !IN_CASE.load(Ordering::SeqCst) {
                case = now;
                cpu0 = cpu();
                wall0 = std::time::Instant::now();
            } else {
                let (c, w) = (cpu() - cpu0, wall0.elapsed().as_millis() as u64);
                if c > CPU_LIMIT_MS.load(Ordering::SeqCst) || w > WALL_LIMIT_MS.load(Ordering::SeqCst) {
                    let _ = std::fs::write(&hang_file, format!("no answer after {} ms of CPU time ({} ms of wall time)", c, w));
                    unsafe { libc::_exit(EXIT_HANG) };
                }
            }
        }
    });
    let scratch = dir.join(format!("scratch-{}", shard));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut ctx = Ctx {
        tier_thorough: args.thorough,
        shard,
        shards: args.workers,
        only,
        case_file: only.map(|_| dir.join("case.txt")),
        idx: 0,
        transitions: 0,
        executions: 0,
        distinct: HashSet::new(),
        outcomes: BTreeMap::new(),
        spaces: vec![],
        violations: vec![],
        samples: vec![],
        skipped: 0,
        caps: vec![],
        space: String::new(),
        sampled_in_space: 0,
        seed: args.seed,
        shm,
        scratch,
        space_filter: args.space.clone(),
        layouts: false,
    };
    run(&mut ctx);
    let out = serde_json::json!({
        "idx": ctx.idx, "transitions": ctx.transitions, "executions": ctx.executions, "skipped": ctx.skipped,
        "inner": INNER.load(Ordering::SeqCst), "inner_steps": INNER_STEPS.load(Ordering::SeqCst), "relaid": RELAID.load(Ordering::SeqCst),
        "outcomes": ctx.outcomes, "spaces": ctx.spaces, "caps": ctx.caps,
        "samples": ctx.samples,
        "violations": ctx.violations.iter().map(|v| serde_json::json!({"idx": v.idx, "space": v.space, "message": v.message, "case": v.case})).collect::<Vec<_>>(),
    });
    let mut keys = Vec::with_capacity(ctx.distinct.len() * 8);
    for k in &ctx.distinct {
        keys.extend_from_slice(&k.to_le_bytes());
    }
    std::fs::write(dir.join(format!("keys-{}", shard)), keys).unwrap();
    std::fs::write(dir.join(format!("out-{}", shard)), serde_json::to_vec(&out).unwrap()).unwrap();
}

fn spawn(args: &Args, shard: u64, dir: &Path, only: Option<u64>) -> std::process::Child {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("worker").arg(&args.property).arg(shard.to_string()).arg(dir);
    c.env("MC_THOROUGH", if args.thorough { "1" } else { "0" }).env("MC_WORKERS", args.workers.to_string()).env("VERIF_SEED", args.seed.to_string());
    if let Some(s) = &args.space {
        c.env("MC_SPACE", s);
    }
    if let Some(o) = only {
        c.env("MC_ONLY", o.to_string());
    }
    c.stdin(std::process::Stdio::null()).stdout(std::fs::File::create(dir.join(format!("log-{}", shard))).unwrap());
    c.stderr(std::fs::File::create(dir.join(format!("err-{}", shard))).unwrap());
    c.spawn().unwrap()
}

fn describe_death(st: &std::process::ExitStatus, dir: &Path, shard: u64) -> String {
    use std::os::unix::process::ExitStatusExt;
    let err = std::fs::read_to_string(dir.join(format!("err-{}", shard))).unwrap_or_default();
    let err: String = err.chars().take(400).collect();
    match (st.code(), st.signal()) {
        (Some(EXIT_HANG), _) => std::fs::read_to_string(dir.join(format!("hang-{}", shard))).unwrap_or_default(),
        (_, Some(s)) => format!("process killed by signal {} (abort, stack overflow or out of memory) {}", s, err),
        (c, _) => format!("process exited with {:?} {}", c, err),
    }
}

/// parent: runs all workers, writes evidence, prints the verdict; returns the exit code
pub fn parent(args: &Args, rule: &str, bounds: &str, assumptions: &[&str], findings: &[(String, String)]) -> i32 {
    let t0 = std::time::Instant::now();
    let base = args.verif.join("target/run");
    let dir = base.join(format!("{}-{}", args.property, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut kids: Vec<(u64, std::process::Child)> = (0..args.workers).map(|s| (s, spawn(args, s, &dir, None))).collect();
    let mut violations: Vec<Violation> = vec![];
    let mut engine_error = None;
    let (mut idx, mut transitions, mut executions, mut skipped) = (0u64, 0u64, 0u64, 0u64);
    let mut outcomes: BTreeMap<String, u64> = BTreeMap::new();
    let mut spaces: Vec<serde_json::Value> = vec![];
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut caps: Vec<serde_json::Value> = vec![];
    let (mut inner, mut inner_steps, mut relaid) = (0u64, 0u64, 0u64);
    let mut keys: Vec<u64> = vec![];
    let mut crashed = false;
    for (s, k) in kids.iter_mut() {
        let st = k.wait().unwrap();
        if st.success() {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(dir.join(format!("out-{}", s))).unwrap()).unwrap();
            idx = idx.max(v["idx"].as_u64().unwrap());
            transitions = transitions.max(v["transitions"].as_u64().unwrap());
            executions += v["executions"].as_u64().unwrap();
            skipped += v["skipped"].as_u64().unwrap();
            inner += v["inner"].as_u64().unwrap();
            relaid += v["relaid"].as_u64().unwrap();
            inner_steps += v["inner_steps"].as_u64().unwrap();
            for (l, n) in v["outcomes"].as_object().unwrap() {
                *outcomes.entry(l.clone()).or_default() += n.as_u64().unwrap();
            }
            if spaces.is_empty() {
                spaces = v["spaces"].as_array().unwrap().iter().map(|x| serde_json::json!({"space": x[0], "cases": x[1], "choices": x[2]})).collect();
            }
            caps.extend(v["caps"].as_array().unwrap().iter().cloned());
            if samples.len() < 16 {
                samples.extend(v["samples"].as_array().unwrap().iter().map(|x| serde_json::json!({"case": x[1], "space_and_outcome": x[0]})));
            }
            for x in v["violations"].as_array().unwrap() {
                let t = |k: &str| x[k].as_str().unwrap().to_string();
                violations.push(Violation { idx: x["idx"].as_u64().unwrap(), space: t("space"), message: t("message"), case: t("case") });
            }
            let raw = std::fs::read(dir.join(format!("keys-{}", s))).unwrap();
            keys.extend(raw.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        } else {
            // which case was running?
            let shm = std::fs::read(dir.join(format!("shm-{}", s))).unwrap_or_default();
            let at = if shm.len() >= 8 { u64::from_le_bytes(shm[..8].try_into().unwrap()) } else { 0 };
            let why = describe_death(&st, &dir, *s);
            if at == 0 {
                engine_error = Some(format!("worker {} died outside a case: {}", s, why));
            } else {
                crashed = true;
                violations.push(Violation { idx: at - 1, space: "?".into(), message: why, case: String::new() });
            }
        }
    }
    keys.sort_unstable();
    keys.dedup();
    violations.sort_by_key(|v| v.idx);
    // confirm crashes in isolation (and get the case written out)
    if crashed {
        let mut confirmed = vec![];
        for v in violations.iter() {
            if v.case.is_empty() {
                let shard = 1000 + v.idx % 1000;
                let st = spawn(args, shard, &dir, Some(v.idx)).wait().unwrap();
                let case = std::fs::read_to_string(dir.join("case.txt")).unwrap_or_default();
                if st.success() {
                    engine_error = Some(format!("worker died in case {} ({}), but the case alone passes", v.idx, v.message));
                } else {
                    confirmed.push(Violation { message: describe_death(&st, &dir, shard), case, ..v.clone() });
                }
                if confirmed.len() >= 3 {
                    break;
                }
            } else {
                confirmed.push(v.clone());
            }
        }
        violations = confirmed;
    }
    // known findings
    let mut known_hit: BTreeMap<String, String> = BTreeMap::new();
    let fresh: Vec<&Violation> = violations
        .iter()
        .filter(|v| match findings.iter().find(|(key, _)| v.case.contains(key.as_str())) {
            Some((key, text)) => {
                known_hit.insert(key.clone(), text.clone());
                false
            }
            None => true,
        })
        .collect();
    let code = if !fresh.is_empty() {
        1
    } else if engine_error.is_some() {
        2
    } else {
        0
    };
    if code != 2 {
        let ev_dir = args.verif.join("evidence");
        std::fs::create_dir_all(&ev_dir).unwrap();
        let exhaustive = fresh.is_empty() && violations.is_empty() && caps.is_empty();
        let ev = serde_json::json!({
            "property": args.property, "tier": if args.thorough { "thorough" } else { "quick" }, "seed": args.seed,
            "level": "model_checking",
            "coverage": {
                "states": keys.len(), "transitions": transitions + inner_steps, "traces_validated_against_impl": executions + inner + relaid,
                "cases_enumerated": idx, "schedules": inner, "cases_in_another_layout": relaid, "schedule_steps": inner_steps, "cases_outside_the_specified_part": skipped,
                "exhaustive": exhaustive, "rule": rule, "bounds": bounds,
                "spaces": spaces, "distinct_outcomes": outcomes, "samples": samples, "caps_hit": caps,
            },
            "assumptions": assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": violations.len(),
        });
        std::fs::write(ev_dir.join(format!("{}.json", args.property)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    // scratch folders outside of target, should a worker have died
    for (_, k) in &kids {
        for tag in ["lsp", "cli"] {
            let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("mc-{}-{}", tag, k.id())));
        }
    }
    for (_, text) in &known_hit {
        println!("KNOWN-FINDING: property={} {}", args.property, text);
    }
    if !fresh.is_empty() {
        let rdir = args.verif.join("target/replay");
        std::fs::create_dir_all(&rdir).unwrap();
        for v in fresh.iter().take(3) {
            let path = rdir.join(format!("{}-{}-{}.txt", args.property, if args.thorough { "thorough" } else { "quick" }, v.idx));
            let mut f = std::fs::File::create(&path).unwrap();
            let _ = writeln!(f, "property {}\nspace {}\ncase {}\nreplay: {} replay {} {} {}\n\n{}\n\n{}", args.property, v.space, v.idx, std::env::current_exe().unwrap().display(), args.property, if args.thorough { "thorough" } else { "quick" }, v.idx, v.message, v.case);
            println!("  space {} case {}: {}", v.space, v.idx, v.message.chars().take(500).collect::<String>());
            println!("VIOLATION property={} replay={}", args.property, path.display());
        }
    } else if let Some(e) = &engine_error {
        println!("ERROR of the check: {}", e);
    } else {
        println!("{}: {} states, {} transitions, {} executions compared, {:.1} s", args.property, keys.len(), transitions, executions, t0.elapsed().as_secs_f64());
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

pub fn replay(args: &Args, idx: u64) -> i32 {
    let dir = args.verif.join("target/run").join(format!("replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let st = spawn(args, 0, &dir, Some(idx)).wait().unwrap();
    println!("{}", std::fs::read_to_string(dir.join("case.txt")).unwrap_or_default());
    let mut code = 0;
    if st.success() {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(dir.join("out-0")).unwrap()).unwrap();
        for x in v["violations"].as_array().unwrap() {
            println!("FAILS: {}", x["message"].as_str().unwrap());
            code = 1;
        }
    } else {
        println!("FAILS: {}", describe_death(&st, &dir, 0));
        code = 1;
    }
    if code == 0 {
        println!("passes");
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub d: Vec<u8>,
    pub p: Option<Vec<u8>>,
}
impl Case {
    pub fn dom(d: Vec<u8>) -> Case {
        Case { d, p: None }
    }
    pub fn show(&self) -> String {
        let t = |b: &Vec<u8>| {
            let s = crate::docs::text(b);
            if s.len() > 20_000 {
                format!("{}... ({} bytes)", s.chars().take(2000).collect::<String>(), b.len())
            } else {
                s
            }
        };
        match &self.p {
            Some(p) => format!("DOMAIN: {}\nPROBLEM: {}", t(&self.d), t(p)),
            None => format!("DOMAIN: {}", t(&self.d)),
        }
    }
}
/// A space of documents: `gen` makes the choices and returns how to build the case, `judge` decides it.
pub fn space<G: FnOnce() -> Case>(ctx: &mut Ctx, name: &str, budget: usize, mut gen: impl FnMut(&mut Chooser) -> Option<G>, judge: &dyn Fn(&Case) -> crate::oracle::Verdict) {
    ctx.explore(name, budget, |c, ctx| {
        let g = match gen(c) {
            Some(g) => g,
            None => return,
        };
        if !ctx.mine() {
            return;
        }
        let case = g();
        let more = ctx.layouts;
        let first = ctx.idx as usize;
        let all = ctx.thorough();
        ctx.case(&case, || case.show(), || {
            let label = judge(&case)?.unwrap_or_default();
            if more && !label.is_empty() {
                // the same tokens in other layouts
                for style in 0..if all { LAYOUTS } else { 1 } {
                    if let Some(other) = case.relaid((first + style) % LAYOUTS) {
                        RELAID.fetch_add(1, Ordering::Relaxed);
                        judge(&other).map_err(|e| format!("{}\nin the layout {:?} {:?}", e, String::from_utf8_lossy(&other.d), other.p.as_ref().map(|p| String::from_utf8_lossy(p))))?;
                    }
                }
            }
            Ok(label)
        });
    });
}
pub const LAYOUTS: usize = 4;
impl Case {
    /// the same tokens laid out differently (if they are one per line now)
    fn relaid(&self, style: usize) -> Option<Case> {
        let plain = |t: &[u8]| t.ends_with(b"\n") && !t.starts_with(b"\n") && !t.windows(2).any(|w| w == b"\n\n") && !t.iter().any(|b| b" \t\r;".contains(b));
        if !plain(&self.d) || !self.p.iter().all(|p| plain(p)) {
            return None;
        }
        let lay = |t: &Vec<u8>| {
            let mut out = vec![];
            let mut depth = 0;
            let tokens: Vec<&[u8]> = t[..t.len() - 1].split(|b| *b == b'\n').collect();
            for (i, w) in tokens.iter().enumerate() {
                let (open, close) = (*w == b"(", *w == b")");
                match style {
                    // one line
                    0 => {
                        out.extend_from_slice(w);
                        out.push(b' ');
                    }
                    // sections on lines of their own, nothing around parentheses
                    1 => {
                        let before_paren = i > 0 && (tokens[i - 1] == b"(" || tokens[i - 1] == b")");
                        if open && depth <= 1 {
                            out.extend_from_slice(b"\n");
                        } else if i > 0 && !before_paren && !open && !close {
                            out.push(b' ');
                        }
                        out.extend_from_slice(w);
                    }
                    // comments and carriage returns
                    2 => {
                        out.extend_from_slice(w);
                        out.extend_from_slice(if i % 3 == 0 { b" ; ( not ) a - token\r\n" } else { b"\r\n" });
                    }
                    // several on a line, blank lines between
                    _ => {
                        out.extend_from_slice(w);
                        out.extend_from_slice(if i % 4 == 3 { b"\n\n \t" } else { b"\t" });
                    }
                }
                depth += open as i32 - close as i32;
            }
            out
        };
        Some(Case { d: lay(&self.d), p: self.p.as_ref().map(|p| lay(p)) })
    }
}
