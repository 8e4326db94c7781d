//! C22: the command line.
use super::lsp::{hard_texts, public_scratch};
use crate::docs::*;
use crate::engine::*;
use crate::subject::{self, Out};
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};

const NOBODY: u32 = 65534;

struct Cli {
    bin: PathBuf,
    root: PathBuf,
    as_nobody: bool,
}
impl Drop for Cli {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}
impl Cli {
    fn new() -> Cli {
        let root = public_scratch("cli");
        let bin = root.join("cli");
        std::fs::copy(std::env::current_exe().unwrap().with_file_name("hddl_cli"), &bin).unwrap();
        std::fs::set_permissions(&bin, std::fs::Permissions::from_mode(0o755)).unwrap();
        let mut c = Cli { bin, root, as_nobody: unsafe { libc::geteuid() } == 0 };
        // may this process become someone else, and would that one be able to run the program?
        if c.as_nobody {
            let d = c.fresh();
            c.as_nobody = c.cmd(&d, &["--help".into()]).output().map(|o| o.status.success()).unwrap_or(false);
        }
        c
    }
    /// an empty working folder
    fn fresh(&self) -> PathBuf {
        let d = self.root.join("w");
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir(&d).unwrap();
        d
    }
    fn own(&self, d: &Path) {
        if !self.as_nobody {
            return;
        }
        let c = std::ffi::CString::new(d.as_os_str().as_encoded_bytes()).unwrap();
        unsafe { libc::lchown(c.as_ptr(), NOBODY, NOBODY) };
        if d.is_dir() && !d.is_symlink() {
            for e in std::fs::read_dir(d).unwrap() {
                self.own(&e.unwrap().path());
            }
        }
    }
    fn cmd(&self, d: &Path, args: &[String]) -> std::process::Command {
        let mut c = std::process::Command::new(&self.bin);
        c.args(args).current_dir(d).stdin(std::process::Stdio::null());
        if self.as_nobody {
            c.uid(NOBODY).gid(NOBODY);
        }
        c
    }
    fn run(&self, d: &Path, args: &[String]) -> Result<(String, String), String> {
        self.run_fed(d, args, None)
    }
    /// with that text coming through a pipe on standard input
    fn run_fed(&self, d: &Path, args: &[String], fed: Option<&[u8]>) -> Result<(String, String), String> {
        use std::os::fd::{FromRawFd, OwnedFd};
        let mut cmd = self.cmd(d, args);
        if let Some(b) = fed {
            let mut fds = [0; 2];
            let (r, w) = unsafe {
                assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
                if self.as_nobody {
                    libc::fchown(fds[0], NOBODY, NOBODY);
                }
                (OwnedFd::from_raw_fd(fds[0]), std::fs::File::from_raw_fd(fds[1]))
            };
            assert!(b.len() < 4096);
            std::io::Write::write_all(&mut { w }, b).unwrap();
            cmd.stdin(r);
        }
        self.output(cmd)
    }
    fn output(&self, mut cmd: std::process::Command) -> Result<(String, String), String> {
        let o = cmd.output().map_err(|e| format!("cannot run: {}", e))?;
        let (out, err) = (plain(&o.stdout), plain(&o.stderr));
        if o.status.code() == Some(101) || o.status.signal().is_some() || err.contains("panicked at") {
            return Err(format!("the program crashes: {:?} {}", o.status, err));
        }
        Ok((out, err))
    }
}

/// without colours
fn plain(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\x1b' && it.peek() == Some(&'[') {
            it.next();
            while let Some(c) = it.next() {
                if c.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// everything below a folder
fn snapshot(d: &Path) -> BTreeMap<PathBuf, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_symlink() {
            m.insert(p.clone(), format!("-> {:?} {:?}", std::fs::read_link(&p), std::fs::read(&p).ok()).into_bytes());
        } else if p.is_dir() {
            m.extend(snapshot(&p));
            m.insert(p, b"<dir>".to_vec());
        } else {
            m.insert(p.clone(), std::fs::read(&p).unwrap_or_default());
        }
    }
    m
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cmd {
    Verify,
    Metadata,
    ToJson,
}
const CMDS: [Cmd; 3] = [Cmd::Verify, Cmd::Metadata, Cmd::ToJson];
impl Cmd {
    fn name(&self) -> &'static str {
        match self {
            Cmd::Verify => "verify",
            Cmd::Metadata => "metadata",
            Cmd::ToJson => "to_json",
        }
    }
}

/// what must come out: Ok(lines on standard output), or the error
fn expected(cmd: Cmd, d: &Vec<u8>, p: Option<&Vec<u8>>) -> Result<String, String> {
    fn r<X>(o: Out<X>, f: impl FnOnce(X) -> String) -> Result<String, String> {
        match o {
            Out::Ok(x) => Ok(f(x)),
            o => Err(o.msg().to_string()),
        }
    }
    match cmd {
        Cmd::Verify => r(subject::verify(d, p), |ws| ws.iter().map(|w| format!("[Warning] {}\n", w.msg)).collect::<String>() + "[Ok]"),
        Cmd::Metadata => r(subject::metadata2(d, None), |m| m.text.trim().to_string()),
        Cmd::ToJson => r(subject::to_json(d, p), |j| j),
    }
}
fn printed(cmd: Cmd, want: &Result<String, String>, out: &str, err: &str) -> Result<String, String> {
    match want {
        Err(msg) => {
            if !err.contains(msg.trim()) {
                return Err(format!("the error is '{}', standard error says '{}'", msg, err));
            }
            if !out.trim().is_empty() {
                return Err(format!("with an error, standard output says '{}'", out));
            }
            Ok("error shown".into())
        }
        Ok(text) => {
            if !err.trim().is_empty() {
                return Err(format!("nothing is wrong, but standard error says '{}'", err));
            }
            let shown = if cmd == Cmd::ToJson { out.trim_start().strip_prefix("[Ok]").unwrap_or(out) } else { out };
            if shown.trim() != text.trim() {
                return Err(format!("the result is '{}', standard output says '{}'", text, out));
            }
            Ok("result shown".into())
        }
    }
}

pub fn run_c22(ctx: &mut Ctx) {
    let cli = Cli::new();
    if !cli.as_nobody && unsafe { libc::geteuid() } == 0 {
        ctx.caps.push("cannot run as a user without privileges: unreadable and unwritable files are left out".into());
    }
    // texts
    let mut texts: Vec<Vec<u8>> = hard_texts().into_iter().map(|t| t.into_bytes()).collect();
    texts.push(b"\xff\xfe".to_vec());
    texts.push(b"(define (domain d) (:predicates (\xff)))".to_vec());
    texts.push(format!("(define (domain d) {})", (0..20).map(|i| format!("(:task t{} :parameters ())", i)).collect::<String>()).into_bytes());
    for n in [65_536, 1 << 20, (1 << 23) + 1] {
        texts.push(format!(";{}\n(define (domain d) (:task t :parameters ()))", "c".repeat(n)).into_bytes());
        texts.push(format!("(define (domain d) (:task t :parameters ()))\n;{}\n zz", "c".repeat(n)).into_bytes());
    }
    let (rich, small) = (pairs()[0].clone(), pairs()[1].clone());
    let mut problems: Vec<Option<Vec<u8>>> = vec![None, Some(lay(&rich.1)), Some(lay(&small.1)), Some(b"(define (problem p) (:domain d) (:init (zz)))".to_vec()), Some(b"(define (problem p) zz".to_vec()), Some(vec![]), Some(b"(define (domain d))".to_vec())];
    if ctx.thorough() {
        problems.extend(texts.iter().map(|t| Some(t.clone())));
    }
    ctx.explore("every command on every text", 0, |c, ctx| {
        let cmd = *c.of(&CMDS);
        let d = c.pick(texts.len());
        let p = c.pick(problems.len());
        let o = c.flag();
        if (o && cmd != Cmd::ToJson) || !ctx.mine() {
            return;
        }
        let case = Case { d: texts[d].clone(), p: problems[p].clone() };
        run_text(ctx, &cli, cmd, &case, o);
    });
    ctx.explore("verify on every defect about names of many lengths", 0, |c, ctx| {
        let f = pick_defect(c);
        if !ctx.mine() {
            return;
        }
        run_text(ctx, &cli, Cmd::Verify, &f(), false);
    });
    // every feature of the language
    let thorough = ctx.thorough();
    for (name, text) in crate::feat::all() {
        let (d, p) = match text.split_once('%') {
            Some((d, p)) => (crate::feat::compile(d), Some(crate::feat::compile(p))),
            None => (crate::feat::compile(&text), None),
        };
        let rounds: &[(usize, &[Cmd])] = match (name, thorough) {
            ("world", false) => &[(1, &CMDS), (2, &[Cmd::Verify])],
            ("networks", _) | ("world", true) | ("lists", true) => &[(2, &CMDS)],
            _ => &[(1, &CMDS)],
        };
        for (b, cmds) in rounds {
            let what = if cmds.len() == 1 { "verify" } else { "every command" };
            ctx.explore(&format!("{} on template {}, up to {} deviations", what, name, b), *b, |c, ctx| {
                let f = crate::feat::pick(c, &d, p.as_deref());
                let cmd = *c.of(cmds);
                if !ctx.mine() {
                    return;
                }
                let case = f();
                run_text(ctx, &cli, cmd, &case, cmd == Cmd::ToJson && case.d.len() % 2 == 0);
            });
        }
    }
    run_states(ctx, &cli);
    run_spellings(ctx, &cli);
    run_gone(ctx, &cli);
}

fn run_text(ctx: &mut Ctx, cli: &Cli, cmd: Cmd, case: &Case, o: bool) {
        ctx.case(&(cmd as usize, &case, o), || format!("{} {} {}", cmd.name(), if o { "-o out.json" } else { "" }, case.show()), || {
            let dir = cli.fresh();
            std::fs::write(dir.join("d.hddl"), &case.d).unwrap();
            let mut args = vec![cmd.name().to_string(), "d.hddl".into()];
            if let Some(p) = &case.p {
                std::fs::write(dir.join("p.hddl"), p).unwrap();
                args.extend(["-p".to_string(), "p.hddl".into()]);
            }
            if o {
                args.extend(["-o".to_string(), "out.json".into()]);
            }
            cli.own(&dir);
            let mut before = snapshot(&dir);
            let (out, err) = cli.run(&dir, &args)?;
            let want = expected(cmd, &case.d, case.p.as_ref());
            let after = snapshot(&dir);
            let label = if o && want.is_ok() {
                before.insert(dir.join("out.json"), want.clone().unwrap().into_bytes());
                if !err.trim().is_empty() {
                    return Err(format!("nothing is wrong, but standard error says '{}'", err));
                }
                "result written".to_string()
            } else {
                printed(cmd, &want, &out, &err)?
            };
            same_files(&before, &after)?;
            Ok(label)
        });
}

fn same_files(want: &BTreeMap<PathBuf, Vec<u8>>, got: &BTreeMap<PathBuf, Vec<u8>>) -> Result<(), String> {
    let show = |b: Option<&Vec<u8>>| b.map(|b| String::from_utf8_lossy(b).chars().take(200).collect::<String>());
    for k in want.keys().chain(got.keys()) {
        if want.get(k) != got.get(k) {
            return Err(format!("file {:?} should be {:?}, is {:?}", k, show(want.get(k)), show(got.get(k))));
        }
    }
    Ok(())
}

const GOOD: &[u8] = b"(define (domain d) (:predicates (p)) (:task t :parameters ()) (:task u :parameters ()))";
const BAD: &[u8] = b"(define (domain d)\n(:predicates (p) (p)))";
const PROB: &[u8] = b"(define (problem q) (:domain d) (:init (p)))";
const PROB_BAD: &[u8] = b"(define (problem q) (:domain d) (:init (zz)))";

/// states of an input file: (name, how to make it, content if it can be read)
const INPUTS: usize = 12;
fn input(cli: &Cli, dir: &Path, n: usize, stem: &str, good: &[u8], bad: &[u8]) -> Option<(String, Option<Vec<u8>>)> {
    let name = format!("{}.hddl", stem);
    let at = dir.join(&name);
    Some(match n {
        0 => {
            std::fs::write(at, good).unwrap();
            (name, Some(good.to_vec()))
        }
        1 => {
            std::fs::write(at, bad).unwrap();
            (name, Some(bad.to_vec()))
        }
        2 => (name, None),
        3 => {
            std::fs::create_dir(at).unwrap();
            (name, None)
        }
        4 => {
            if !cli.as_nobody {
                return None;
            }
            std::fs::write(&at, good).unwrap();
            std::fs::set_permissions(&at, std::fs::Permissions::from_mode(0)).unwrap();
            (name, None)
        }
        5 => {
            std::os::unix::fs::symlink("gone", at).unwrap();
            (name, None)
        }
        6 => {
            let sub = dir.join(format!("s p\u{e4}ce {}", stem));
            std::fs::create_dir(&sub).unwrap();
            std::fs::write(sub.join("x y"), good).unwrap();
            (format!("s p\u{e4}ce {}/x y", stem), Some(good.to_vec()))
        }
        7 => {
            std::fs::write(&at, good).unwrap();
            (at.to_str().unwrap().to_string(), Some(good.to_vec()))
        }
        8 => {
            std::fs::write(at, b"").unwrap();
            (name, Some(vec![]))
        }
        9 => {
            let there = dir.join(format!("there-{}", stem));
            std::fs::write(&there, good).unwrap();
            std::os::unix::fs::symlink(there, at).unwrap();
            (name, Some(good.to_vec()))
        }
        10 => {
            std::fs::write(&at, good).unwrap();
            std::fs::hard_link(&at, dir.join(format!("also-{}", stem))).unwrap();
            (format!("./{}", name), Some(good.to_vec()))
        }
        _ => ("/dev/stdin".into(), Some(good.to_vec())),
    })
}
/// states of the output: (argument, the file that is written, or nothing if it cannot be)
const OUTPUTS: usize = 17;
fn output(cli: &Cli, dir: &Path, n: usize) -> Option<(String, Option<PathBuf>)> {
    let at = dir.join("out.json");
    Some(match n {
        0 => ("out.json".into(), Some(at)),
        1 => {
            std::fs::write(&at, "x".repeat(100_000)).unwrap();
            ("out.json".into(), Some(at))
        }
        2 => {
            if !cli.as_nobody {
                return None;
            }
            std::fs::write(&at, "keep").unwrap();
            std::fs::set_permissions(&at, std::fs::Permissions::from_mode(0o444)).unwrap();
            ("out.json".into(), None)
        }
        3 => {
            std::fs::create_dir(&at).unwrap();
            ("out.json".into(), None)
        }
        4 => ("missing/out.json".into(), None),
        5 => {
            std::fs::create_dir(dir.join("sub")).unwrap();
            ("sub/o ut".into(), Some(dir.join("sub/o ut")))
        }
        6 => {
            std::fs::create_dir(dir.join("abs")).unwrap();
            let p = dir.join("abs/o.json");
            (p.to_str().unwrap().into(), Some(p))
        }
        7 => ("".into(), None),
        8 => ("./x/../o.json".into(), None),
        9 => ("out.hddl".into(), Some(dir.join("out.hddl"))),
        10 => {
            std::fs::create_dir(dir.join("up")).unwrap();
            ("up/../o2.json".into(), Some(dir.join("o2.json")))
        }
        // in the place of the files that are read
        11 => ("d.hddl".into(), Some(dir.join("d.hddl"))),
        12 => ("p.hddl".into(), Some(dir.join("p.hddl"))),
        // written to, and without room
        13 | 14 if !cli.as_nobody => return None,
        13 => ("/dev/null".into(), Some("/dev/null".into())),
        14 => ("/dev/full".into(), None),
        15 => {
            std::fs::write(&at, "keep").unwrap();
            ("out.json".into(), Some(at))
        }
        _ => ("-out.json".into(), Some(dir.join("-out.json"))),
    })
}

fn run_states(ctx: &mut Ctx, cli: &Cli) {
    ctx.explore("every command on every state of the files", 0, |c, ctx| {
        let cmd = *c.of(&CMDS);
        let d = c.pick(INPUTS);
        let p = c.pick(INPUTS + 1);
        let o = c.pick(OUTPUTS + 1);
        if !ctx.mine() {
            return;
        }
        ctx.case(&(cmd as usize, d, p, o), || format!("{:?}, domain in state {}, problem {}, output {}", cmd, d, p, o), || {
            let dir = cli.fresh();
            let mut args = vec![cmd.name().to_string()];
            let dom = match input(cli, &dir, d, "d", GOOD, BAD) {
                Some(x) => x,
                None => return Ok(String::new()),
            };
            args.push(dom.0);
            let mut prob = None;
            if p > 0 {
                match input(cli, &dir, p - 1, "p", PROB, PROB_BAD) {
                    Some(x) => {
                        args.extend(["-p".to_string(), x.0]);
                        prob = Some(x.1);
                    }
                    None => return Ok(String::new()),
                }
            }
            let mut outp = None;
            if o > 0 {
                match output(cli, &dir, o - 1) {
                    Some(x) => {
                        // over the place of a file that is a plain one only
                        if (o == 12 && d > 2) || (o == 13 && !(1..=3).contains(&p)) {
                            return Ok(String::new());
                        }
                        args.push(format!("-o{}", x.0));
                        if x.0.is_empty() {
                            args.pop();
                            args.extend(["-o".to_string(), x.0]);
                        }
                        outp = Some(x.1);
                    }
                    None => return Ok(String::new()),
                }
            }
            // standard input is there for one of them
            let fed = match (d + 1 == INPUTS, p == INPUTS) {
                (true, true) => return Ok(String::new()),
                (true, _) => Some(GOOD),
                (_, true) => Some(PROB),
                _ => None,
            };
            cli.own(&dir);
            let mut before = snapshot(&dir);
            let (out, err) = cli.run_fed(&dir, &args, fed)?;
            let after = snapshot(&dir);
            let unread = dom.1.is_none() || (cmd != Cmd::Metadata && prob == Some(None));
            let label;
            if unread {
                if err.trim().is_empty() || !out.trim().is_empty() {
                    return Err(format!("a file cannot be read: standard output '{}', standard error '{}'", out, err));
                }
                label = "unreadable".to_string();
            } else if cmd == Cmd::Metadata && prob == Some(None) {
                // whether the problem matters for the metadata is left open
                label = String::new();
            } else {
                let p = prob.flatten();
                let want = expected(cmd, dom.1.as_ref().unwrap(), p.as_ref());
                // only to_json writes
                label = match (&want, cmd == Cmd::ToJson, outp) {
                    (Ok(j), true, Some(Some(path))) => {
                        if path.starts_with(&dir) {
                            before.insert(path, j.clone().into_bytes());
                        }
                        if !err.trim().is_empty() {
                            return Err(format!("the result can be written, but standard error says '{}'", err));
                        }
                        "written".into()
                    }
                    (Ok(_), true, Some(None)) => {
                        if err.trim().is_empty() {
                            return Err("the result cannot be written, but no error is shown".into());
                        }
                        "cannot be written".into()
                    }
                    _ => printed(cmd, &want, &out, &err)?,
                };
            }
            same_files(&before, &after)?;
            Ok(label)
        });
    });
}

/// every way to spell the options, in every order
fn run_spellings(ctx: &mut Ctx, cli: &Cli) {
    ctx.explore("every spelling and order of the options", 0, |c, ctx| {
        let cmd = *c.of(&CMDS);
        let (sp, so) = (c.pick(5), c.pick(5));
        let order = c.perm(3);
        let pair = c.pick(3);
        if !ctx.mine() {
            return;
        }
        ctx.case(&(cmd as usize, sp, so, order.clone(), pair), || format!("{:?} problem spelled {} output {} order {:?} pair {}", cmd, sp, so, order, pair), || {
            let dir = cli.fresh();
            let d = if pair == 1 { BAD } else { GOOD };
            let p = if pair == 2 { PROB_BAD } else { PROB };
            std::fs::write(dir.join("d.hddl"), d).unwrap();
            std::fs::write(dir.join("p.hddl"), p).unwrap();
            cli.own(&dir);
            let spell = |n: usize, short: &str, long: &str, v: &str| match n {
                0 => vec![],
                1 => vec![short.to_string(), v.to_string()],
                2 => vec![format!("{}{}", short, v)],
                3 => vec![long.to_string(), v.to_string()],
                _ => vec![format!("{}={}", long, v)],
            };
            let parts = [vec!["d.hddl".to_string()], spell(sp, "-p", "--problem-path", "p.hddl"), spell(so, "-o", "--output-file", "o.json")];
            let mut args = vec![cmd.name().to_string()];
            for i in order.clone() {
                args.extend(parts[i].clone());
            }
            let mut before = snapshot(&dir);
            let (out, err) = cli.run(&dir, &args)?;
            let pv = p.to_vec();
            let want = expected(cmd, &d.to_vec(), if sp > 0 { Some(&pv) } else { None });
            let label = match (&want, cmd == Cmd::ToJson && so > 0) {
                (Ok(j), true) => {
                    before.insert(dir.join("o.json"), j.clone().into_bytes());
                    "written".into()
                }
                _ => printed(cmd, &want, &out, &err)?,
            };
            same_files(&before, &snapshot(&dir))?;
            Ok(label)
        });
    });
}

/// in a folder that somebody has removed, which can still be the current one
fn run_gone(ctx: &mut Ctx, cli: &Cli) {
    ctx.explore("every command in a folder that is gone", 0, |c, ctx| {
        let cmd = *c.of(&CMDS);
        let d = c.pick(3); // well-formed, faulty, named relative to the folder
        let p = c.pick(4);
        let o = c.pick(3); // none, absolute, relative
        if !ctx.mine() {
            return;
        }
        ctx.case(&(cmd as usize, d, p, o), || format!("{:?} domain {} problem {} output {}, the current folder is gone", cmd, d, p, o), || {
            let dir = cli.fresh();
            let gone = dir.join("gone");
            std::fs::create_dir(&gone).unwrap();
            let dom = if d == 1 { BAD } else { GOOD }.to_vec();
            let prob = if p == 2 { PROB_BAD } else { PROB }.to_vec();
            std::fs::write(dir.join("d.hddl"), &dom).unwrap();
            std::fs::write(dir.join("p.hddl"), &prob).unwrap();
            let at = |n: &str, rel: bool| if rel { n.to_string() } else { dir.join(n).to_str().unwrap().to_string() };
            let mut args = vec![cmd.name().to_string(), at("d.hddl", d == 2)];
            if p > 0 {
                args.extend(["-p".to_string(), at("p.hddl", p == 3)]);
            }
            match o {
                0 => (),
                1 => args.extend(["-o".to_string(), at("o.json", false)]),
                _ => args.extend(["-o".to_string(), at("o.json", true)]),
            }
            cli.own(&dir);
            let mut command = cli.cmd(&gone, &args);
            let name = std::ffi::CString::new(gone.as_os_str().as_encoded_bytes()).unwrap();
            unsafe {
                command.pre_exec(move || match libc::rmdir(name.as_ptr()) {
                    0 => Ok(()),
                    _ => Err(std::io::Error::last_os_error()),
                });
            }
            let (out, err) = cli.output(command)?;
            let mut before = snapshot(&dir);
            before.remove(&dir.join("o.json"));
            let after = snapshot(&dir);
            let label = if d == 2 || (p == 3 && cmd != Cmd::Metadata) {
                if err.trim().is_empty() || !out.trim().is_empty() {
                    return Err(format!("a file cannot be read: standard output '{}', standard error '{}'", out, err));
                }
                "unreadable".to_string()
            } else if p == 3 {
                String::new()
            } else {
                let want = expected(cmd, &dom, if p > 0 { Some(&prob) } else { None });
                match (&want, cmd == Cmd::ToJson, o) {
                    (Ok(j), true, 1) => {
                        before.insert(dir.join("o.json"), j.clone().into_bytes());
                        if !err.trim().is_empty() {
                            return Err(format!("the result can be written, but standard error says '{}'", err));
                        }
                        "written".into()
                    }
                    (Ok(_), true, 2) => {
                        if err.trim().is_empty() || !out.trim().is_empty() {
                            return Err(format!("the result cannot be written: standard output '{}', standard error '{}'", out, err));
                        }
                        "cannot be written".into()
                    }
                    _ => printed(cmd, &want, &out, &err)?,
                }
            };
            same_files(&before, &after)?;
            Ok(label)
        });
    });
}
