//! A10: the command line tool, run as a process in scratch directories.
use super::asm::LANG;
use crate::asmref::assemble;
use crate::fw::*;
use crate::sys;
use std::collections::BTreeMap;
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A10",
        level: "model_checking",
        run: a10,
        bounds: |t| format!("every argument vector of up to {} arguments over 6 (-o, a valid, an invalid and a missing source, an existing file, a directory); 37 input names x 13 output names x 2 places of -o, relative and absolute; 8 valid and 14 failing sources x 20 previous states of the output (absent, empty, short, long, the object, the object cut, continued or with bytes changed at the same size, older and newer than the source) x 3 argument orders; every history of {} runs over 8 runs; every sequence of 3 versions of a source out of 5 (objects of the same size among them) with 4 kinds of time stamps; names of up to 255 characters and folders up to 250 deep; options of other tools and words like options as inputs, outputs and further arguments (14 vectors each); 8 environments x 3 kinds of standard streams, and 7 kinds of streams that are closed, broken or full; links as input, output and folder; unreadable and unwritable files; devices, pipes, standard streams and files with few permissions as outputs (11) and sources (5); every order in which the steps (start, first half of the source, the rest) of two runs under way at the same time can take turns, for 11 pairs of runs, with one or both of them killed at each step, and for {} of three runs, the folder compared with the model after every step", if t == Tier::Thorough { 5 } else { 4 }, if t == Tier::Thorough { 4 } else { 3 }, if t == Tier::Thorough { "3 sets" } else { "a set" }),
        assumptions: &[LANG, "the tool runs as an unprivileged user in a scratch directory; input and output path differ; a second -o may be refused or not; failures of writing the output are A11's"],
    }]
}

/// A private directory with a copy of the tool, both removed when dropped.
pub struct Box_ {
    pub root: PathBuf,
    bin: PathBuf,
    /// runs go to an unprivileged user
    pub drop_to: Option<u32>,
    n: u64,
}

impl Box_ {
    pub fn new(w: &W) -> Box_ {
        let root = w.scratch.clone();
        let bin = root.join("at-asm");
        let src = std::env::var("MC_BIN").expect("MC_BIN is not set");
        if !bin.exists() {
            std::fs::copy(&src, &bin).expect("copying the tool");
            std::fs::set_permissions(&bin, PermissionsExt::from_mode(0o755)).unwrap();
        }
        let mut b = Box_ { root, bin, drop_to: None, n: 0 };
        // probe: may we become somebody else, and can they run the tool here?
        let ok = Command::new(&b.bin).uid(65534).gid(65534).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status();
        if ok.is_ok() {
            b.drop_to = Some(65534);
        }
        b
    }
    /// An empty directory that belongs to the user the tool runs as.
    pub fn dir(&mut self) -> PathBuf {
        self.n += 1;
        let d = self.root.join(format!("w{}", self.n));
        std::fs::create_dir(&d).expect("case dir");
        self.own(&d);
        d
    }
    pub fn own(&self, p: &Path) {
        if let Some(u) = self.drop_to {
            std::os::unix::fs::lchown(p, Some(u), Some(u)).expect("chown");
        }
    }
    pub fn file(&self, p: &Path, b: &[u8]) {
        if let Some(parent) = p.parent() {
            if !parent.exists() {
                std::fs::create_dir_all(parent).expect("case subdir");
                self.own(parent);
            }
        }
        std::fs::write(p, b).expect("case file");
        self.own(p);
    }
    pub fn command(&self, dir: &Path, args: &[String], fsize: Option<(u64, bool)>) -> Command {
        let mut c = Command::new(&self.bin);
        c.args(args).current_dir(dir).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
        c.env_clear();
        if let Some(u) = self.drop_to {
            c.uid(u).gid(u);
        }
        unsafe {
            c.pre_exec(move || {
                sys::limit_exec(fsize);
                Ok(())
            })
        };
        c
    }
    /// Exit status, or how the run was ended; and its complaint.
    pub fn run(&self, dir: &Path, args: &[String], fsize: Option<(u64, bool)>) -> (Result<i32, i32>, String) {
        let o = self.command(dir, args, fsize).output().expect("running the tool");
        let s = match o.status.code() {
            Some(c) => Ok(c),
            None => Err(o.status.signal().unwrap_or(0)),
        };
        (s, String::from_utf8_lossy(&o.stderr).into_owned())
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
enum Entry {
    File(Vec<u8>, u32),
    Dir,
    Other,
}
type Fs = BTreeMap<String, Entry>;

fn snapshot(dir: &Path) -> Fs {
    fn go(base: &Path, d: &Path, m: &mut Fs) {
        for e in std::fs::read_dir(d).expect("snapshot") {
            let p = e.unwrap().path();
            let name = p.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            let md = std::fs::symlink_metadata(&p).unwrap();
            if md.is_dir() {
                m.insert(name, Entry::Dir);
                go(base, &p, m);
            } else if md.is_file() {
                m.insert(name, Entry::File(std::fs::read(&p).unwrap(), md.permissions().mode() & 0o7777));
            } else {
                m.insert(name, Entry::Other);
            }
        }
    }
    let mut m = Fs::new();
    go(dir, dir, &mut m);
    m
}
fn changes(a: &Fs, b: &Fs) -> Vec<String> {
    let mut v = vec![];
    for (k, x) in a {
        match b.get(k) {
            None => v.push(format!("{k} is gone")),
            Some(y) if x != y => v.push(format!("{k} changed")),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            v.push(format!("{k} appeared"));
        }
    }
    v
}

/// The path whose extension is replaced by `o`.
fn default_output(input: &str) -> String {
    let (dir, name) = match input.rfind('/') {
        Some(i) => input.split_at(i + 1),
        None => ("", input),
    };
    let stem = match name.rfind('.') {
        Some(i) if i > 0 => &name[..i],
        _ => name,
    };
    format!("{dir}{stem}.o")
}

enum Want<'a> {
    /// this file, relative to the directory, holds these bytes
    Ok(&'a str, &'a [u8]),
    Fail,
    /// either way, but a failing run touches nothing
    Any,
}

fn once(w: &mut W, b: &Box_, dir: &Path, args: &[String], want: Want) -> Result<(), String> {
    w.note(|| format!("at-asm {args:?}"));
    w.transitions += 1;
    w.beat();
    let before = snapshot(dir);
    let (st, msg) = b.run(dir, args, None);
    let after = snapshot(dir);
    let ch = changes(&before, &after);
    let ended = format!("at-asm {args:?} ended with {} {:?}", match st { Ok(c) => format!("status {c}"), Err(s) => format!("signal {s}") }, clip(&msg, 200));
    if let Err(s) = st {
        return Err(format!("{ended}: a run is not to end by signal {s}"));
    }
    let ok = st == Ok(0);
    w.outcome(&(st.ok(), &after));
    if !ok {
        w.refused += 1;
        if !ch.is_empty() {
            return Err(format!("{ended}, but {}", ch.join(", ")));
        }
    }
    match want {
        Want::Any => Ok(()),
        Want::Fail if ok => Err(format!("{ended}, should fail{}", if ch.is_empty() { String::new() } else { format!("; {}", ch.join(", ")) })),
        Want::Fail => Ok(()),
        Want::Ok(..) if !ok => Err(format!("{ended}, should succeed")),
        Want::Ok(path, bytes) => {
            match std::fs::read(dir.join(path)) {
                Ok(x) if x == bytes => {}
                Ok(x) => return Err(format!("{ended}: {path} holds {} bytes that are not the object of {} bytes", x.len(), bytes.len())),
                Err(e) => return Err(format!("{ended}: {path}: {e}")),
            }
            let name = dir.join(path);
            let name = name.components().fold(PathBuf::new(), |mut p, c| {
                match c {
                    std::path::Component::CurDir => {}
                    std::path::Component::ParentDir => {
                        p.pop();
                    }
                    c => p.push(c),
                }
                p
            });
            let key = name.strip_prefix(dir).map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
            let other: Vec<&String> = ch.iter().filter(|c| **c != format!("{key} changed") && **c != format!("{key} appeared")).collect();
            if !other.is_empty() {
                return Err(format!("{ended}, but also {other:?}"));
            }
            Ok(())
        }
    }
}

pub const GOOD: &[&str] = &[
    "ret\n",
    "",
    "; nothing\n",
    "global _main\n_main:\nmov rdi, msg\nsyscall\nsection .data\nmsg db \"hello; world\", 10\nsection .bss\nbuf:\n",
    "section .data\na dq 1, 2, 3\nb dw \"abc\"\n",
    "a:\nmov rax, a",
    "push 300\r\npush rbx\r\n",
    "section .bss\nonly:\nglobal only\n",
];
fn failing() -> Vec<Vec<u8>> {
    let long = "mov rax, 0x123456789abcdef0\n".repeat(3000);
    vec![
        b"hoge\n".to_vec(),
        b"ret\nret\nmov rax, eax".to_vec(),
        b"db 256\nret\n".to_vec(),
        b"mov rax, nowhere\n".to_vec(),
        b"section .bss\ndb 1\n".to_vec(),
        b"section .bss\na:\nmov rax, a\n".to_vec(),
        b"section .bss\nret\n".to_vec(),
        b"section .foo\n".to_vec(),
        b"db \"abc\n".to_vec(),
        b"ret\n\xff\xfe\n".to_vec(),
        format!("{long}hoge\n").into_bytes(),
        format!("{long}mov rax, nowhere\n").into_bytes(),
        format!("{long}section .bss\nret\n").into_bytes(),
        b"a:\nret\nglobal\n".to_vec(),
        b"a:\nret\nb\0c:\n".to_vec(),
        "a:\nret\né:\n".into(),
        "a:\nret\n\u{141} db 1\n".into(),
    ]
}

fn strs(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

// ---------------------------------------------------------------- runs under way at the same time
/// One run whose source comes through a pipe, so that the explorer decides when it gets on.
struct Job {
    input: &'static str,
    source: String,
    args: Vec<String>,
    /// output path and object; None: the source is malformed
    want: Option<(String, Vec<u8>)>,
    /// killed instead of this step
    kill: Option<usize>,
}
struct Running {
    child: std::process::Child,
    pipe: Option<std::fs::File>,
}
/// Bounds on waiting for a run that does not get on (nothing is judged by them on a fast machine).
const PATIENCE: std::time::Duration = std::time::Duration::from_secs(40);

fn feed(r: &mut Running, mut part: &[u8], w: &mut W) -> Result<(), String> {
    use std::io::Write as _;
    use std::os::fd::AsRawFd;
    let t0 = std::time::Instant::now();
    let Some(f) = r.pipe.as_mut() else { return Ok(()) };
    loop {
        let done = r.child.try_wait().expect("wait").is_some();
        if done || part.is_empty() && sys::unread(f.as_raw_fd()) == 0 {
            return Ok(());
        }
        match f.write(part) {
            Ok(n) => part = &part[n..],
            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
            // nobody is left to read it
            Err(_) => return Ok(()),
        }
        if t0.elapsed() > PATIENCE {
            return Err("does not read its source while other runs are under way".into());
        }
        w.beat();
        std::thread::sleep(std::time::Duration::from_micros(100));
    }
}

/// One schedule: the order in which the runs take their steps (start, first part, the rest).
fn schedule(w: &mut W, b: &mut Box_, jobs: &[Job], start: &[(&str, &str)], order: &[usize]) -> Result<(), String> {
    use std::os::unix::fs::OpenOptionsExt;
    let d = b.dir();
    for (p, c) in start {
        b.file(&d.join(p), c.as_bytes());
    }
    for j in jobs {
        let p = d.join(j.input);
        if !p.parent().unwrap().exists() {
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            b.own(p.parent().unwrap());
        }
        assert!(sys::make_fifo(&p), "mkfifo failed");
        b.own(&p);
    }
    let mut model = snapshot(&d);
    let mut runs: Vec<Option<Running>> = jobs.iter().map(|_| None).collect();
    let mut stage = vec![0usize; jobs.len()];
    let mut killed = false;
    let mut go = |w: &mut W, runs: &mut Vec<Option<Running>>| -> Result<(), String> {
        for (at, &k) in order.iter().enumerate() {
            let j = &jobs[k];
            let here = |m: &str| format!("run {k} (at-asm {:?}) {m}; steps taken so far {:?}", j.args, &order[..=at]);
            w.transitions += 1;
            let s = stage[k];
            stage[k] += 1;
            let mut over = false;
            if j.kill == Some(s) {
                let r = runs[k].as_mut().expect("it runs");
                r.child.kill().expect("kill");
                r.child.wait().expect("wait");
                r.pipe = None;
                killed = true;
                over = true;
            } else if s == 0 {
                let mut child = b.command(&d, &j.args, None).spawn().expect("running the tool");
                let t0 = std::time::Instant::now();
                let mut pipe = None;
                while pipe.is_none() {
                    pipe = std::fs::OpenOptions::new().write(true).custom_flags(0o4000).open(d.join(j.input)).ok();
                    if pipe.is_none() && child.try_wait().expect("wait").is_some() {
                        break;
                    }
                    if t0.elapsed() > PATIENCE {
                        let _ = child.kill();
                        let _ = child.wait();
                        return Err(here("does not open its source while other runs are under way"));
                    }
                    w.beat();
                    std::thread::sleep(std::time::Duration::from_micros(100));
                }
                runs[k] = Some(Running { child, pipe });
            } else {
                let r = runs[k].as_mut().expect("it runs");
                let half = j.source.len() / 2;
                let part = if s == 1 { &j.source[..half] } else { &j.source[half..] };
                feed(r, part.as_bytes(), w).map_err(|e| here(&e))?;
                if s == 2 {
                    r.pipe = None;
                    let t0 = std::time::Instant::now();
                    let st = loop {
                        if let Some(st) = r.child.try_wait().expect("wait") {
                            break st;
                        }
                        if t0.elapsed() > PATIENCE {
                            return Err(here("does not end while other runs are under way"));
                        }
                        w.beat();
                        std::thread::sleep(std::time::Duration::from_micros(100));
                    };
                    over = true;
                    match &j.want {
                        Some(_) if !st.success() => return Err(here(&format!("should succeed, ends with {st}"))),
                        None if st.code().map_or(true, |c| c == 0) => return Err(here(&format!("should be refused, ends with {st}"))),
                        Some((p, object)) => {
                            let mode = match model.get(p) {
                                Some(Entry::File(_, m)) => *m,
                                _ => 0,
                            };
                            model.insert(p.clone(), Entry::File(object.clone(), mode));
                        }
                        None => w.refused += 1,
                    }
                }
            }
            // what the finished runs have written is there, and nothing else has changed
            let mut now = snapshot(&d);
            for (p, e) in model.iter_mut() {
                // (the mode of a new file is not judged)
                if let (Entry::File(_, m), Some(Entry::File(_, n))) = (e, now.get(p)) {
                    if *m == 0 {
                        *m = *n;
                    }
                }
            }
            if killed || !over {
                // a run may keep notes of its own as long as it is under way, or when it was killed
                now.retain(|p, _| model.contains_key(p) || jobs.iter().any(|j| j.want.as_ref().map_or(false, |(o, _)| o == p)));
            } else if stage.iter().zip(jobs).any(|(s, j)| *s > 0 && *s < j.kill.map_or(3, |k| k + 1)) {
                now.retain(|p, _| model.contains_key(p) || jobs.iter().any(|j| j.want.as_ref().map_or(false, |(o, _)| o == p)));
            }
            let ch = changes(&model, &now);
            if !ch.is_empty() {
                return Err(here(&format!("has taken its step, and now, compared with what the finished runs should have left, {}", ch.join(", "))));
            }
            w.outcome(&now);
        }
        Ok(())
    };
    let r = go(w, &mut runs);
    for x in runs.iter_mut().flatten() {
        let _ = x.child.kill();
        let _ = x.child.wait();
    }
    std::fs::remove_dir_all(&d).expect("cleaning up");
    r
}

/// All orders in which runs of these many steps can take turns.
fn merges(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    if left.iter().all(|n| *n == 0) {
        out.push(cur.clone());
        return;
    }
    for k in 0..left.len() {
        if left[k] > 0 {
            left[k] -= 1;
            cur.push(k);
            merges(left, cur, out);
            cur.pop();
            left[k] += 1;
        }
    }
}

fn parallel(w: &mut W, b: &mut Box_) {
    let th = w.thorough();
    let a = format!("{}global q\nq:\nmov rax, q\n", "push 1\nsection .data\nx db \"aaa\"\nsection .text\n".replace("x db", "db").repeat(9));
    let c = "section .data\nn dq 7, 8\nsection .text\nl:\nmov rdi, n\nret\n".to_string();
    let long = "mov rax, 0x123456789abcdef0\n".repeat(6000);
    let bad = format!("{c}section .bss\ndb 1\n");
    let early = format!("hoge\n{c}");
    let job = |input: &'static str, source: &str, out: Option<&str>, good: bool, kill: Option<usize>| -> Job {
        let args = match out {
            None => strs(&[input]),
            Some(o) => strs(&[input, "-o", o]),
        };
        let path = out.map(|s| s.to_string()).unwrap_or_else(|| default_output(input));
        Job { input, source: source.into(), args, want: good.then(|| (path, assemble(source.as_bytes()).unwrap_or_default())), kill }
    };
    let old = [("x.o", "old content"), ("y.o", "other content"), ("b.o", "")];
    // sets of runs, each explored in every order of steps
    let mut sets: Vec<(&str, Vec<Job>)> = vec![
        ("two outputs", vec![job("a.s", &a, None, true, None), job("b.s", &c, None, true, None)]),
        ("one output", vec![job("a.s", &a, Some("x.o"), true, None), job("b.s", &c, Some("x.o"), true, None)]),
        ("one output, one malformed", vec![job("a.s", &a, Some("x.o"), true, None), job("b.s", &bad, Some("x.o"), false, None)]),
        ("one output, one malformed at once", vec![job("a.s", &early, Some("x.o"), false, None), job("b.s", &c, Some("x.o"), true, None)]),
        ("two outputs, one malformed", vec![job("a.s", &bad, Some("x.o"), false, None), job("b.s", &c, Some("y.o"), true, None)]),
        ("equal names in two folders", vec![job("p/a.s", &a, None, true, None), job("q/a.s", &c, None, true, None)]),
        ("equal outputs in two folders", vec![job("p/a.s", &a, Some("p/x.o"), true, None), job("q/b.s", &c, Some("q/x.o"), true, None)]),
        ("names that differ in the extension", vec![job("a.s", &a, Some("a.s.o"), true, None), job("a.t", &c, Some("a.t.o"), true, None)]),
        ("long and short", vec![job("a.s", &long, None, true, None), job("b.s", &c, None, true, None)]),
        ("equal sources", vec![job("a.s", &c, None, true, None), job("b.s", &c, None, true, None)]),
        ("an output in the place of the other's default", vec![job("a.s", &a, Some("b.o"), true, None), job("b.s", &c, None, true, None)]),
    ];
    for at in 1..=2 {
        sets.push(("killed", vec![job("a.s", &a, Some("x.o"), true, Some(at))]));
        sets.push(("killed, long", vec![job("a.s", &long, Some("x.o"), true, Some(at))]));
        sets.push(("killed, another output", vec![job("a.s", &a, Some("x.o"), true, Some(at)), job("b.s", &c, Some("y.o"), true, None)]));
        sets.push(("killed, the same output", vec![job("a.s", &a, Some("x.o"), true, Some(at)), job("b.s", &c, Some("x.o"), true, None)]));
        sets.push(("both killed", vec![job("a.s", &a, Some("x.o"), true, Some(at)), job("b.s", &c, Some("x.o"), true, Some(3 - at))]));
    }
    sets.push(("three", vec![job("a.s", &a, Some("x.o"), true, None), job("b.s", &c, Some("x.o"), true, None), job("c.s", &bad, Some("y.o"), false, None)]));
    if th {
        sets.push(("three outputs", vec![job("a.s", &a, None, true, None), job("b.s", &c, None, true, None), job("c.s", "ret\n", None, true, None)]));
        sets.push(("three, one killed", vec![job("a.s", &a, Some("x.o"), true, Some(2)), job("b.s", &c, Some("x.o"), true, None), job("c.s", "ret\n", None, true, None)]));
    }
    for (name, jobs) in &sets {
        let mut all = vec![];
        merges(&mut jobs.iter().map(|j| j.kill.map_or(3, |k| k + 1)).collect(), &mut vec![], &mut all);
        for part in all.chunks(20) {
            w.case("parallel runs", || format!("{name}: {} schedules from {:?}", part.len(), part[0]), |w| {
                for order in part {
                    w.note(|| format!("{name}: {order:?}"));
                    w.state(&(name, order));
                    w.executed(1);
                    schedule(w, b, jobs, &old, order)?;
                }
                Ok(())
            });
        }
    }
}

fn a10(w: &mut W) {
    let th = w.thorough();
    let mut b = Box_::new(w);
    let good = GOOD[3];
    let obj = |src: &str| assemble(src.as_bytes());

    // argument vectors
    let toks = ["-o", "a.asm", "bad.asm", "out.o", "missing", "sub"];
    for n in 0..=if th { 5u32 } else { 4 } {
        let total = toks.len().pow(n);
        for lo in (0..total).step_by(6) {
            w.case("argument vectors", || format!("{n} arguments over {toks:?}, number {lo}.."), |w| {
                for x in lo..(lo + 6).min(total) {
                    let mut y = x;
                    let mut args = vec![];
                    for _ in 0..n {
                        args.push(toks[y % 6]);
                        y /= 6;
                    }
                    w.state(&args);
                    w.executed(1);
                    let d = b.dir();
                    b.file(&d.join("a.asm"), good.as_bytes());
                    b.file(&d.join("bad.asm"), b"ret\nhoge\n");
                    b.file(&d.join("out.o"), b"old content");
                    b.file(&d.join("sub/x"), b"x");
                    let object = obj(good)?;
                    let flags = args.iter().filter(|a| **a == "-o").count();
                    let want = match (flags, args.iter().position(|a| *a == "-o")) {
                        (0, _) => match args.as_slice() {
                            ["a.asm"] => Want::Ok("a.o", &object),
                            _ => Want::Fail,
                        },
                        (1, Some(i)) => {
                            let out = args.get(i + 1).copied();
                            let rest: Vec<&str> = args.iter().enumerate().filter(|(j, _)| *j != i && *j != i + 1).map(|x| *x.1).collect();
                            match (out, rest.as_slice()) {
                                (Some(o), [input]) if o == *input => Want::Any,
                                (Some("sub"), _) => Want::Fail,
                                (Some(o), ["a.asm"]) => Want::Ok(o, &object),
                                _ => Want::Fail,
                            }
                        }
                        // a flag given twice may be understood somehow
                        _ => Want::Any,
                    };
                    let r = once(w, &b, &d, &strs(&args), want);
                    std::fs::remove_dir_all(&d).expect("cleaning up");
                    r?;
                }
                Ok(())
            });
        }
    }
    // words that other tools take for options
    let options = [
        "-h", "-help", "--help", "-?", "/?", "-v", "-V", "-version", "--version", "-c", "-S", "-E", "-g", "-gdwarf", "-W", "-Wall", "-w", "-f", "-fmacho64", "-felf64", "--format=macho64", "-O", "-O0", "-O2", "-I", "-I.", "-Dx", "-Dx=1", "-l", "-L.", "-M", "-MD", "-MP", "-q", "--quiet", "-s",
        "-a", "-n", "--dry-run", "-x", "-t", "-k", "-X", "-Z", "-arch", "x86_64", "-m64", "-target", "--target=x86_64", "-std", "-isysroot", "-oout.o", "-o=out.o", "--output=out.o", "--out=out.o", "-O=out.o", "-output", "--out", "-Oout.o", "/o", "-p", "-P", "-u", "-d", "--debug", "--", "-", "---", "-1", "-0", "",
        " ", "+", "@args", "@a.asm", "<a.asm", ">out.o", "2>&1", "|", "&", "&&", ";", "#", "*", "*.asm", "?.asm", "$0", "~", "%", "=", "a.asm,", "a.asm:", "a.asm/", "a.asm/.", ".", "..", "./", "/", "sub/", "sub/..", "-o ", " -o", "-o\n", "-O ", "--o", "-\u{2009}o",
    ];
    for part in options.chunks(4) {
        w.case("words like options", || format!("{part:?} alone and next to other arguments"), |w| {
            for x in part {
                for (k, args) in [
                    vec![*x], vec![*x, "a.asm"], vec!["a.asm", *x], vec![*x, "a.asm", "-o", "out.o"], vec!["a.asm", *x, "-o", "out.o"], vec!["a.asm", "-o", "out.o", *x], vec!["-o", "out.o", *x], vec!["-o", "out.o", *x, "bad.asm"], vec![*x, *x], vec!["-o", "out.o"], vec![*x, "-o"], vec!["a.asm", *x, "-o"], vec![*x, "x.o", "a.asm"],
                    vec!["a.asm", *x, "x.o"],
                ]
                .into_iter()
                .enumerate()
                {
                    if args.iter().filter(|a| **a == "-o").count() > 1 {
                        continue;
                    }
                    w.state(&args);
                    w.executed(1);
                    let d = b.dir();
                    b.file(&d.join("a.asm"), good.as_bytes());
                    b.file(&d.join("bad.asm"), b"ret\nhoge\n");
                    b.file(&d.join("args"), b"a.asm");
                    b.file(&d.join("out.o"), b"old content");
                    b.file(&d.join("sub/x"), b"x");
                    let object = obj(good)?;
                    // with a source and an output that are clear, such a word may be understood somehow; without a source it cannot succeed
                    let to = match k {
                        1 | 2 => Some(vec!["a.o", "out.o"]),
                        3..=5 => Some(vec!["out.o"]),
                        12 | 13 => Some(vec!["a.o", "x.o"]),
                        _ => None,
                    };
                    let r = once(w, &b, &d, &strs(&args), to.as_ref().map_or(Want::Fail, |_| Want::Any)).and_then(|_| {
                        let same = |f: &&str| std::fs::read(d.join(f)).map_or(false, |x| x == object);
                        let (a, o, x) = (d.join("a.o").exists(), std::fs::read(d.join("out.o")).unwrap_or_default() != b"old content", d.join("x.o").exists());
                        let ch: Vec<&str> = [(a, "a.o"), (o, "out.o"), (x, "x.o")].iter().filter(|y| y.0).map(|y| y.1).collect();
                        match (&to, ch.as_slice()) {
                            // whether it succeeded was looked at already
                            (_, []) => Ok(()),
                            (Some(to), [c]) if to.contains(c) && same(c) => Ok(()),
                            _ => Err(format!("at-asm {args:?} changed {ch:?}")),
                        }
                    });
                    std::fs::remove_dir_all(&d).expect("cleaning up");
                    r?;
                }
            }
            Ok(())
        });
    }
    // names
    let inputs = ["a.asm", "a", "a.s", "a.b.asm", ".hidden", ".hidden.asm", "sub/a.asm", "sub.d/a", "sub.d/a.asm", "./a.asm", "sub/../a.asm", "with space.asm", "é.あ.asm", "o.o.s", "x-o", "-x.asm", "-old.asm", "-O.asm", "--output", "o", "a.asm.asm", "A.ASM", "a..asm", "sub/.x", "a.O", "-", "--", "sub/-", "~", "$HOME", "a.asm~", "nul", "@a.asm", "a=b.s", "%41.s", "*.s", "a\nb.s"];
    let outputs = ["out.o", "out", "sub/out.o", "./x.y.z", "a.asm.o", "spa ce", "-out.o", "o", "-", "--", "sub/.o", "a:b.o"];
    for i in inputs {
        for (oi, o) in [None].into_iter().chain(outputs.iter().map(Some)).enumerate() {
            w.case("names", || format!("input {i:?}, output {o:?}"), |w| {
                for abs in [false, true] {
                    for place in 0..if o.is_some() { 2 } else { 1 } {
                        let d = b.dir();
                        for s in ["sub", "sub.d"] {
                            std::fs::create_dir(d.join(s)).unwrap();
                            b.own(&d.join(s));
                        }
                        let plain = if i == "sub/../a.asm" { "a.asm" } else { i };
                        b.file(&d.join(plain), good.as_bytes());
                        let object = obj(good)?;
                        let full = |p: &str| if abs { d.join(p).to_string_lossy().into_owned() } else { p.to_string() };
                        let mut args = vec![full(i)];
                        if let Some(o) = o {
                            if place == 0 {
                                args.extend([String::from("-o"), full(o)]);
                            } else {
                                args = vec!["-o".into(), full(o), full(i)];
                            }
                        }
                        let out = o.map(|s| s.to_string()).unwrap_or_else(|| default_output(i));
                        w.state(&(i, oi, abs, place));
                        w.executed(1);
                        let r = once(w, &b, &d, &args, Want::Ok(&out, &object));
                        std::fs::remove_dir_all(&d).expect("cleaning up");
                        r?;
                    }
                }
                Ok(())
            });
        }
    }
    // previous states of the output
    let bad = failing();
    let sources: Vec<(Vec<u8>, bool)> = GOOD.iter().map(|s| (s.as_bytes().to_vec(), true)).chain(bad.iter().map(|s| (s.clone(), false))).collect();
    for (si, (src, valid)) in sources.iter().enumerate() {
        for prior in 0..20 {
            for order in 0..3 {
                w.case("previous output", || format!("source {si} ({}), previous output {prior}, argument order {order}", if *valid { "valid" } else { "failing" }), |w| {
                    let d = b.dir();
                    b.file(&d.join("in.asm"), src);
                    let object = if *valid { assemble(src)? } else { vec![] };
                    let out = ["in.o", "o/r.o", "o/r.o"][order];
                    std::fs::create_dir(d.join("o")).unwrap();
                    b.own(&d.join("o"));
                    b.file(&d.join("bystander.o"), b"keep me");
                    match prior {
                        0 => {}
                        1 => b.file(&d.join(out), b""),
                        2 => b.file(&d.join(out), b"short"),
                        3 => b.file(&d.join(out), &vec![0xaa; 300_000]),
                        4 => b.file(&d.join(out), &object),
                        5 => {
                            let mut x = object.clone();
                            x.extend_from_slice(b"tail");
                            b.file(&d.join(out), &x);
                        }
                        6 => {
                            b.file(&d.join(out), b"executable");
                            std::fs::set_permissions(d.join(out), PermissionsExt::from_mode(0o755)).unwrap();
                        }
                        7 => b.file(&d.join(out), &object[..object.len() / 2]),
                        // as long as the object, or nearly, with other bytes; and a stale or a future file
                        _ => {
                            let mut x = if *valid { object.clone() } else { vec![1; 400] };
                            let n = x.len();
                            match prior {
                                8 => x.iter_mut().for_each(|b| *b = !*b),
                                9 => x[0] ^= 1,
                                10 => x[n / 2] ^= 0x80,
                                11 => x[n - 1] ^= 1,
                                12 => x.truncate(n - 1),
                                13 => x.push(0),
                                14 => x.iter_mut().for_each(|b| *b = 0),
                                15 => x.reverse(),
                                16 => x[32..].iter_mut().for_each(|b| *b = 0x55),
                                17 => x[..32].iter_mut().for_each(|b| *b = 0x55),
                                _ => x.rotate_left(4),
                            }
                            b.file(&d.join(out), &x);
                            if prior >= 18 {
                                let other = if prior == 18 { 1 } else { 4_000_000_000 };
                                for (p, t) in [(d.join(out), other), (d.join("in.asm"), 2_000_000_000)] {
                                    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(t);
                                    std::fs::File::options().write(true).open(p).and_then(|f| f.set_modified(t)).expect("setting a time");
                                }
                            }
                        }
                    }
                    let args = match order {
                        0 => strs(&["in.asm"]),
                        1 => strs(&["in.asm", "-o", out]),
                        _ => strs(&["-o", out, "in.asm"]),
                    };
                    w.state(&(si, prior, order));
                    let r = once(w, &b, &d, &args, if *valid { Want::Ok(out, &object) } else { Want::Fail });
                    std::fs::remove_dir_all(&d).expect("cleaning up");
                    r
                });
            }
        }
    }
    // histories
    let runs: [(&[&str], Option<(&str, usize)>); 8] = [
        (&["a.asm"], Some(("a.o", 3))),
        (&["-o", "x.o", "a.asm"], Some(("x.o", 3))),
        (&["b.asm", "-o", "x.o"], Some(("x.o", 0))),
        (&["b.asm", "-o", "a.o"], Some(("a.o", 0))),
        (&["bad.asm", "-o", "x.o"], None),
        (&["bad.asm"], None),
        (&["missing.asm", "-o", "a.o"], None),
        (&["a.asm", "-o"], None),
    ];
    // long names and deep folders
    for n in (1usize..=250).step_by(if th { 1 } else { 3 }) {
        w.case("long names", || format!("input and output names of {n} characters, and folders as deep"), |w| {
            let d = b.dir();
            let name: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let deep = "d/".repeat(n);
            b.file(&d.join(format!("{name}.s")), good.as_bytes());
            b.file(&d.join(&deep).join("x.y.s"), good.as_bytes());
            let object = obj(good)?;
            let mut r = Ok(());
            for (args, out) in [
                (vec![format!("{name}.s")], format!("{name}.o")),
                (vec![format!("{name}.s"), "-o".into(), name.clone()], name.clone()),
                (vec![format!("{deep}x.y.s")], format!("{deep}x.y.o")),
                (vec!["-o".into(), format!("{deep}{name}"), format!("{name}.s")], format!("{deep}{name}")),
                (vec![format!("{}{deep}x.y.s", "./".repeat(n))], format!("{deep}x.y.o")),
            ] {
                w.executed(1);
                w.state(&args);
                r = r.and_then(|_| once(w, &b, &d, &args, Want::Ok(&out, &object)));
            }
            std::fs::remove_dir_all(&d).expect("cleaning up");
            r
        });
    }
    // names as long as the file system takes them (255 characters)
    for n in 246usize..=255 {
        w.case("longest names", || format!("input and output names of {n} characters"), |w| {
            let d = b.dir();
            let name: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let stem = &name[..n - 2];
            b.file(&d.join("a.asm"), good.as_bytes());
            b.file(&d.join("f/a.asm"), good.as_bytes());
            b.file(&d.join(format!("{stem}.s")), good.as_bytes());
            b.file(&d.join(format!("f/{stem}.q")), good.as_bytes());
            b.file(&d.join(format!("f/{name}")), good.as_bytes());
            let object = obj(good)?;
            let mut r = Ok(());
            for (args, out) in [
                (vec![format!("{stem}.s")], format!("{stem}.o")),
                (vec![format!("f/{stem}.q")], format!("f/{stem}.o")),
                (vec!["a.asm".into(), "-o".into(), name.clone()], name.clone()),
                (vec!["-o".into(), format!("f/{stem}.o"), format!("f/{name}")], format!("f/{stem}.o")),
                (vec!["f/a.asm".into(), "-o".into(), format!("{stem}.o")], format!("{stem}.o")),
            ] {
                w.executed(1);
                w.state(&args);
                r = r.and_then(|_| once(w, &b, &d, &args, Want::Ok(&out, &object)));
            }
            std::fs::remove_dir_all(&d).expect("cleaning up");
            r
        });
    }
    // the environment
    let envs: Vec<Vec<(&str, &str)>> = vec![
        vec![],
        vec![("TMPDIR", "."), ("TMP", "."), ("TEMP", ".")],
        vec![("HOME", "."), ("XDG_CACHE_HOME", "."), ("XDG_CONFIG_HOME", "."), ("USER", "u")],
        vec![("LANG", "C"), ("LC_ALL", "C")],
        vec![("LANG", "ja_JP.UTF-8"), ("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Tokyo")],
        vec![("RUST_BACKTRACE", "full"), ("RUST_LOG", "trace"), ("DEBUG", "1"), ("VERBOSE", "1"), ("NO_COLOR", "1")],
        vec![("AT_ASM", "1"), ("AS", "x"), ("ASFLAGS", "-o z.o"), ("SOURCE_DATE_EPOCH", "1"), ("OUT", "z.o"), ("PATH", ".")],
        vec![("PWD", "/nowhere"), ("OLDPWD", "/"), ("COLUMNS", "1"), ("TERM", "dumb")],
    ];
    for (ei, env) in envs.iter().enumerate() {
        for src in 0..4usize {
            for input in 0..10usize {
                if input > 2 && ei > 0 && !th {
                    continue;
                }
                w.case("environments", || format!("environment {env:?}, source {src}, kind of standard input and output {input}"), |w| {
                    let text = [GOOD[3], GOOD[0], "ret\nhoge\n", "mov rax, missing\n"][src];
                    for args in [strs(&["a.asm"]), strs(&["-o", "x/y.o", "a.asm"])] {
                        let d = b.dir();
                        b.file(&d.join("a.asm"), text.as_bytes());
                        b.file(&d.join("x/keep"), b"k");
                        let before = snapshot(&d);
                        let mut c = b.command(&d, &args, None);
                        c.envs(env.iter().cloned());
                        let file = || std::fs::File::open(d.join("a.asm")).unwrap();
                        match input {
                            0 => {}
                            1 => {
                                c.stdin(Stdio::from(file())).stdout(Stdio::piped());
                            }
                            2 => {
                                c.stdin(Stdio::piped()).stderr(Stdio::null());
                            }
                            // streams that take and give nothing
                            3 | 4 | 5 => {
                                let full = || Stdio::from(std::fs::OpenOptions::new().read(true).write(true).open("/dev/full").expect("/dev/full"));
                                if input != 4 {
                                    c.stdout(full());
                                }
                                if input != 3 {
                                    c.stderr(full());
                                }
                            }
                            6 | 7 => {
                                for err in 0..input - 5 {
                                    let (_, wr) = std::io::pipe().expect("pipe");
                                    if err == 0 {
                                        c.stdout(wr);
                                    } else {
                                        c.stderr(wr);
                                    }
                                }
                            }
                            // streams that are closed
                            _ => unsafe {
                                let first = 9 - input as i32;
                                std::os::unix::process::CommandExt::pre_exec(&mut c, move || {
                                    for fd in first..3 {
                                        sys::close(fd);
                                    }
                                    Ok(())
                                });
                            },
                        }
                        let st = c.output().expect("running the tool").status;
                        w.transitions += 1;
                        w.executed(1);
                        w.state(&(ei, src, input, &args));
                        let ch = changes(&before, &snapshot(&d));
                        let out = std::fs::read(d.join(if args.len() == 1 { "a.o" } else { "x/y.o" })).ok();
                        std::fs::remove_dir_all(&d).expect("cleaning up");
                        if src < 2 {
                            if st.code() != Some(0) || out != Some(obj(text)?) || ch.len() != 1 {
                                return Err(format!("at-asm {args:?} in environment {env:?}: ended with {st:?}, {}", ch.join(", ")));
                            }
                        } else if st.code().map_or(true, |c| c == 0) || !ch.is_empty() {
                            return Err(format!("at-asm {args:?} on a malformed source in environment {env:?}: ended with {st:?}, {}", ch.join(", ")));
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    // the output or the input is a link
    for kind in 0..6 {
        for order in 0..2 {
            w.case("links", || format!("link {kind}, argument order {order}"), |w| {
                let d = b.dir();
                b.file(&d.join("a.asm"), good.as_bytes());
                b.file(&d.join("dir/old"), b"old content that is longer than nothing");
                let object = obj(good)?;
                let (src, out, real) = match kind {
                    0 => {
                        symlink("dir/old", d.join("l.o")).unwrap();
                        ("a.asm", "l.o", "dir/old")
                    }
                    1 => {
                        symlink("dir/new", d.join("l.o")).unwrap();
                        ("a.asm", "l.o", "dir/new")
                    }
                    2 => {
                        symlink("dir", d.join("ld")).unwrap();
                        ("a.asm", "ld/old", "dir/old")
                    }
                    3 => {
                        symlink("a.asm", d.join("b.s")).unwrap();
                        ("b.s", "b.o", "b.o")
                    }
                    4 => {
                        symlink("../a.asm", d.join("dir/c.s")).unwrap();
                        ("dir/c.s", "dir/c.o", "dir/c.o")
                    }
                    _ => {
                        symlink("dir", d.join("ld")).unwrap();
                        b.file(&d.join("dir/e.s"), good.as_bytes());
                        ("ld/e.s", "ld/e.o", "dir/e.o")
                    }
                };
                w.state(&(kind, order));
                w.executed(1);
                let args = if order == 0 && kind > 2 { strs(&[src]) } else if order == 0 { strs(&[src, "-o", out]) } else { strs(&["-o", out, src]) };
                let (st, msg) = b.run(&d, &args, None);
                w.transitions += 1;
                // either the object is what is found at the output path, or nothing has changed
                let got = std::fs::read(d.join(out));
                let r = if st == Ok(0) {
                    if got.as_deref().ok() != Some(&object[..]) { Err(format!("at-asm {args:?}: {out} does not hold the object")) }
                    else if std::fs::read(d.join("a.asm")).unwrap() != good.as_bytes() { Err("the source has changed".into()) }
                    else { Ok(()) }
                } else {
                    Err(format!("at-asm {args:?} should succeed, ended with {st:?}: {}", clip(&msg, 200)))
                };
                let _ = real;
                std::fs::remove_dir_all(&d).expect("cleaning up");
                r
            });
        }
    }
    // the source is edited between runs, with every time stamp
    let texts: [&[u8]; 5] = [b"push 1\nret\n", b"push 2\nret\n", b"ret\npush 1\n", b"pusk 2\nret\n", b"push 1\nsection .data\ndb 1\n"];
    for lo in 0..texts.len().pow(3) {
        w.case("edited sources", || format!("sources {} {} {} in turn", lo / 25, lo / 5 % 5, lo % 5), |w| {
            for stamps in 0..4usize {
                let d = b.dir();
                let r = (0..3).try_for_each(|i| {
                    let k = [lo / 25, lo / 5 % 5, lo % 5][i];
                    b.file(&d.join("a.asm"), texts[k]);
                    let t = match stamps {
                        0 => None,
                        1 => Some(1_000_000_000),
                        2 => Some(1_000_000_000 - i as u64),
                        _ => Some(4_000_000_000),
                    };
                    if let Some(t) = t {
                        let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(t);
                        std::fs::File::options().write(true).open(d.join("a.asm")).and_then(|f| f.set_modified(t)).expect("setting a time");
                    }
                    w.state(&(lo, stamps, i));
                    w.executed(1);
                    if k == 3 { once(w, &b, &d, &strs(&["a.asm"]), Want::Fail) } else { once(w, &b, &d, &strs(&["a.asm"]), Want::Ok("a.o", &obj(std::str::from_utf8(texts[k]).unwrap())?)) }
                });
                std::fs::remove_dir_all(&d).expect("cleaning up");
                r?;
            }
            Ok(())
        });
    }
    let depth = if th { 4u32 } else { 3 };
    for lo in 0..runs.len().pow(depth) {
        w.case("histories", || format!("history {lo} of {depth} runs"), |w| {
            let d = b.dir();
            b.file(&d.join("a.asm"), GOOD[3].as_bytes());
            b.file(&d.join("b.asm"), GOOD[0].as_bytes());
            b.file(&d.join("bad.asm"), b"ret\nret ret\n");
            let mut x = lo;
            let mut r = Ok(());
            for _ in 0..depth {
                let (args, want) = runs[x % runs.len()];
                x /= runs.len();
                w.executed(1);
                r = match want {
                    Some((p, g)) => once(w, &b, &d, &strs(args), Want::Ok(p, &obj(GOOD[g])?)),
                    None => once(w, &b, &d, &strs(args), Want::Fail),
                };
                if r.is_err() {
                    break;
                }
                w.state(&snapshot(&d));
            }
            std::fs::remove_dir_all(&d).expect("cleaning up");
            r
        });
    }
    parallel(w, &mut b);
    // sources and outputs that are no files, or files with few permissions
    if b.drop_to.is_some() {
        let outs = ["/dev/null", "p.o", "./x/p.o", "/dev/stdout", "/dev/fd/1", "/proc/self/fd/1", "/dev/full", "w.o", "x/w2.o", "w3.o", "new.o"];
        let ins = ["a.asm", "/dev/stdin", "ro.asm", "x/ro2.asm", "/dev/null"];
        for (oi, out) in outs.iter().enumerate() {
            for (ii, input) in ins.iter().enumerate() {
                w.case("places that are no files", || format!("from {input} to {out}"), |w| {
                    for src in 0..4usize {
                        let text = [GOOD[3], GOOD[0], "ret\nhoge\n", "mov rax, missing\n"][src];
                        for first in [false, true] {
                            let d = b.dir();
                            let object = if ii == 4 { obj("")? } else if src < 2 { obj(text)? } else { vec![] };
                            let good = (ii == 4 || src < 2) && oi != 6;
                            for f in ["a.asm", "ro.asm", "x/ro2.asm"] {
                                b.file(&d.join(f), text.as_bytes());
                            }
                            for f in ["w.o", "x/w2.o", "w3.o", "s.bin"] {
                                b.file(&d.join(f), b"old content, longer than nothing");
                            }
                            let mode = |p: &str, m: u32| std::fs::set_permissions(d.join(p), PermissionsExt::from_mode(m)).unwrap();
                            mode("ro.asm", 0o444);
                            mode("x/ro2.asm", 0o400);
                            mode("w.o", 0o200);
                            mode("x/w2.o", 0o222);
                            mode("w3.o", 0o600);
                            let mut fifo = None;
                            if oi == 1 || oi == 2 {
                                let p = d.join(out);
                            use std::os::unix::fs::OpenOptionsExt;
                                assert!(sys::make_fifo(&p), "mkfifo failed");
                                b.own(&p);
                                fifo = Some(std::fs::OpenOptions::new().read(true).custom_flags(0o4000).open(&p).expect("pipe"));
                            }
                            let before = snapshot(&d);
                            let args = if first { strs(&["-o", out, input]) } else { strs(&[input, "-o", out]) };
                            let mut c = b.command(&d, &args, None);
                            c.stdin(Stdio::from(std::fs::File::open(d.join("a.asm")).unwrap()));
                            c.stdout(Stdio::from(std::fs::OpenOptions::new().write(true).open(d.join("s.bin")).unwrap()));
                            let st = c.output().expect("running the tool").status;
                            w.beat();
                            w.transitions += 1;
                            w.executed(1);
                            w.state(&("no files", oi, ii, src, first));
                            let ch = changes(&before, &snapshot(&d));
                            let mut piped = vec![];
                            if let Some(f) = &mut fifo {
                                let _ = std::io::Read::read_to_end(f, &mut piped);
                            }
                            let place = match oi {
                                3..=5 => "s.bin",
                                7..=10 => out,
                                _ => "",
                            };
                            let got = if place.is_empty() { piped } else { std::fs::read(d.join(place)).unwrap_or_default() };
                            std::fs::remove_dir_all(&d).expect("cleaning up");
                            let ended = || format!("at-asm {args:?} with source {src} ended with {st:?}, {}", ch.join(", "));
                            if st.code().is_none() || (st.code() == Some(0)) != good {
                                return Err(format!("{}; should {}", ended(), if good { "succeed" } else { "fail" }));
                            }
                            if ch.len() != (good && !place.is_empty()) as usize {
                                return Err(ended());
                            }
                            if good && oi != 0 && got != object {
                                return Err(format!("{}; {} bytes that are not the object of {} bytes arrive", ended(), got.len(), object.len()));
                            }
                            if !good && fifo.is_some() && !got.is_empty() {
                                return Err(format!("{}; {} bytes arrive", ended(), got.len()));
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    // places that cannot be read or written
    if b.drop_to.is_some() {
        for k in 0..9 {
            w.case("permissions", || format!("unreadable or unwritable place {k}"), |w| {
                let d = b.dir();
                b.file(&d.join("in.asm"), good.as_bytes());
                b.file(&d.join("out.o"), b"old");
                b.file(&d.join("ro/in.asm"), good.as_bytes());
                b.file(&d.join("ro/old.o"), b"old");
                let mode = |p: &str, m: u32| std::fs::set_permissions(d.join(p), PermissionsExt::from_mode(m)).unwrap();
                let args: &[&str] = match k {
                    0 => {
                        mode("in.asm", 0);
                        &["in.asm", "-o", "out.o"]
                    }
                    1 => {
                        mode("out.o", 0o444);
                        &["in.asm", "-o", "out.o"]
                    }
                    2 => {
                        mode("ro", 0o555);
                        &["ro/in.asm"]
                    }
                    3 => {
                        mode("ro", 0o555);
                        &["in.asm", "-o", "ro/new.o"]
                    }
                    4 => &["in.asm", "-o", "nodir/new.o"],
                    5 => &["nodir/in.asm", "-o", "out.o"],
                    6 => &["in.asm", "-o", "in.asm/x"],
                    7 => &["in.asm", "-o", ""],
                    _ => {
                        symlink("nowhere.asm", d.join("dangling.asm")).unwrap();
                        &["dangling.asm", "-o", "out.o"]
                    }
                };
                w.state(&k);
                let r = once(w, &b, &d, &strs(args), Want::Fail);
                mode("ro", 0o755);
                std::fs::remove_dir_all(&d).expect("cleaning up");
                r
            });
        }
    }
}
