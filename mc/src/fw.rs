//! The explorer: enumerates cases, shards them over worker processes, guards every call
//! into the code under test, and turns the merged results into evidence and a verdict.
use crate::sys;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::SeqCst};

#[derive(Default, Clone, Copy)]
pub struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^ (x >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for &c in b {
            self.0 = (self.0.rotate_left(5) ^ c as u64).wrapping_mul(0x9e3779b97f4a7c15);
        }
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = (self.0.rotate_left(5) ^ n).wrapping_mul(0x9e3779b97f4a7c15);
    }
}
#[derive(Default, Clone, Copy)]
pub struct Ident(u64);
impl Hasher for Ident {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = n
    }
}
pub type Set = HashSet<u64, BuildHasherDefault<Ident>>;

pub fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv::default();
    t.hash(&mut h);
    h.finish()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[repr(C)]
struct Shm {
    idx: AtomicU64,
    beat: AtomicU64,
    in_sut: AtomicU32,
    engine: AtomicU32,
}

pub struct W {
    pub tier: Tier,
    shard: u64,
    nshards: u64,
    next: u64,
    only: Option<u64>,
    shm: *const Shm,
    states: Set,
    states_extra: u64,
    pub transitions: u64,
    traces: u64,
    outcomes: Set,
    pub refused: u64,
    families: BTreeMap<String, u64>,
    samples: Vec<String>,
    violation: Option<(u64, String, String)>,
    err_fd: i32,
    out_fd: i32,
    /// a directory of this run's own, removed when it ends
    pub scratch: std::path::PathBuf,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static CUR_SHM: std::cell::Cell<*const Shm> = const { std::cell::Cell::new(std::ptr::null()) };
}

/// Calls the code under test. `Err` is the panic message.
pub fn sut<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let shm = CUR_SHM.with(|c| c.get());
    let flag = |v: u32| {
        if !shm.is_null() {
            unsafe { (*shm).in_sut.store(v, SeqCst) }
        }
    };
    flag(1);
    let r = catch_unwind(AssertUnwindSafe(f));
    flag(0);
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// How a run that may end its own process ended.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum End {
    Returned(Vec<u8>),
    Exited(i32),
    Panicked(String),
    Killed(i32),
}

pub struct Ended {
    pub end: End,
    pub stderr: String,
}

impl W {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Declares the next case of the enumeration; runs it when it is this worker's.
    pub fn case(&mut self, fam: &str, desc: impl Fn() -> String, body: impl FnOnce(&mut W) -> Result<(), String>) {
        let idx = self.next;
        self.next += 1;
        match self.only {
            Some(o) if o != idx => return,
            None if idx % self.nshards != self.shard || self.violation.is_some() => return,
            _ => {}
        }
        unsafe {
            (*self.shm).idx.store(idx, SeqCst);
            (*self.shm).beat.fetch_add(1, SeqCst);
        }
        if self.only.is_some() {
            eprintln!("case {idx} [{fam}]: {}", desc());
        }
        match self.families.get_mut(fam) {
            Some(n) => *n += 1,
            None => {
                self.families.insert(fam.to_string(), 1);
                // the first case of each family is a sample
                if self.samples.len() < 12 {
                    self.samples.push(format!("[{fam}] {}", clip(&desc(), 300)));
                }
            }
        }
        let before = self.traces;
        match body(self) {
            // a case that counts no executions of its own is one
            Ok(()) => self.traces += (self.traces == before) as u64,
            Err(e) => self.violation = Some((idx, format!("[{fam}] {}", desc()), e)),
        }
    }

    /// Keeps the watchdog quiet inside one long case.
    pub fn beat(&self) {
        unsafe { (*self.shm).beat.fetch_add(1, SeqCst) };
    }
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.states.insert(hash(t));
    }
    /// States that are distinct by construction of the enumeration (dense ranges).
    pub fn states_dense(&mut self, n: u64) {
        self.states_extra += n;
    }
    /// Says, when one case is replayed, what is executed next inside it.
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.only.is_some() {
            eprintln!("  next: {}", clip(&f(), 1500));
        }
    }
    /// Further executions of the code under test compared inside one case.
    pub fn executed(&mut self, n: u64) {
        self.traces += n;
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.outcomes.len() < 4_000_000 {
            self.outcomes.insert(hash(t));
        }
    }

    /// Runs `f` in a child process, for code under test that may end its process.
    pub fn forked(&mut self, f: impl FnOnce() -> Vec<u8>) -> Ended {
        sys::reset_fd(self.err_fd);
        sys::reset_fd(self.out_fd);
        let pid = unsafe { sys::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            sys::die_with_parent();
            sys::redirect(self.err_fd, 2);
            // stdout is not the code under test's to use for verdicts
            sys::redirect(sys::open_dev_null(), 1);
            match sut(f) {
                Ok(v) => {
                    sys::write_fd(self.out_fd, b"R");
                    sys::write_fd(self.out_fd, &v);
                }
                Err(m) => {
                    sys::write_fd(self.out_fd, b"P");
                    sys::write_fd(self.out_fd, m.as_bytes());
                }
            }
            unsafe { sys::_exit(0) };
        }
        let mut st = 0;
        // a forked case that burns CPU without end is a hang of the code under test
        let mut spins = 0u64;
        loop {
            let r = unsafe { sys::waitpid(pid, &mut st, if spins < 2000 { sys::WNOHANG } else { sys::WNOHANG }) };
            if r == pid {
                break;
            }
            assert!(r == 0, "waitpid failed");
            spins += 1;
            if spins > 200 {
                std::thread::sleep(std::time::Duration::from_micros(if spins > 2000 { 2000 } else { 50 }));
            } else {
                std::thread::yield_now();
            }
            if spins % 1000 == 0 && sys::cpu_ms(pid) > HANG_CPU_MS {
                unsafe { sys::kill(pid, sys::SIGKILL) };
            }
        }
        let out = sys::read_fd(self.out_fd);
        let stderr = String::from_utf8_lossy(&sys::read_fd(self.err_fd)).into_owned();
        if self.only.is_some() && !stderr.is_empty() {
            eprintln!("  stderr of the code under test: {}", clip(&stderr, 2000));
        }
        let end = match (sys::exited(st), out.first()) {
            (None, _) => End::Killed(sys::signal_of(st)),
            (Some(_), Some(b'R')) => End::Returned(out[1..].to_vec()),
            (Some(_), Some(b'P')) => End::Panicked(String::from_utf8_lossy(&out[1..]).into_owned()),
            (Some(c), _) => End::Exited(c),
        };
        Ended { end, stderr }
    }
}

pub const HANG_CPU_MS: u64 = 30_000;

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{t}… ({} chars)", s.chars().count())
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub run: fn(&mut W),
    pub bounds: fn(Tier) -> String,
    pub assumptions: &'static [&'static str],
}

struct Merged {
    states: Set,
    states_extra: u64,
    transitions: u64,
    traces: u64,
    refused: u64,
    cases: u64,
    outcomes: Set,
    families: BTreeMap<String, u64>,
    samples: Vec<String>,
    violations: Vec<(u64, String, String)>,
    engine_errors: Vec<String>,
}

fn put(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&(b.len() as u64).to_le_bytes());
    o.extend_from_slice(b);
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn b(&mut self) -> &'a [u8] {
        let n = self.u() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn s(&mut self) -> String {
        String::from_utf8_lossy(self.b()).into_owned()
    }
}

fn new_worker(tier: Tier, shard: u64, nshards: u64, only: Option<u64>, shm: *const Shm, scratch: std::path::PathBuf) -> W {
    W {
        tier,
        shard,
        nshards,
        next: 0,
        only,
        shm,
        states: Set::default(),
        states_extra: 0,
        transitions: 0,
        traces: 0,
        outcomes: Set::default(),
        refused: 0,
        families: BTreeMap::new(),
        samples: Vec::new(),
        violation: None,
        err_fd: sys::memfd(),
        out_fd: sys::memfd(),
        scratch,
    }
}

fn serialize(w: &W) -> Vec<u8> {
    let mut o = Vec::new();
    for n in [w.states_extra, w.transitions, w.traces, w.refused, w.next] {
        o.extend_from_slice(&n.to_le_bytes());
    }
    for s in [&w.states, &w.outcomes] {
        o.extend_from_slice(&(s.len() as u64).to_le_bytes());
        for x in s {
            o.extend_from_slice(&x.to_le_bytes());
        }
    }
    o.extend_from_slice(&(w.families.len() as u64).to_le_bytes());
    for (k, v) in &w.families {
        put(&mut o, k.as_bytes());
        o.extend_from_slice(&v.to_le_bytes());
    }
    o.extend_from_slice(&(w.samples.len() as u64).to_le_bytes());
    for s in &w.samples {
        put(&mut o, s.as_bytes());
    }
    match &w.violation {
        None => o.extend_from_slice(&0u64.to_le_bytes()),
        Some((i, d, e)) => {
            o.extend_from_slice(&1u64.to_le_bytes());
            o.extend_from_slice(&i.to_le_bytes());
            put(&mut o, d.as_bytes());
            put(&mut o, e.as_bytes());
        }
    }
    o
}

fn merge(m: &mut Merged, bytes: &[u8]) {
    let mut r = Rd(bytes);
    m.states_extra += r.u();
    m.transitions += r.u();
    m.traces += r.u();
    m.refused += r.u();
    m.cases = m.cases.max(r.u());
    let n = r.u();
    for _ in 0..n {
        m.states.insert(r.u());
    }
    let n = r.u();
    for _ in 0..n {
        m.outcomes.insert(r.u());
    }
    let n = r.u();
    for _ in 0..n {
        let k = r.s();
        *m.families.entry(k).or_insert(0) += r.u();
    }
    let n = r.u();
    for _ in 0..n {
        let s = r.s();
        if m.samples.len() < 40 && !m.samples.contains(&s) {
            m.samples.push(s);
        }
    }
    if r.u() == 1 {
        let i = r.u();
        let d = r.s();
        let e = r.s();
        m.violations.push((i, d, e));
    }
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} (at {loc})"));
    }));
}

/// Runs only case `idx` in this process (replay), printing what happens.
pub fn replay(p: &Prop, tier: Tier, idx: u64) -> i32 {
    install_hook();
    let shm = sys::shared_zeroed(4096) as *const Shm;
    CUR_SHM.with(|c| c.set(shm));
    let scratch = std::env::temp_dir().join(format!("mc-{}-replay-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch dir");
    let mut w = new_worker(tier, 0, 1, Some(idx), shm, scratch.clone());
    let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut w)));
    let _ = std::fs::remove_dir_all(&scratch);
    if r.is_err() {
        eprintln!("engine error: {}", LAST_PANIC.with(|p| p.borrow().clone()));
        return 2;
    }
    match w.violation {
        Some((_, d, e)) => {
            println!("replayed: property {} is violated\n  case: {d}\n  {e}", p.id);
            1
        }
        None => {
            println!("replayed: property {} holds on case {idx}", p.id);
            0
        }
    }
}

pub fn explore(p: &Prop, tier: Tier, seed: u64, verif: &std::path::Path, wall_cap_s: u64) -> i32 {
    install_hook();
    let t0 = std::time::Instant::now();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16) as u64;
    let scratch = std::env::temp_dir().join(format!("mc-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch dir");
    let mut kids = Vec::new();
    for shard in 0..n {
        let shm = sys::shared_zeroed(4096) as *const Shm;
        let out = scratch.join(format!("w{shard}"));
        std::io::stdout().flush().ok();
        let pid = unsafe { sys::fork() };
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            sys::die_with_parent();
            sys::limit_address_space(12 << 30);
            let null = sys::open_dev_null();
            if std::env::var_os("MC_DEBUG").is_none() {
                sys::redirect(null, 2);
            }
            sys::redirect(null, 1);
            CUR_SHM.with(|c| c.set(shm));
            let dir = scratch.join(format!("d{shard}"));
            std::fs::create_dir_all(&dir).expect("scratch dir");
            let mut w = new_worker(tier, shard, n, None, shm, dir);
            let r = catch_unwind(AssertUnwindSafe(|| (p.run)(&mut w)));
            if r.is_err() {
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                let _ = std::fs::write(scratch.join(format!("e{shard}")), format!("case {}: {m}", w.next.saturating_sub(1)));
                unsafe {
                    (*shm).engine.store(1, SeqCst);
                    sys::_exit(70)
                };
            }
            let ok = std::fs::write(&out, serialize(&w)).is_ok();
            unsafe { sys::_exit(if ok { 0 } else { 71 }) };
        }
        kids.push((shard, pid, shm, out, 0u64, 0u64));
    }
    let mut m = Merged {
        states: Set::default(),
        states_extra: 0,
        transitions: 0,
        traces: 0,
        refused: 0,
        cases: 0,
        outcomes: Set::default(),
        families: BTreeMap::new(),
        samples: Vec::new(),
        violations: Vec::new(),
        engine_errors: Vec::new(),
    };
    let mut died: Vec<(u64, String)> = Vec::new();
    let mut ticks = 0u64;
    while !kids.is_empty() {
        std::thread::sleep(std::time::Duration::from_millis(5));
        ticks += 1;
        if t0.elapsed().as_secs() > wall_cap_s {
            for k in &kids {
                unsafe { sys::kill(k.1, sys::SIGKILL) };
            }
            m.engine_errors.push(format!("wall cap of {wall_cap_s} s hit before the enumeration was complete"));
            break;
        }
        kids.retain_mut(|(shard, pid, shm, out, beat, cpu)| {
            let mut st = 0;
            let r = unsafe { sys::waitpid(*pid, &mut st, sys::WNOHANG) };
            let s = unsafe { &**shm };
            if r == 0 {
                if ticks % 200 == 0 {
                    let b = s.beat.load(SeqCst);
                    let c = sys::cpu_ms(*pid);
                    if b != *beat {
                        *beat = b;
                        *cpu = c;
                    } else if c.saturating_sub(*cpu) > HANG_CPU_MS && s.in_sut.load(SeqCst) == 1 {
                        unsafe { sys::kill(*pid, sys::SIGKILL) };
                        died.push((s.idx.load(SeqCst), "the code under test does not terminate".into()));
                        let mut st = 0;
                        unsafe { sys::waitpid(*pid, &mut st, 0) };
                        return false;
                    }
                }
                return true;
            }
            match sys::exited(st) {
                Some(0) if out.exists() => match std::fs::read(&*out) {
                    Ok(b) => merge(&mut m, &b),
                    Err(e) => m.engine_errors.push(format!("worker {shard}: {e}")),
                },
                other if s.in_sut.load(SeqCst) == 1 && s.engine.load(SeqCst) == 0 => {
                    let how = match other {
                        Some(c) => format!("the code under test ended the process with status {c}"),
                        None => format!("the code under test was ended by signal {}", sys::signal_of(st)),
                    };
                    died.push((s.idx.load(SeqCst), how));
                }
                other => {
                    let m2 = std::fs::read_to_string(out.with_file_name(format!("e{shard}"))).unwrap_or_default();
                    m.engine_errors.push(format!("worker {shard} ended with {other:?} {m2}"));
                }
            }
            false
        });
    }
    let _ = std::fs::remove_dir_all(&scratch);
    for (idx, how) in died {
        m.violations.push((idx, String::new(), how));
    }
    m.violations.sort();
    let wall = t0.elapsed().as_secs_f64();

    // evidence
    let ev = verif.join("evidence");
    let _ = std::fs::create_dir_all(ev.join("replays"));
    let exhaustive = m.violations.is_empty() && m.engine_errors.is_empty();
    let traces = m.traces;
    let states = m.states.len() as u64 + m.states_extra;
    let mut cov = String::new();
    if p.level == "fault_enumeration" {
        cov += &format!("\"evaluations\": {traces}, \"distinct_nontrivial\": {states}, \"rule\": {}, ",
            jstr("each case is one placement of splits, interruptions or an error in the I/O of one operation; distinct by (operation, placement), non-trivial when the placement is reached during the run"));
    } else {
        cov += &format!("\"states\": {states}, \"transitions\": {}, \"traces_validated_against_impl\": {traces}, ", m.transitions);
    }
    cov += &format!(
        "\"cases_enumerated\": {}, \"distinct_outcomes_observed\": {}, \"refusals_observed\": {}, \"exhaustive\": {exhaustive}, \"bounds\": {}, \"families\": {{{}}}, \"samples\": [{}]",
        m.cases,
        m.outcomes.len(),
        m.refused,
        jstr(&(p.bounds)(tier)),
        m.families.iter().map(|(k, v)| format!("{}: {v}", jstr(k))).collect::<Vec<_>>().join(", "),
        m.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ")
    );
    let json = format!(
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {},\n \"coverage\": {{{cov}}},\n \"assumptions\": [{}],\n \"wall_s\": {wall:.3}, \"violations\": {}\n}}\n",
        jstr(p.id),
        jstr(if tier == Tier::Quick { "quick" } else { "thorough" }),
        jstr(p.level),
        p.assumptions.iter().map(|a| jstr(a)).collect::<Vec<_>>().join(", "),
        m.violations.len()
    );
    if let Err(e) = std::fs::write(ev.join(format!("{}.json", p.id)), json) {
        m.engine_errors.push(format!("cannot write evidence: {e}"));
    }

    if let Some((idx, d, e)) = m.violations.first() {
        let tiern = if tier == Tier::Quick { "quick" } else { "thorough" };
        let path = ev.join("replays").join(format!("{}-{tiern}-{idx}.txt", p.id));
        // describe (and re-run) the case in a process of its own
        let again = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["replay", p.id, tiern, &idx.to_string()])
            .output();
        let transcript = again
            .map(|o| format!("{}{}", String::from_utf8_lossy(&o.stderr), String::from_utf8_lossy(&o.stdout)))
            .unwrap_or_default();
        let text = format!(
            "property: {}\ncase: {idx} ({tiern})\nwhat: {d}\nviolation: {e}\nreplay: /verif/run.sh replay {} {tiern} {idx}\n--- replay transcript ---\n{transcript}",
            p.id, p.id
        );
        let _ = std::fs::write(&path, &text);
        println!("{}", clip(&text, 4000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        return 1;
    }
    if !m.engine_errors.is_empty() {
        for e in &m.engine_errors {
            eprintln!("engine error: {e}");
        }
        return 2;
    }
    println!(
        "{}: held on all {} cases ({} states, {} transitions, {} executions compared, {} distinct outcomes, {} refusals) in {wall:.1} s",
        p.id, m.cases, states, m.transitions, traces, m.outcomes.len(), m.refused
    );
    0
}
