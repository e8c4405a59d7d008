//! A11: every split, interruption and error of the I/O of every operation.
use super::asm::LANG;
use super::cli::{Box_, GOOD};
use super::mac;
use crate::asmref::assemble;
use crate::fw::*;
use crate::sys;
use at_asm::Assembler;
use at_obj::{Object, Reloc, Symbol};
use std::cell::Cell;
use std::io::{Error, ErrorKind, Read, Result as Io, Write};
use std::os::fd::AsRawFd;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A11",
        level: "fault_enumeration",
        run: a11,
        bounds: |t| format!("reading sources (200 bytes of every line kind, multi-byte characters and CRLF), reading every Mach-O structure and command in both byte orders, writing every structure, an object and an assembled program: every single and every pair of split points{}, every uniform chunk size, an interruption before every chunk of every chunk size, one or two interruptions at every point, 1..=130 and up to 65537 in a row, 24 kinds of errors and every error number of the system at every point alone and behind an interruption or a split, an output that accepts no more at every point; sources whose tokens, characters and line ends fall on every offset around the 8 KiB and 16 KiB boundaries with splits around them; the tool: every split point of its input, every size limit of its output, a full device, unreadable inputs", if t == Tier::Thorough { " and triple (of structures)" } else { "" }),
        assumptions: &[LANG, "an interruption is ErrorKind::Interrupted and is retried; any other error kind is a failure; a write that accepts 0 bytes means that the output accepts no more", "the size limit of a process stands for a full output medium"],
    }]
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Step {
    /// at most this many bytes
    Take(usize),
    Intr,
    Fail(ErrorKind),
    /// with an error number of the operating system
    Os(i32),
    /// a write that takes nothing
    Zero,
}
use Step::*;

/// Answers with the steps one by one, then freely, in chunks when `chunk` is set.
struct Dev<'a> {
    data: &'a [u8],
    out: Vec<u8>,
    steps: &'a [Step],
    at: usize,
    rest: usize,
    /// (size, interruption before every chunk)
    chunk: Option<(usize, bool)>,
    intr_next: bool,
    reached: &'a Cell<bool>,
}
impl<'a> Dev<'a> {
    fn new(data: &'a [u8], steps: &'a [Step], chunk: Option<(usize, bool)>, reached: &'a Cell<bool>) -> Self {
        reached.set(steps.is_empty());
        Dev { data, out: vec![], steps, at: 0, rest: 0, chunk, intr_next: true, reached }
    }
    fn allow(&mut self, n: usize) -> Io<usize> {
        if n == 0 {
            return Ok(0);
        }
        if self.rest == 0 {
            while let Some(s) = self.steps.get(self.at) {
                self.at += 1;
                if self.at == self.steps.len() {
                    self.reached.set(true);
                }
                match *s {
                    Take(0) => continue,
                    Take(k) => {
                        self.rest = k;
                        break;
                    }
                    Intr => return Err(Error::new(ErrorKind::Interrupted, "interrupted")),
                    Fail(k) => return Err(Error::new(k, "injected")),
                    Os(n) => return Err(Error::from_raw_os_error(n)),
                    Zero => return Ok(0),
                }
            }
        }
        if self.rest > 0 {
            let k = n.min(self.rest);
            self.rest -= k;
            return Ok(k);
        }
        match self.chunk {
            None => Ok(n),
            Some((c, intr)) => {
                if intr && self.intr_next {
                    self.intr_next = false;
                    return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
                }
                self.intr_next = true;
                Ok(n.min(c))
            }
        }
    }
}
impl Read for Dev<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Io<usize> {
        // a chunk never spans what is left
        let n = buf.len().min(self.data.len());
        if n == 0 {
            // the end of the data may be reported late or not at all
            while let Some(s) = self.steps.get(self.at) {
                self.at += 1;
                self.reached.set(self.at == self.steps.len());
                match *s {
                    Intr => return Err(Error::new(ErrorKind::Interrupted, "interrupted")),
                    Fail(k) => return Err(Error::new(k, "injected")),
                    Os(n) => return Err(Error::from_raw_os_error(n)),
                    _ => {}
                }
            }
            return Ok(0);
        }
        let k = self.allow(n)?;
        buf[..k].copy_from_slice(&self.data[..k]);
        self.data = &self.data[k..];
        Ok(k)
    }
}
impl Write for Dev<'_> {
    fn write(&mut self, buf: &[u8]) -> Io<usize> {
        let k = self.allow(buf.len())?;
        self.out.extend_from_slice(&buf[..k]);
        Ok(k)
    }
    fn flush(&mut self) -> Io<()> {
        Ok(())
    }
}

const KINDS: [ErrorKind; 24] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::WriteZero,
    ErrorKind::ConnectionReset,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::IsADirectory,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::StaleNetworkFileHandle,
];

/// One I/O operation: gives bytes that must not depend on how its I/O is answered.
struct Op<'a> {
    name: String,
    /// bytes that are read (for an operation that reads)
    input: Vec<u8>,
    reads: bool,
    /// also when the end of the input is a failure point
    to_end: bool,
    want: Vec<u8>,
    run: &'a dyn Fn(&mut Dev) -> Vec<u8>,
}

fn plan(w: &mut W, op: &Op, steps: &[Step], chunk: Option<(usize, bool)>) -> Result<(), String> {
    let reached = Cell::new(false);
    let what = || format!("{} with answers {steps:?}{}", op.name, chunk.map(|c| format!(", then chunks of {}{}", c.0, if c.1 { " each behind an interruption" } else { "" })).unwrap_or_default());
    w.note(what);
    w.transitions += 1;
    w.executed(1);
    let fails = steps.iter().any(|s| matches!(s, Fail(_) | Os(_) | Zero));
    if !fails {
        let got = sut(|| {
            let mut d = Dev::new(&op.input, steps, chunk, &reached);
            let r = (op.run)(&mut d);
            if op.reads { r } else { d.out }
        })
        .map_err(|m| format!("{} panicked: {m}", what()))?;
        if reached.get() {
            w.state(&(&op.name, steps, chunk));
        }
        w.outcome(&got);
        if got != op.want {
            return Err(format!("{} gives [{}], without it [{}]", what(), clip(&hex(&got), 400), clip(&hex(&op.want), 400)));
        }
        return Ok(());
    }
    let e = w.forked(|| {
        let mut d = Dev::new(&op.input, steps, chunk, &reached);
        (op.run)(&mut d);
        vec![reached.get() as u8]
    });
    match e.end {
        // the failing answer was never asked for
        End::Returned(v) if v == [0] => Ok(()),
        End::Returned(_) | End::Exited(0) => Err(format!("{}: the operation completes as if nothing had happened", what())),
        End::Killed(s) => Err(format!("{}: ended by signal {s}", what())),
        End::Exited(_) | End::Panicked(_) => {
            w.refused += 1;
            w.outcome(&("refused", &op.name, steps.last().map(|s| *s == Zero)));
            w.state(&(&op.name, steps, chunk));
            Ok(())
        }
    }
}

fn all_plans(w: &mut W, op: &Op, triples: bool) {
    let n = if op.reads { op.input.len() } else { op.want.len() };
    let nm = op.name.clone();
    w.case("unsplit", || nm.clone(), |w| plan(w, op, &[], None));
    w.case("chunk sizes", || format!("{nm}, every chunk size, with and without interruptions"), |w| {
        for c in 1..=n + 1 {
            plan(w, op, &[], Some((c, false)))?;
            plan(w, op, &[], Some((c, true)))?;
        }
        Ok(())
    });
    // interruptions in a row
    for place in 0..3usize {
        let a = [0, n / 2, n][place];
        for ch in (1usize..=130).chain([255, 256, 257, 999, 1000, 1001, 4096, 65537]).collect::<Vec<_>>().chunks(10) {
            w.case("interruptions in a row", || format!("{nm}, {ch:?} interruptions behind {a} of {n} bytes"), |w| {
                for &k in ch {
                    let mut steps = vec![Take(a)];
                    steps.resize(k + 1, Intr);
                    plan(w, op, &steps, None)?;
                    if k % 8 == 0 && k < 300 && (a < n || op.reads && op.to_end) {
                        steps.push(Fail(ErrorKind::Other));
                        plan(w, op, &steps, None)?;
                    }
                }
                Ok(())
            });
        }
    }
    for a in 0..=n {
        w.case("splits and interruptions", || format!("{nm}, first point {a} of {n}"), |w| {
            plan(w, op, &[Take(a), Intr], None)?;
            plan(w, op, &[Take(a), Intr, Intr, Intr], None)?;
            plan(w, op, &[Take(a), Intr], Some((1, false)))?;
            for b in 0..=n - a {
                if b > 0 && a > 0 {
                    plan(w, op, &[Take(a), Take(b)], None)?;
                }
                plan(w, op, &[Take(a), Intr, Take(b), Intr], None)?;
                if triples && a > 0 && b > 0 {
                    for c in 1..=n - a - b {
                        plan(w, op, &[Take(a), Take(b), Take(c)], None)?;
                    }
                }
            }
            Ok(())
        });
        if a == n && !(op.reads && op.to_end) {
            continue;
        }
        w.case("errors", || format!("{nm}, errors behind {a} of {n} bytes"), |w| {
            for k in KINDS {
                plan(w, op, &[Take(a), Fail(k)], None)?;
            }
            // every error number of the system but that of an interruption, some of them at every place
            for n in (1..=133).filter(|n| *n != 4 && (*n % 41 == a as i32 % 41 || a < 2)) {
                plan(w, op, &[Take(a), Os(n)], None)?;
            }
            for k in [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock] {
                plan(w, op, &[Take(a), Intr, Fail(k)], None)?;
                plan(w, op, &[Take(a / 2), Take(a - a / 2), Fail(k)], Some((1, false)))?;
                plan(w, op, &[Take(a), Fail(k), Fail(k)], None)?;
            }
            if !op.reads {
                plan(w, op, &[Take(a), Zero], None)?;
                plan(w, op, &[Take(a), Intr, Zero], None)?;
                plan(w, op, &[Take(a), Zero, Fail(ErrorKind::Other)], None)?;
                plan(w, op, &[Take(a), Zero, Zero, Zero, Zero], None)?;
            }
            Ok(())
        });
    }
}

const SRC: &str = "; commént\r\nglobal _m\nx db \"é;あ\", 1, 2\r\n\n_m: ;\"\nmov rdi, x\n\tmov eax,0x10 + 2\r\nsection .data\r\ny dq \"ab\", 7\nsection .text\nmov r8d, y ; 😀\npush rax\nsection .bss\nz:";

fn asm_from(d: &mut Dev) -> Vec<u8> {
    let mut a = Assembler::new();
    a.read_from(d);
    let mut o = vec![];
    a.write_into(&mut o);
    o
}

fn object() -> Object {
    let mut o = Object::new();
    o.sections.text.bytes = vec![1, 2, 3, 4, 5, 6, 7, 8, 9];
    o.sections.text.symbols = vec![Symbol::Ref { name: "_m".into(), addr: 1, ext: true }, Symbol::Undef { name: "u".into() }];
    o.sections.text.relocs = vec![Reloc { addr: 1, symbol: "d".into(), pcrel: false, len: 3 }];
    o.sections.data.bytes = vec![10, 11];
    o.sections.data.symbols = vec![Symbol::Abs { name: "d".into(), val: 77, ext: false }];
    o.sections.bss.size = 5;
    o.sections.bss.symbols = vec![Symbol::Ref { name: "b".into(), addr: 0, ext: false }];
    o
}

fn a11(w: &mut W) {
    let th = w.thorough();
    let plain = match assemble(SRC.as_bytes()) {
        Ok(b) => b,
        Err(e) => return w.case("unsplit", || SRC.into(), |_| Err(e.clone())),
    };
    // reading sources
    for (name, src) in [("assembling", SRC), ("assembling with a last line end", "ret\r\nx db \"é\"\n")] {
        let op = Op { name: name.into(), input: src.as_bytes().to_vec(), reads: true, to_end: true, want: assemble(src.as_bytes()).unwrap_or_default(), run: &asm_from };
        all_plans(w, &op, false);
    }
    // two sources one behind the other: the fault is in the second
    {
        let run = |d: &mut Dev| {
            let mut a = Assembler::new();
            a.read_from(&mut "q:\nglobal r\n".as_bytes()).read_from(d);
            let mut o = vec![];
            a.write_into(&mut o);
            o
        };
        let src = "r db \"é\", 1\r\nmov rax, q\n";
        let want = assemble(format!("q:\nglobal r\n{src}").as_bytes()).unwrap_or_default();
        let op = Op { name: "assembling a second piece".into(), input: src.as_bytes().to_vec(), reads: true, to_end: true, want, run: &run };
        all_plans(w, &op, false);
    }
    // writing objects
    {
        let run = |d: &mut Dev| {
            let mut a = Assembler::new();
            a.read_from(&mut SRC.as_bytes());
            a.write_into(d);
            vec![]
        };
        let op = Op { name: "emitting the assembled program".into(), input: vec![], reads: false, to_end: false, want: plain.clone(), run: &run };
        all_plans(w, &op, false);
        let run = |d: &mut Dev| {
            Assembler::new().write_into(d);
            vec![]
        };
        let op = Op { name: "emitting nothing assembled".into(), input: vec![], reads: false, to_end: false, want: assemble(b"").unwrap_or_default(), run: &run };
        all_plans(w, &op, false);
        let run = |d: &mut Dev| {
            at_obj::macho::write_into(&object(), d);
            vec![]
        };
        let want = sut(|| {
            let mut o = vec![];
            at_obj::macho::write_into(&object(), &mut o);
            o
        });
        let op = Op { name: "emitting an object".into(), input: vec![], reads: false, to_end: false, want: want.unwrap_or_default(), run: &run };
        all_plans(w, &op, false);
        // large sections: longer than any buffer in between
        let big = || {
            let mut o = object();
            o.sections.text.bytes = (0..20000u32).map(|i| i as u8).collect();
            o.sections.data.bytes = (0..9001u32).map(|i| (i >> 3) as u8).collect();
            o
        };
        let run = |d: &mut Dev| {
            at_obj::macho::write_into(&big(), d);
            vec![]
        };
        let want = sut(|| {
            let mut o = vec![];
            at_obj::macho::write_into(&big(), &mut o);
            o
        })
        .unwrap_or_default();
        let n = want.len();
        let op = Op { name: "emitting a large object".into(), input: vec![], reads: false, to_end: false, want, run: &run };
        let near: Vec<usize> = (0..n).filter(|p| p % 4096 < 3 || p % 4096 > 4093 || p % 97 == 0 || *p > n - 120).collect();
        for ch in near.chunks(8) {
            w.case("large object", || format!("splits and errors behind {}.. of {n} bytes", ch[0]), |w| {
                for &p in ch {
                    w.beat();
                    plan(w, &op, &[Take(p), Intr], None)?;
                    plan(w, &op, &[Take(p), Take(1)], None)?;
                    for s in [Fail(ErrorKind::Other), Fail(ErrorKind::BrokenPipe), Fail(ErrorKind::WouldBlock), Zero] {
                        plan(w, &op, &[Take(p), s], None)?;
                    }
                }
                Ok(())
            });
        }
        for c in [1usize, 7, 100, 511, 512, 4095, 4096, 4097, 8191, 8192, 8193] {
            w.case("large object", || format!("chunks of {c}"), |w| {
                plan(w, &op, &[], Some((c, false)))?;
                plan(w, &op, &[], Some((c, true)))
            });
        }
    }
    // structures
    for (name, want, f) in mac::sample_writers() {
        let run = move |d: &mut Dev| {
            f(d);
            vec![]
        };
        let op = Op { name: format!("writing {name}"), input: vec![], reads: false, to_end: false, want, run: &run };
        all_plans(w, &op, th);
    }
    match mac::sample_readers() {
        Err(e) => w.case("unsplit", || "readers".into(), |_| Err(e.clone())),
        Ok(rs) => {
            for (name, bytes, f) in rs {
                let run = move |d: &mut Dev| f(d);
                let op = Op { name: format!("reading {name}"), input: bytes.clone(), reads: true, to_end: false, want: bytes, run: &run };
                all_plans(w, &op, th);
            }
        }
    }
    // the boundaries of the reader's own buffer
    for around in [8192usize, 16384] {
        for off in 0..SRC.len() + 4 {
            w.case("buffer boundaries", || format!("the source begins {off} bytes before offset {around}"), |w| {
                // filler before the source that means nothing
                let mut src = String::new();
                let fill = around - off.min(around);
                while src.len() + 40 < fill {
                    src.push_str(&";".repeat(39));
                    src.push('\n');
                }
                while src.len() + 1 < fill {
                    src.push(' ');
                }
                if src.len() < fill {
                    src.push('\n');
                }
                src.push_str(SRC);
                let input = src.into_bytes();
                let op = Op { name: format!("assembling across {around}, offset {off}"), input: input.clone(), reads: true, to_end: true, want: plain.clone(), run: &asm_from };
                plan(w, &op, &[], None)?;
                for p in [around - 2, around - 1, around, around + 1, around + 2, fill, fill + 1, fill + off / 2] {
                    if p < input.len() {
                        plan(w, &op, &[Take(p), Intr], None)?;
                        plan(w, &op, &[Take(p), Take(1), Intr], None)?;
                    }
                }
                for c in [1usize, 3, 1000, 8191, 8192, 8193] {
                    plan(w, &op, &[], Some((c, false)))?;
                }
                if off % 8 == 0 {
                    for p in [around - 1, around, around + 1] {
                        if p < input.len() {
                            plan(w, &op, &[Take(p), Fail(ErrorKind::Other)], None)?;
                            plan(w, &op, &[Take(p), Fail(ErrorKind::UnexpectedEof)], None)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    tool(w);
}

fn tool(w: &mut W) {
    let mut b = Box_::new(w);
    let src = GOOD[3];
    let Ok(object) = assemble(src.as_bytes()) else { return };
    let n = object.len();
    let args = |v: &[&str]| -> Vec<String> { v.iter().map(|s| s.to_string()).collect() };
    // every size limit of the output
    for lim in 0..=n + 1 {
        w.case("tool: output limits", || format!("the output may have {lim} of {n} bytes"), |w| {
            for ignore in [false, true] {
                let d = b.dir();
                b.file(&d.join("a.asm"), src.as_bytes());
                w.transitions += 1;
                w.executed(1);
                w.state(&("limit", lim, ignore));
                let (st, msg) = b.run(&d, &args(&["a.asm", "-o", "x.o"]), Some((lim as u64, ignore)));
                let got = std::fs::read(d.join("x.o")).unwrap_or_default();
                std::fs::remove_dir_all(&d).expect("cleaning up");
                if lim < n && st == Ok(0) {
                    return Err(format!("ends with status 0, but its output has {} bytes of {n}", got.len()));
                }
                if lim >= n && (st != Ok(0) || got != object) {
                    return Err(format!("ends with {st:?} {} and {} bytes of output", clip(&msg, 200), got.len()));
                }
            }
            Ok(())
        });
    }
    // outputs and inputs that fail
    for (k, what) in [(0, "a full device as output"), (1, "a directory as input"), (2, "an input whose first read fails")] {
        w.case("tool: failing devices", || what.into(), |w| {
            let d = b.dir();
            b.file(&d.join("a.asm"), src.as_bytes());
            let a = match k {
                0 => args(&["a.asm", "-o", "/dev/full"]),
                1 => args(&[".", "-o", "x.o"]),
                _ => args(&["/proc/self/mem", "-o", "x.o"]),
            };
            w.state(what);
            w.transitions += 1;
            let (st, msg) = b.run(&d, &a, None);
            let there = d.join("x.o").exists();
            std::fs::remove_dir_all(&d).expect("cleaning up");
            if st == Ok(0) {
                return Err(format!("at-asm {a:?} ends with status 0 {}", clip(&msg, 200)));
            }
            if there {
                return Err(format!("at-asm {a:?} fails, but leaves an output"));
            }
            Ok(())
        });
    }
    // an input that arrives in two parts
    for p in 0..=src.len() {
        w.case("tool: split input", || format!("the input arrives in two parts, split behind {p} bytes"), |w| {
            let d = b.dir();
            let fifo = d.join("in.asm");
            if !sys::make_fifo(&fifo) {
                panic!("mkfifo failed");
            }
            b.own(&fifo);
            // opened for reading as well, so that neither side waits for the other
            let mut f = std::fs::OpenOptions::new().read(true).write(true).open(&fifo).expect("fifo");
            let mut child = b.command(&d, &args(&["in.asm", "-o", "x.o"]), None).spawn().expect("running the tool");
            w.state(&("split", p));
            w.transitions += 1;
            for part in [&src[..p], &src[p..]] {
                f.write_all(part.as_bytes()).expect("fifo");
                // until it is read, or nobody is left to read it
                while sys::unread(f.as_raw_fd()) > 0 && child.try_wait().expect("wait").is_none() {
                    std::thread::sleep(std::time::Duration::from_micros(200));
                }
            }
            // the tool may not have opened it when nothing was to be read
            if src.is_empty() {
                std::thread::sleep(std::time::Duration::from_millis(50));
            }
            drop(f);
            let st = child.wait().expect("wait");
            let got = std::fs::read(d.join("x.o")).unwrap_or_default();
            std::fs::remove_dir_all(&d).expect("cleaning up");
            if !st.success() || got != object {
                return Err(format!("ends with {st} and {} bytes of output, should be {n}", got.len()));
            }
            Ok(())
        });
    }
}
