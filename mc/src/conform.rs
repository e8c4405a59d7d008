//! Conformance of the reference models with tools that are not the code under test
//! (tools/conform.sh; no check depends on this).
use crate::asmref::*;
use crate::macho;
use crate::props::asm::{a01_alphabet, a07_alphabet, data, image, link};
use crate::x86::{decode_whole, Ea, Effect, Val, R16, R32, R64};
use std::process::Command;

/// Every program over A01's alphabet, assembled by nasm (without optimisation), must mean what
/// the reference assembler says.
pub fn programs(depth: usize) {
    let dir = std::env::temp_dir().join(format!("mc-conform-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (src, obj) = (dir.join("p.asm"), dir.join("p.o"));
    let alpha: Vec<Line> = a01_alphabet()
        .into_iter()
        .filter(|l| !matches!(l.sem, Sem::Sym { width: 32, .. })) // no such relocation in nasm's macho64
        .chain([data(Some("y"), 1, &["\"abc\"", "7"]), data(None, 2, &["\"abcde\"", "4294967295"]), line("mov r9w, 513", set_imm(16, 9, 513)), line("mov rcx, 3 + 4", set_imm(64, 1, 7)), line("mov edx, 0x10 - 2", set_imm(32, 2, 14))])
        .collect();
    let (mut run, mut bad) = (0u64, 0u64);
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    while let Some(seq) = stack.pop() {
        if seq.len() < depth {
            for i in 0..alpha.len() {
                let mut s = seq.clone();
                s.push(i);
                stack.push(s);
            }
        }
        let first = label("zz"); // nasm writes no symbol table without symbols
        let ls: Vec<&Line> = std::iter::once(&first).chain(seq.iter().map(|&i| &alpha[i])).collect();
        let m = Model::of(ls.iter().copied());
        let dup = ["a", "b", "x", "y"].iter().any(|l| m.defines(l) > 1);
        // nasm wants exported names defined, and exported before their definition is no matter
        // of labels at one place, nasm relocates with any
        let same = m.secs.iter().any(|s| s.labels.windows(2).any(|l| l[0].1 == l[1].1)) && ls.iter().any(|l| matches!(l.sem, Sem::Sym { .. }));
        if same || seq.is_empty() || !m.valid() || dup || m.globals.iter().any(|g| m.defines(g) != 1) {
            continue;
        }
        std::fs::write(&src, text_of(ls)).unwrap();
        let st = Command::new("nasm").args(["-O0", "-w-all", "-f", "macho64", "-o"]).arg(&obj).arg(&src).status().unwrap();
        run += 1;
        let r = if !st.success() { Err("nasm refuses it".into()) } else { check(&m, &std::fs::read(&obj).unwrap()) };
        if let Err(e) = r {
            bad += 1;
            if bad < 20 {
                println!("DISAGREES {seq:?}: {e}\n{}", std::fs::read_to_string(&src).unwrap());
            }
        }
    }
    std::fs::remove_dir_all(&dir).unwrap();
    println!("{run} programs assembled by nasm, {bad} disagree with the reference assembler");
    std::process::exit((bad > 0) as i32);
}
fn check(m: &Model, b: &[u8]) -> Result<(), String> {
    let mut o = macho::parse(b)?;
    // nasm pads the file ranges of sections, not their sizes, and keeps sections without contents
    o.syms.retain(|y| !y.name.is_empty());
    m.check(&o).map(|_| ())
}

fn ea(e: &Ea) -> String {
    let mut t: Vec<String> = e.coef.iter().enumerate().filter(|c| *c.1 > 0).map(|(r, c)| format!("{}*{c}", R64[r])).collect();
    if e.rip {
        t.push("rip*1".into());
    }
    t.sort();
    format!("[{}+{:#x}]", t.join("+"), e.disp)
}
fn reg(w: u8, r: u8) -> String {
    match w {
        64 => R64[r as usize].into(),
        32 => R32[r as usize].into(),
        16 => R16[r as usize].into(),
        _ => format!("r8#{r}"),
    }
}
fn val(w: u8, v: &Val) -> String {
    match v {
        Val::Reg(r) => reg(w, *r),
        Val::Imm(x) => format!("{x:#x}"),
        Val::Ea(e) => format!("&{}", ea(e)),
        Val::Mem(e) => ea(e),
    }
}
fn show(e: &Effect) -> String {
    match e {
        Effect::Set { width, dst, val: v } => format!("set {} {}", reg(*width, *dst), val(*width, v)),
        Effect::Store { width, ea: e, val: v } => format!("store{width} {} {}", ea(e), val(*width, v)),
        Effect::Push { width, val: v } => format!("push{width} {}", val(*width, v)),
        Effect::Pop { width, dst } => format!("pop {}", reg(*width, *dst)),
        Effect::Ret => "ret".into(),
        Effect::Syscall => "syscall".into(),
    }
}
/// Prints byte strings and what the decoder says they mean: every instruction form it accepts
/// with every prefix, register and addressing byte.
pub fn encodings() {
    let tail = [0x80u8, 0xff, 0x7f, 0x12, 0x34, 0x56, 0x9a, 0xbc];
    let tail2 = [0x7fu8, 0, 0, 0x80, 1, 2, 3, 4];
    let mut emit = |head: &[u8]| {
        for t in [&tail, &tail2] {
            let mut b = head.to_vec();
            for n in 0..=8 {
                if let Ok(d) = decode_whole(&b) {
                    println!("{} {}", b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" "), show(&d.eff));
                    break;
                }
                if n < 8 {
                    b.push(t[n]);
                }
            }
        }
    };
    for pre in [vec![], vec![0x66u8]] {
        for rex in std::iter::once(None).chain((0x40..=0x4f).map(Some)) {
            // the prefixes are enumerated above; objdump shows further ones as instructions
            for op in (0..=255u8).filter(|o| !matches!(o, 0x40..=0x4f | 0x66)) {
                let mut h = pre.clone();
                h.extend(rex);
                h.push(op);
                emit(&h);
                for modrm in 0..=255u8 {
                    let mut h2 = h.clone();
                    h2.push(modrm);
                    if op == 0x0f {
                        emit(&h2);
                        continue;
                    }
                    if modrm >> 6 != 3 && modrm & 7 == 4 {
                        for sib in (0..=255u8).filter(|s| rex.map_or(true, |r| r % 4 == 3) || s % 5 == 0) {
                            let mut h3 = h2.clone();
                            h3.push(sib);
                            emit(&h3);
                        }
                    } else {
                        emit(&h2);
                    }
                }
            }
        }
    }
}

/// Every program over A07's alphabet with a symbolic operand, assembled by the code under test and
/// linked by lld into an executable, must hold what A07's linker says, at the addresses lld chose.
pub fn links(depth: usize, lld: &str) {
    let alpha = a07_alphabet();
    let mut todo: Vec<(Vec<usize>, Model)> = vec![];
    let mut stack: Vec<Vec<usize>> = vec![vec![]];
    let head = [global("_main"), label("_main"), db(None, &[0xc3])];
    while let Some(seq) = stack.pop() {
        if seq.len() < depth {
            for i in 0..alpha.len() {
                let mut s = seq.clone();
                s.push(i);
                stack.push(s);
            }
        }
        let m = Model::of(head.iter().chain(seq.iter().map(|&i| &alpha[i])));
        let uses = m.secs.iter().any(|s| s.pieces.iter().any(|p| matches!(p, Piece::Sym { .. })));
        if m.valid() && uses && ["a", "b", "ab"].iter().all(|l| m.defines(l) <= 1) {
            todo.push((seq, m));
        }
    }
    let n = todo.len();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let bad = std::sync::atomic::AtomicUsize::new(0);
    use std::sync::atomic::Ordering::SeqCst;
    std::thread::scope(|s| {
        for t in 0..8 {
            let (next, bad, todo, alpha, head) = (&next, &bad, &todo, &alpha, &head);
            s.spawn(move || {
                let dir = std::env::temp_dir().join(format!("mc-link-{}-{t}", std::process::id()));
                std::fs::create_dir_all(&dir).unwrap();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    let Some((seq, m)) = todo.get(i) else { break };
                    let text = text_of(head.iter().chain(seq.iter().map(|&i| &alpha[i])));
                    if let Err(e) = linked(&dir, lld, &text, m) {
                        if bad.fetch_add(1, SeqCst) < 10 {
                            println!("DISAGREES {seq:?}: {e}\n{text}");
                        }
                    }
                }
                std::fs::remove_dir_all(&dir).unwrap();
            });
        }
    });
    let bad = bad.into_inner();
    println!("{n} programs linked by lld, {bad} disagree with the linker model");
    std::process::exit((bad > 0) as i32);
}
fn linked(dir: &std::path::Path, lld: &str, text: &str, m: &Model) -> Result<(), String> {
    let bytes = assemble(text.as_bytes())?;
    let o = macho::read(&bytes)?;
    let lay = m.check(&o)?;
    let (obj, exe) = (dir.join("p.o"), dir.join("p"));
    std::fs::write(&obj, &bytes).unwrap();
    let r = Command::new(lld)
        .args(["-flavor", "darwin", "-arch", "x86_64", "-platform_version", "macos", "10.15", "10.15", "-no_pie", "-pagezero_size", "0x1000", "-e", "_main", "-o"])
        .arg(&exe)
        .arg(&obj)
        .output()
        .unwrap();
    if !r.status.success() {
        return Err(format!("lld refuses it: {}", String::from_utf8_lossy(&r.stderr)));
    }
    let b = std::fs::read(&exe).unwrap();
    let u32at = |i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
    let u64at = |i: usize| u64::from_le_bytes(b[i..i + 8].try_into().unwrap());
    let name = |i: usize| b[i..i + 16].split(|c| *c == 0).next().unwrap().to_vec();
    let mut at = 32;
    let mut bases = [0u64; 3];
    let mut found: [Option<Vec<u8>>; 3] = [None, None, None];
    let mut syms = vec![];
    for _ in 0..u32at(16) {
        match u32at(at) {
            0x19 => {
                for i in 0..u32at(at + 64) as usize {
                    let s = at + 72 + 80 * i;
                    let Some(k) = SECT.iter().position(|(a, g)| a.as_bytes() == name(s) && g.as_bytes() == name(s + 16)) else { continue };
                    bases[k] = u64at(s + 32);
                    let off = u32at(s + 48) as usize;
                    found[k] = Some(if k == BSS { vec![] } else { b[off..off + u64at(s + 40) as usize].to_vec() });
                }
            }
            2 => {
                let (symoff, nsyms, stroff) = (u32at(at + 8) as usize, u32at(at + 12) as usize, u32at(at + 16) as usize);
                for i in 0..nsyms {
                    let e = symoff + 16 * i;
                    let n = b[stroff + u32at(e) as usize..].split(|c| *c == 0).next().unwrap().to_vec();
                    syms.push((String::from_utf8(n).unwrap(), b[e + 4], u64at(e + 8)));
                }
            }
            _ => {}
        }
        at += u32at(at + 4) as usize;
    }
    // lld drops a section without bytes and places its labels at an address of their own
    for (l, k, off) in &lay.labels {
        let y: Vec<_> = syms.iter().filter(|y| y.0 == *l).collect();
        let [y] = y.as_slice() else { return Err(format!("{l} is {} times in the executable", y.len())) };
        if found[*k].is_none() {
            bases[*k] = y.2.wrapping_sub(*off);
        }
        if y.2 != bases[*k] + off {
            return Err(format!("lld places {l} at {:#x}, the section is at {:#x} and the offset {off:#x}", y.2, bases[*k]));
        }
        if (y.1 & 1 == 1) != m.globals.contains(l) {
            return Err(format!("{l} has type {:#x} in the executable", y.1));
        }
    }
    let img = image(&o, bases)?;
    for k in [TEXT, DATA] {
        let got = found[k].clone().unwrap_or_default();
        if got != img[k] {
            return Err(format!("{} is\n  {} by lld,\n  {} by the model, bases {bases:x?}", SECT[k].0, crate::fw::hex(&got), crate::fw::hex(&img[k])));
        }
    }
    link(&o, &lay, bases)
}
