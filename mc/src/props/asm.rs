//! A01..A05, A07, A08: what accepted programs mean.
use crate::asmref::*;
use crate::fw::*;
use crate::macho::{self, Obj};
use at_asm::Assembler;
use crate::x86::{alphabet, decode_whole, Effect, Val, R16, R32, R64};

pub const LANG: &str = "the reference assembler (mc/src/asmref.rs) states the language: sections, labels, exports, db/dw/dd/dq, mov, push, ret, syscall; no label is defined twice";

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "A01",
            level: "model_checking",
            run: a01,
            bounds: |t| format!("every program of up to {} lines over 14 lines (3 section switches, 2 labels, 2 exports, 2 data lines, push, 2 symbolic movs, register mov, syscall; no duplicate label, no undefined reference, no bytes in bss) and every prefix of it; every sequence of up to {} section visits with 3 kinds of content and references to all labels; labels and symbolic operands behind every amount of bytes around powers of two up to 2^16 and 2^20; label counts up to 5000 in 8 arrangements; each of 17 lines repeated up to 32768 times; up to 70000 section switches in 6 patterns; a symbolic operand at 2^31 - 1 and at 2^31 + 2; labels and operands behind 2^17 to 2^28 and close to 2^31 bytes, in all sections; {} beginning of long programs (up to 5000 lines) in which 16 kinds of lines follow one another in every order of two and of three", if t == Tier::Thorough { 7 } else { 6 }, if t == Tier::Thorough { 6 } else { 5 }, if t == Tier::Thorough { "every" } else { "every (of three: every third)" }),
            assumptions: &[LANG, "the independent decoder and Mach-O reader"],
        },
        Prop {
            id: "A02",
            level: "model_checking",
            run: a02,
            bounds: |t| format!("mov: every pair of registers of each width, every register with every boundary value of its width in decimal and hexadecimal, and two of each width with every value up to 65535 (16 bits) or 70000{}; push: every 64-bit register, every value 0..=70000 and every boundary value below 2^32; ret, syscall; each line alone and inside one program of all lines", if t == Tier::Thorough { " and every 16-bit value for every 16-bit register" } else { "" }),
            assumptions: &[LANG, "the independent decoder"],
        },
        Prop {
            id: "A03",
            level: "model_checking",
            run: a03,
            bounds: |t| format!("every string of up to {} characters over 0 1 9 a f g x + - blank as operand of mov to a 64-bit register, push, db and dq; every sequence of up to {} out of 13 operands, signs and strays as operand of mov and push; zeros before the digits of fitting and overflowing numbers; all boundary values of all widths in 6 spellings in all 8 contexts, and as item of a data list next to numbers and strings; up to 65537 leading zeros, and 2^64 to 2^1024 and little more, in all contexts; every sum and difference of pairs of boundary values into registers of all widths; every printable character and 83 affixes known from other languages at every place of 11 numbers in 11 contexts; lists of malformed numbers and expressions in all contexts", if t == Tier::Thorough { 5 } else { 4 }, if t == Tier::Thorough { 5 } else { 4 }),
            assumptions: &[LANG, "forms the language does not settle (leading + or - sign, 0X, expressions outside mov, blanks missing around operators) must be refused or have their exact value"],
        },
        Prop {
            id: "A04",
            level: "model_checking",
            run: a04,
            bounds: |t| format!("lists over 4 kinds of item up to 7 items long; one item repeated; every character of Unicode; every list of up to {} items over 16 items x 4 directives x labelled or not; every string length 0..=300 and around 2^12, 2^13 and 2^16 x 4 directives; every pair of strings of up to 40 bytes, every pair of ASCII characters, 1..=300 and up to 65537 items in a line; every string of up to 4 characters over 9 special characters; every ASCII character and {} alone and between others", if t == Tier::Thorough { 4 } else { 3 }, if t == Tier::Thorough { "every Unicode character" } else { "every 37th Unicode character" }),
            assumptions: &[LANG, "a carriage return is a line end, no other control character is"],
        },
        Prop {
            id: "A05",
            level: "model_checking",
            run: a05,
            bounds: |t| format!("words with a meaning to other assemblers, editors and tools in comments; a program with every kind of line; every single deviation and pair{} of deviations at its layout sites (indent, gaps, around commas, trailing blanks, comments, line ends, inserted lines), every uniform combination of layouts, every line as the last line with every ending; every character up to U+024F in comments and in strings before comments and blanks, comments of 5 kinds everywhere; 1..=300 and up to 70000 blanks, tabs, comment characters and inserted lines at every place; a long program in which 16 kinds of lines follow one another, with each of 10 layouts before and another from each line on, and on each line alone", if t == Tier::Thorough { " and triple" } else { "" }),
            assumptions: &[LANG, "blanks are spaces, tabs and form feeds; operators of an expression are separate tokens"],
        },
        Prop {
            id: "A07",
            level: "model_checking",
            run: a07,
            bounds: |t| format!("register-like names; many names alike; every program of up to {} lines over 13 lines with symbolic movs; every 64- and 32-bit register x label in each section before or after the use; every pair of similar label names; symbol counts up to 600; every accepted name character; names that contain a word of the language; every name of up to 2 characters and 157 prefixes, suffixes and infixes with a meaning to tools, next to all names they begin and end with; pairs of labels that differ in one place or in length, at every length up to {} and around powers of two up to 65537; long programs in which 16 kinds of lines follow one another in every order of two and of three, and beginnings of them; each linked at 6 base address assignments", if t == Tier::Thorough { 6 } else { 5 }, if t == Tier::Thorough { 1100 } else { 300 }),
            assumptions: &[LANG, "linking adds each relocation's symbol address to the bytes in place, as the Mach-O x86-64 unsigned relocation does; 32-bit uses are linked below 2^32"],
        },
        Prop {
            id: "A08",
            level: "model_checking",
            run: a08,
            bounds: |t| format!("register-like names; many names alike; every program of up to {} lines over 12 lines (section switches, 4 labels with common prefixes, 4 exports, data label, ret); every subset of 8 labels exported before, after or around; every name of up to 2 characters and 157 prefixes, suffixes and infixes with a meaning to tools, next to all names they begin and end with, in 4 sets of exports; up to 2500 exports; pairs of labels that differ in one place or in length, at every length up to {} and around powers of two up to 65537, with every set of exports before and after", if t == Tier::Thorough { 7 } else { 6 }, if t == Tier::Thorough { 1100 } else { 300 }),
            assumptions: &[LANG],
        },
    ]
}

pub fn show(src: &str) -> String {
    format!("program {:?}", clip(src, 600))
}

/// Assembles a valid program and compares the object with the model.
pub fn conform(w: &mut W, src: &str, m: &Model) -> Result<(Vec<u8>, Obj, Layout), String> {
    w.note(|| show(src));
    w.transitions += 1;
    let out = assemble(src.as_bytes()).map_err(|e| format!("{e}\n  {}", show(src)))?;
    let o = macho::read(&out).map_err(|e| format!("{e}\n  {}", show(src)))?;
    let l = m.check(&o).map_err(|e| format!("{e}\n  {}", show(src)))?;
    w.outcome(&out);
    Ok((out, o, l))
}

/// All line sequences over `alpha` of length `1..=depth`; `f` gets every one whose model is
/// valid. Cases are the prefixes of length `split`.
pub fn programs(
    w: &mut W,
    fam: &str,
    alpha: &[Line],
    depth: usize,
    split: usize,
    f: &dyn Fn(&mut W, &str, &Model, &[usize]) -> Result<(), String>,
) {
    fn admissible(m: &Model, s: &Sem) -> bool {
        let dup = |l: &str| m.defines(l) > 0;
        match s {
            Sem::Label(l) => !dup(l),
            Sem::Data(Some(l), _) if dup(l) => false,
            Sem::Data(..) | Sem::Insn(_) | Sem::Sym { .. } => m.cur != BSS,
            _ => true,
        }
    }
    fn go(
        w: &mut W,
        alpha: &[Line],
        left: usize,
        text: &mut String,
        m: &Model,
        seq: &mut Vec<usize>,
        f: &dyn Fn(&mut W, &str, &Model, &[usize]) -> Result<(), String>,
    ) -> Result<(), String> {
        w.state(m);
        if m.valid() {
            f(w, text, m, seq)?;
            w.executed(1);
        }
        if left == 0 {
            return Ok(());
        }
        for (i, l) in alpha.iter().enumerate() {
            if !admissible(m, &l.sem) {
                continue;
            }
            let mut m2 = m.clone();
            m2.feed(&l.sem);
            let n = text.len();
            text.push_str(&l.text);
            text.push('\n');
            seq.push(i);
            go(w, alpha, left - 1, text, &m2, seq, f)?;
            seq.pop();
            text.truncate(n);
        }
        Ok(())
    }
    // prefixes shorter than `split` on their own, then one case per prefix of that length
    fn pre(
        w: &mut W,
        fam: &str,
        alpha: &[Line],
        depth: usize,
        split: usize,
        text: &mut String,
        m: &Model,
        seq: &mut Vec<usize>,
        f: &dyn Fn(&mut W, &str, &Model, &[usize]) -> Result<(), String>,
    ) {
        let leaf = seq.len() == split;
        let t = text.clone();
        w.case(
            fam,
            || format!("program {:?}{}", t, if leaf { format!(" and all its extensions by up to {} lines", depth - split) } else { String::new() }),
            |w| {
                let mut text = t.clone();
                let mut s = seq.clone();
                go(w, alpha, if leaf { depth - split } else { 0 }, &mut text, m, &mut s, f)
            },
        );
        if leaf {
            return;
        }
        for (i, l) in alpha.iter().enumerate() {
            if !admissible(m, &l.sem) {
                continue;
            }
            let mut m2 = m.clone();
            m2.feed(&l.sem);
            let n = text.len();
            text.push_str(&l.text);
            text.push('\n');
            seq.push(i);
            pre(w, fam, alpha, depth, split, text, &m2, seq, f);
            seq.pop();
            text.truncate(n);
        }
    }
    pre(w, fam, alpha, depth, split.min(depth), &mut String::new(), &Model::default(), &mut vec![], f);
}

pub fn push_imm(v: u64) -> Line {
    line(&format!("push {v}"), Sem::Insn(Effect::Push { width: 64, val: Val::Imm(v) }))
}
pub fn data(l: Option<&str>, width: usize, items: &[&str]) -> Line {
    // items are decimal numbers or quoted strings
    let n = 1 << width;
    let mut b = vec![];
    for i in items {
        if let Some(s) = i.strip_prefix('"') {
            b.extend_from_slice(s[..s.len() - 1].as_bytes());
            while b.len() % n != 0 {
                b.push(0);
            }
        } else {
            let v: u64 = i.parse().unwrap();
            b.extend_from_slice(&v.to_le_bytes()[..n]);
        }
    }
    let d = ["db", "dw", "dd", "dq"][width];
    line(&format!("{}{d} {}", l.map(|l| format!("{l} ")).unwrap_or_default(), items.join(", ")), Sem::Data(l.map(|s| s.into()), b))
}
pub fn insns() -> Vec<Line> {
    vec![
        line("mov rax, rbx", set_reg(64, 0, 3)),
        line("mov ecx, r9d", set_reg(32, 1, 9)),
        line("mov r10w, dx", set_reg(16, 10, 2)),
        line("mov r11, 0x123456789abcdef0", set_imm(64, 11, 0x1234_5678_9abc_def0)),
        line("mov esi, 77", set_imm(32, 6, 77)),
        line("mov bp, 513", set_imm(16, 5, 513)),
        line("push r12", Sem::Insn(Effect::Push { width: 64, val: Val::Reg(12) })),
        push_imm(5),
        push_imm(300),
        line("ret", Sem::Insn(Effect::Ret)),
        line("syscall", Sem::Insn(Effect::Syscall)),
    ]
}

// ---------------------------------------------------------------- A01
pub fn a01_alphabet() -> Vec<Line> {
    vec![
        section(TEXT),
        section(DATA),
        section(BSS),
        label("a"),
        label("b"),
        global("a"),
        global("b"),
        db(Some("x"), &[1, 2]),
        data(None, 3, &["\"abc\""]),
        push_imm(5),
        movsym(64, 7, "a"),
        movsym(32, 8, "b"),
        line("mov ecx, edx", set_reg(32, 1, 2)),
        line("syscall", Sem::Insn(Effect::Syscall)),
    ]
}

/// A sequence over 0..k in which every word of n letters occurs (de Bruijn, opened).
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn go(k: usize, n: usize, t: usize, p: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        go(k, n, t + 1, p, a, out);
        for j in a[t - p] + 1..k {
            a[t] = j;
            go(k, n, t + 1, t, a, out);
        }
    }
    let mut out = vec![];
    go(k, n, 1, 1, &mut vec![0; k * n + 1], &mut out);
    let head: Vec<usize> = out[..n - 1].to_vec();
    out.extend(head);
    out
}

/// A long program in which kinds of lines follow one another in every order of `n` lines.
/// `ahead`: symbolic operands and exports also name labels that come later.
pub fn mixed(n: usize, ahead: bool) -> Vec<Line> {
    let kinds = 16usize;
    let seq = de_bruijn(kinds, n);
    // the labels come in the order of their numbers
    let total = seq.iter().filter(|x| **x == 3 || **x == 4).count();
    let (mut ls, mut cur, mut made, mut k) = (vec![label("first")], TEXT, 0usize, 0usize);
    for x in seq {
        if cur == BSS && ![0, 1, 2, 3, 11, 12, 13].contains(&x) {
            cur = k % 2;
            ls.push(section(cur));
        }
        k += 1;
        let some = |k: usize| -> String {
            let far = [1usize, 2, 3, 7, 40, 300][k % 6];
            match (ahead && k % 3 == 0, made) {
                (true, _) if made + far <= total => format!("l{}", made + far),
                (_, m) if m >= far => format!("l{}", m + 1 - far),
                _ => "first".into(),
            }
        };
        let fresh = format!("l{}", made + 1);
        ls.push(match x {
            0..=2 => {
                cur = x;
                section(x)
            }
            3 => {
                made += 1;
                label(&fresh)
            }
            4 => {
                made += 1;
                data(Some(&fresh), k % 4, &["1", "\"ab\"", "77"])
            }
            5 => data(None, 0, &["\"; odd\""]),
            6 => data(None, (k + 1) % 4, &["3", "9"]),
            7 => push_imm([5u64, 300, 70000][k % 3]),
            8 => movsym(64, k % 16, &some(k)),
            9 => movsym(32, k % 16, &some(k / 2)),
            10 => insns()[k % 11].clone(),
            11 => global(&some(k / 3)),
            12 => line(["", "; l1:", "\t", " ; x db 1", "\r"][k % 5], Sem::Nop),
            13 => global(&format!("u{}", k % 5)),
            14 => line("ret", Sem::Insn(Effect::Ret)),
            _ => line("mov rax, rbx", set_reg(64, 0, 3)),
        });
    }
    ls
}

/// The program with the labels added that it names and does not define.
pub fn closed(mut p: Vec<Line>) -> Vec<Line> {
    let m = Model::of(&p);
    let known: std::collections::BTreeSet<&String> = m.secs.iter().flat_map(|s| &s.labels).map(|l| &l.0).collect();
    let mut open: Vec<&String> = m.secs.iter().flat_map(|s| &s.pieces).filter_map(|p| if let Piece::Sym { sym, .. } = p { Some(sym) } else { None }).collect();
    open.sort();
    open.dedup();
    open.retain(|o| !known.contains(o));
    p.extend(open.into_iter().map(|o| label(o)));
    p
}

fn a01(w: &mut W) {
    let th = w.thorough();
    for place in [(1 << 31) - 1, (1 << 31) + 2] {
        w.case("far operands", || format!("a symbolic operand at {place:#x}"), |w| far_operand(w, place, TEXT, false));
        if th {
            w.case("far operands", || format!("a symbolic operand at {place:#x} of the data section"), |w| far_operand(w, place, DATA, true));
        }
    }
    for bit in 17..=28 {
        for d in [-8i64, -1, 0, 1, 2, 3] {
            if bit > 24 && d != 0 {
                continue;
            }
            let place = ((1i64 << bit) + d) as u64;
            for (s, bss) in [(TEXT, false), (DATA, false), (TEXT, true), (DATA, true)] {
                w.case("far operands", || format!("a symbolic operand at {place:#x} in {}, its label behind or in .bss ({bss})", SECT[s].0), |w| far_operand(w, place, s, bss));
            }
        }
    }
    let alpha = a01_alphabet();
    programs(w, "programs", &alpha, if th { 7 } else { 6 }, 3, &|w, t, m, _| conform(w, t, m).map(|_| ()));

    // section visits: each leaves a label and some content, all labels are used in the end
    let visits = if th { 6 } else { 5 };
    // (section, content)
    let mut kinds = vec![];
    for c in 0..3 {
        kinds.push((TEXT, c));
        kinds.push((DATA, c));
    }
    kinds.push((BSS, 0));
    for n in 1..=visits {
        for x in 0..kinds.len().pow(n as u32) {
            let mk = || {
                let mut x = x;
                let mut ls = vec![];
                for i in 0..n {
                    let (s, c) = kinds[x % kinds.len()];
                    x /= kinds.len();
                    // the initial section is code
                    if !(i == 0 && s == TEXT && c == 0) {
                        ls.push(section(s));
                    }
                    let nm = format!("v{i}");
                    match (s, c) {
                        (BSS, _) => ls.push(label(&nm)),
                        (_, 0) => {
                            ls.push(label(&nm));
                            ls.push(line("ret", Sem::Insn(Effect::Ret)));
                        }
                        (_, 1) => {
                            ls.push(data(Some(&nm), 0, &["1", "2", "3"]));
                            ls.push(movsym(64, i, "v0"));
                        }
                        _ => {
                            ls.push(movsym(32, 15 - i, &format!("v{}", n - 1)));
                            ls.push(data(Some(&nm), 2, &["\"hello\"", "7"]));
                            ls.push(label(&format!("w{i}")));
                        }
                    }
                    if i % 2 == 0 {
                        ls.push(global(&nm));
                    }
                }
                ls.push(section(TEXT));
                for i in 0..n {
                    ls.push(movsym(64, 8 + i, &format!("v{i}")));
                }
                ls
            };
            w.case("section visits", || show(&text_of(&mk())), |w| {
                let ls = mk();
                let m = Model::of(&ls);
                w.state(&m);
                conform(w, &text_of(&ls), &m).map(|_| ())
            });
        }
    }
    // distances
    let mut sizes: Vec<usize> = (0..=40).collect();
    for b in 6..=16 {
        for d in -1i64..=1 {
            sizes.push(((1i64 << b) + d) as usize);
        }
    }
    sizes.extend([(1 << 20) - 1, 1 << 20]);
    for &n in &sizes {
        for s in [TEXT, DATA] {
            for many in [false, true] {
                let mk = || {
                    let mut ls = vec![section(s)];
                    if many {
                        // one line per four bytes
                        for i in 0..n / 4 {
                            ls.push(data(None, 2, &[&i.to_string()]));
                        }
                        if n % 4 > 0 {
                            ls.push(db(None, &vec![0xcc; n % 4]));
                        }
                    } else if n > 0 {
                        ls.push(data(None, 0, &[&format!("\"{}\"", "m".repeat(n))]));
                    }
                    ls.push(label("p"));
                    ls.push(movsym(64, 1, "q"));
                    ls.push(movsym(32, 9, "p"));
                    ls.push(label("q"));
                    ls.push(section(TEXT));
                    ls.push(label("r"));
                    ls.push(movsym(64, 3, "q"));
                    ls.push(section(BSS));
                    ls.push(label("z"));
                    ls
                };
                w.case("distances", || format!("{n} bytes in {} lines before labels and symbolic operands in {}", if many { n / 4 } else { 1 }, SECT[s].0), |w| {
                    let ls = mk();
                    let m = Model::of(&ls);
                    w.state(&m);
                    conform(w, &text_of(&ls), &m).map(|_| ())
                });
            }
        }
    }
    for n in [2usize, 15, 16, 17, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000] {
        for p in 0..8 {
            if n > 2048 && p > 4 && !th {
                continue;
            }
            let mk = || {
                let mut ls = vec![];
                // patterns 4 to 7: data lines, bare labels in one section, exports
                if p >= 4 {
                    ls.push(section([DATA, DATA, BSS, TEXT][p - 4]));
                    for i in 0..n {
                        match p {
                            4 => ls.push(data(Some(&format!("l{i}")), i % 4, &["1", "200"])),
                            7 => {
                                ls.push(global(&format!("l{}", n - 1 - i)));
                                ls.push(label(&format!("l{i}")));
                                ls.push(line("ret", Sem::Insn(Effect::Ret)));
                            }
                            _ => ls.push(label(&format!("l{i}"))),
                        }
                    }
                    ls.push(section(DATA));
                    for i in [0, n / 2, n - 1] {
                        ls.push(movsym(64, 3, &format!("l{i}")));
                    }
                    return ls;
                }
                for i in 0..n {
                    if p == 1 {
                        ls.push(section(i % 3));
                    }
                    ls.push(label(&format!("l{i}")));
                    if p != 1 || i % 3 != 2 {
                        if p == 2 {
                            ls.push(movsym(64, i % 16, &format!("l{}", n - 1 - i)));
                        } else {
                            ls.push(insns()[i % 11].clone());
                        }
                    }
                    if p == 3 {
                        ls.push(movsym(32, i % 16, &format!("l{}", i / 2)));
                    }
                }
                ls
            };
            w.case("label counts", || format!("{n} labels, pattern {p}"), |w| {
                let ls = mk();
                let m = Model::of(&ls);
                w.state(&m);
                conform(w, &text_of(&ls), &m).map(|_| ())
            });
        }
    }
    // long programs in which all kinds of lines follow one another in every order, every
    // beginning of them
    for (n, ahead, step) in [(2usize, false, 1usize), (2, true, 1), (3, false, if th { 1 } else { 3 }), (3, true, if th { 1 } else { 3 })] {
        let ls = mixed(n, ahead);
        let per = 24;
        for lo in (1..=ls.len()).step_by(per * step) {
            w.case("mixed programs", || format!("every {step}. beginning from {lo} lines on of a program in which every {n} kinds of lines follow one another, labels ahead: {ahead}"), |w| {
                for to in (lo..lo + per * step).step_by(step).chain([ls.len()]).filter(|&t| t <= ls.len() && (t < ls.len() || lo + per * step > ls.len())) {
                    let p = closed(ls[..to].to_vec());
                    let m = Model::of(&p);
                    w.state(&(n, ahead, to));
                    w.executed(1);
                    conform(w, &text_of(&p), &m)?;
                }
                Ok(())
            });
        }
    }
    // how often a line stands, a section is switched, an operand is symbolic
    let counts = |max: usize| (1usize..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 70000]).filter(move |&n| n <= max);
    for n in counts(if th { 70000 } else { 33000 }) {
        for (k, l) in insns().into_iter().chain([db(None, &[7]), db(None, &[1, 2, 3]), section(DATA), global("t"), movsym(64, 9, "t"), movsym(32, 1, "t")]).enumerate() {
            w.case("repeated lines", || format!("{:?} {n} times", l.text), |w| {
                let mut ls = vec![label("t")];
                ls.extend(vec![l.clone(); n]);
                ls.extend([label("u"), section(if k % 2 == 0 { DATA } else { TEXT }), db(Some("v"), &[1]), movsym(64, 3, "v"), movsym(64, 4, "u")]);
                let m = Model::of(&ls);
                w.state(&(n, k));
                conform(w, &text_of(&ls), &m).map(|_| ())
            });
        }
    }
    for n in counts(70000) {
        for p in 0..6usize {
            w.case("switch counts", || format!("{n} visits of sections, pattern {p}"), |w| {
                let mut ls = vec![global("e")];
                for i in 0..n {
                    let to = [i % 2, i % 3, (i / 2) % 3, (i * i) % 3, 1 - i % 2, [TEXT, TEXT, DATA, BSS][i % 4]][p];
                    ls.push(section(to));
                    match (p + i) % 5 {
                        _ if to == BSS => {}
                        0 => ls.push(push_imm(i as u64 % 1000)),
                        1 => ls.push(db(None, &[i as u8])),
                        2 => {}
                        3 => ls.push(movsym(if i % 2 == 0 { 64 } else { 32 }, i % 16, ["e", "f"][i / 4 % 2])),
                        _ => ls.push(db(None, &[1, i as u8, 3])),
                    }
                    if i == n / 2 {
                        ls.push(label("f"));
                    }
                }
                ls.extend([section(p % 3), label("e"), section(TEXT), movsym(64, 3, "e")]);
                let m = Model::of(&ls);
                w.state(&(n, p));
                conform(w, &text_of(&ls), &m).map(|_| ())
            });
        }
    }
}

// ---------------------------------------------------------------- A02
/// The code bytes of a program that is one instruction line.
fn one(w: &mut W, text: &str) -> Result<Vec<u8>, String> {
    w.note(|| show(text));
    w.transitions += 1;
    let out = assemble(text.as_bytes()).map_err(|e| format!("{e}\n  {}", show(text)))?;
    let o = macho::read(&out).map_err(|e| format!("{e}\n  {}", show(text)))?;
    w.outcome(&out);
    match o.sects.as_slice() {
        [s] if s.sectname == "__text" && s.relocs.is_empty() && o.syms.is_empty() => Ok(s.data.clone()),
        _ => Err(format!("{} should give code only", show(text))),
    }
}
fn means(w: &mut W, text: &str, ok: &dyn Fn(&Effect) -> bool) -> Result<(), String> {
    let b = one(w, text)?;
    let d = decode_whole(&b).map_err(|e| format!("{text:?} gives [{}]: {e}", hex(&b)))?;
    w.executed(1);
    if ok(&d.eff) {
        Ok(())
    } else {
        Err(format!("{text:?} gives [{}], which means {:?}", hex(&b), d.eff))
    }
}
fn pushes(e: &Effect, v: u64) -> bool {
    match e {
        Effect::Push { width: 64, val: Val::Imm(p) } => *p as u32 == v as u32 && (v >= 1 << 31 || *p == v),
        _ => false,
    }
}

/// Yields `blocks` lines of one `chunk`-byte string each, then `last`.
struct Long {
    line: Vec<u8>,
    blocks: usize,
    last: Vec<u8>,
    at: usize,
}
impl std::io::Read for Long {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let src = if self.blocks > 0 { &self.line } else { &self.last };
        let n = b.len().min(src.len() - self.at);
        b[..n].copy_from_slice(&src[self.at..self.at + n]);
        self.at += n;
        if self.blocks > 0 && self.at == src.len() {
            self.blocks -= 1;
            self.at = 0;
        }
        Ok(n)
    }
}
/// Keeps the first and the last bytes of what is written.
#[derive(Default)]
struct Ends {
    head: Vec<u8>,
    tail: Vec<u8>,
}
impl std::io::Write for Ends {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(4096 - self.head.len());
        self.head.extend_from_slice(&b[..k]);
        self.tail.extend_from_slice(&b[b.len().saturating_sub(4096)..]);
        let cut = self.tail.len().saturating_sub(4096);
        self.tail.drain(..cut);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A symbolic operand behind so many bytes that its place just fits, or does not fit, the 31 bits a
/// relocation has for it: its relocation names its place, or the program is refused.
fn far_operand(w: &mut W, place: u64, sect: usize, bss: bool) -> Result<(), String> {
    const CHUNK: usize = 1 << 23;
    w.state(&("far operand", place, sect, bss));
    w.transitions += 1;
    let e = w.forked(|| {
        // the operand stands 2 bytes behind the start of `mov rax, there`
        let fill = place - 2;
        let mut line = b"db \"".to_vec();
        line.resize(line.len() + CHUNK, b'x');
        line.extend(b"\"\n");
        let mut last = b"db \"".to_vec();
        last.resize(last.len() + (fill % CHUNK as u64) as usize, b'y');
        last.extend(b"\"\nmov rax, there\n");
        last.extend(if bss { "section .bss\nthere: \n" } else { "there: \n" }.bytes());
        let mut src = Long { line, blocks: (fill / CHUNK as u64) as usize, last, at: 0 };
        let mut out = Ends::default();
        let mut a = Assembler::new();
        a.read_from(&mut if sect == DATA { "section .data\n" } else { "section .text\n" }.as_bytes());
        a.read_from(&mut src);
        a.write_into(&mut out);
        let mut v = out.head;
        v.resize(4096, 0);
        v.extend(out.tail);
        v
    });
    let v = match e.end {
        End::Returned(v) if v.len() == 8192 => v,
        End::Killed(s) => return Err(format!("ended by signal {s}")),
        End::Returned(_) => return Err("nothing emitted".into()),
        _ if place < (1 << 31) - 8 => return Err(format!("the program is refused: {}", clip(&e.stderr, 300))),
        _ => {
            w.refused += 1;
            return Ok(());
        }
    };
    // tail: the relocation (8 bytes), the symbol (16), the names (NUL, "there", NUL)
    let r = &v[8192 - 7 - 16 - 8..];
    let addr = i32::from_le_bytes(r[..4].try_into().unwrap()) as i64;
    let value = u64::from_le_bytes(r[16..24].try_into().unwrap());
    let sections = u32::from_le_bytes(v[96..100].try_into().unwrap()) as usize;
    let size = (0..sections.min(3)).map(|i| u64::from_le_bytes(v[32 + 72 + 80 * i + 40..][..8].try_into().unwrap())).sum::<u64>();
    if addr != place as i64 || value != place + 8 || size != place + 8 {
        return Err(format!("section of {size:#x} bytes, relocation at {addr:#x}, label at {value:#x}"));
    }
    Ok(())
}

fn a02(w: &mut W) {
    let th = w.thorough();
    let tabs: [(u8, [&str; 16]); 3] = [(64, R64), (32, R32), (16, R16)];
    for (width, names) in tabs {
        for d in 0..16 {
            w.case("register to register", || format!("mov {}, every {width}-bit register", names[d]), |w| {
                for s in 0..16 {
                    w.state(&("rr", width, d, s));
                    let want = Effect::Set { width, dst: d as u8, val: Val::Reg(s as u8) };
                    means(w, &format!("mov {}, {}\n", names[d], names[s]), &|e| *e == want)?;
                }
                Ok(())
            });
            let mut vals = alphabet(width as u32);
            if width == 16 && (th || d % 9 == 0) {
                vals = (0..=65535).collect();
            } else if d % 9 == 0 {
                vals.extend(0..=70000);
                vals.sort();
                vals.dedup();
            }
            for ch in vals.chunks(200) {
                w.case("immediates", || format!("mov {}, values {:#x}..{:#x}", names[d], ch[0], ch[ch.len() - 1]), |w| {
                    for &v in ch {
                        w.state(&("ri", width, d, v));
                        let want = Effect::Set { width, dst: d as u8, val: Val::Imm(v) };
                        means(w, &format!("mov {}, {v}\n", names[d]), &|e| *e == want)?;
                        means(w, &format!("mov {}, {v:#x}\n", names[d]), &|e| *e == want)?;
                    }
                    Ok(())
                });
            }
        }
    }
    for r in 0..16 {
        w.case("push register", || format!("push {}", R64[r]), |w| {
            w.state(&("pr", r));
            let want = Effect::Push { width: 64, val: Val::Reg(r as u8) };
            means(w, &format!("push {}\n", R64[r]), &|e| *e == want)
        });
    }
    let mut vals: Vec<u64> = (0..=70000).collect();
    vals.extend(alphabet(32));
    vals.sort();
    vals.dedup();
    for ch in vals.chunks(500) {
        w.case("push number", || format!("push {:#x}..{:#x}", ch[0], ch[ch.len() - 1]), |w| {
            for &v in ch {
                w.state(&("pi", v));
                means(w, &format!("push {v}\n"), &|e| pushes(e, v))?;
                means(w, &format!("push {v:#x}\n"), &|e| pushes(e, v))?;
            }
            Ok(())
        });
    }
    w.case("no operands", || "ret; syscall".into(), |w| {
        means(w, "ret\n", &|e| *e == Effect::Ret)?;
        means(w, "syscall\n", &|e| *e == Effect::Syscall)
    });
    // every kind of line next to every other
    let mut all: Vec<Line> = insns();
    for (width, names) in tabs {
        for d in [0usize, 4, 5, 8, 12, 13, 15] {
            for s in [0usize, 3, 4, 8, 15] {
                all.push(line(&format!("mov {}, {}", names[d], names[s]), set_reg(width, d, s)));
            }
            for v in [0u64, 1, 127, 128, 255, 256, 65535] {
                all.push(line(&format!("mov {}, {v}", names[d]), set_imm(width, d, v)));
            }
        }
    }
    for i in 0..all.len() {
        w.case("pairs of lines", || format!("{:?} before and after {} lines", all[i].text, all.len()), |w| {
            for j in 0..all.len() {
                let p = [all[i].clone(), all[j].clone(), all[i].clone()];
                let m = Model::of(&p);
                w.state(&m);
                w.executed(1);
                conform(w, &text_of(&p), &m)?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- A03
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V {
    /// must be accepted with this value
    Exact(u64),
    /// refused, or this value
    Maybe(u64),
    Bad,
    /// no claim
    Open,
}

/// An unsigned number as the language writes it.
fn number(s: &str) -> V {
    let (digits, radix, odd) = if let Some(h) = s.strip_prefix("0x") {
        (h, 16, false)
    } else if let Some(h) = s.strip_prefix("0X") {
        (h, 16, true)
    } else {
        (s, 10, false)
    };
    if digits.is_empty() {
        return V::Bad;
    }
    let mut v: u128 = 0;
    for c in digits.chars() {
        match c.to_digit(radix) {
            Some(d) if c.is_ascii() => v = v * radix as u128 + d as u128,
            _ => return V::Bad,
        }
        if v > u64::MAX as u128 {
            return V::Bad;
        }
    }
    if odd { V::Maybe(v as u64) } else { V::Exact(v as u64) }
}
fn signed(s: &str) -> V {
    let neg = |v: V| match v {
        V::Exact(x) | V::Maybe(x) => V::Maybe(x.wrapping_neg()),
        v => v,
    };
    match number(s) {
        V::Bad => match (s.strip_prefix('+'), s.strip_prefix('-')) {
            (Some(r), _) => match number(r) {
                V::Exact(x) | V::Maybe(x) => V::Maybe(x),
                v => v,
            },
            (_, Some(r)) => neg(number(r)),
            _ => V::Bad,
        },
        v => v,
    }
}
/// Any operand text of mov.
fn expression(s: &str) -> V {
    let t: Vec<&str> = s.split(|c| c == ' ' || c == '\t').filter(|t| !t.is_empty()).collect();
    let exact = |a: V, b: V, minus: bool| match (a, b) {
        (V::Exact(x), V::Exact(y)) => V::Exact(if minus { x.wrapping_sub(y) } else { x.wrapping_add(y) }),
        (V::Exact(x) | V::Maybe(x), V::Exact(y) | V::Maybe(y)) => V::Maybe(if minus { x.wrapping_sub(y) } else { x.wrapping_add(y) }),
        _ => V::Bad,
    };
    let loose = |s: &str| -> V {
        // one operator without its blanks, or a sign
        let v = signed(s);
        if v != V::Bad {
            return v;
        }
        for (i, c) in s.char_indices().skip(1) {
            if c == '+' || c == '-' {
                let v = exact(signed(&s[..i]), signed(&s[i + 1..]), c == '-');
                if let V::Exact(x) = v {
                    return V::Maybe(x);
                }
                if v != V::Bad {
                    return v;
                }
            }
        }
        V::Bad
    };
    match t.as_slice() {
        [n] => loose(n),
        [a, op, b] if *op == "+" || *op == "-" => exact(signed(a), signed(b), *op == "-"),
        [sign, b] if *sign == "+" || *sign == "-" => loose(&format!("{sign}{b}")),
        [] => V::Bad,
        _ if t.concat().chars().filter(|c| "+-".contains(*c)).count() <= 1 && t.len() <= 2 => match loose(&t.concat()) {
            // "1 2" is two numbers, "1 +2" is a sum
            V::Exact(_) => V::Bad,
            v if t.concat().contains(|c| "+-".contains(c)) => v,
            _ => V::Bad,
        },
        _ => {
            // several signs, glued in some way: unsettled only if the glued text is one operation
            match loose(&t.concat()) {
                V::Maybe(_) if t.concat().chars().filter(|c| "+-".contains(*c)).count() <= 3 => V::Open,
                _ => V::Bad,
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cx {
    Mov(u8, u8),
    Push,
    D(usize),
    /// an item of a data list with others: directive, place
    Item(usize, usize),
}
/// what stands around an item: text before and behind it, and their bytes in front of the padding
const AROUND: [(&str, &str, &[u8], &[u8]); 5] = [("1, ", "", &[1], &[]), ("", ", 1", &[], &[1]), ("\"s\", ", "", b"s", &[]), ("2, ", ", \"t\"", &[2], b"t"), ("\"u\",", ",3", b"u", &[3])];
impl Cx {
    fn text(self, op: &str) -> String {
        match self {
            Cx::Mov(64, r) => format!("mov {}, {op}\n", R64[r as usize]),
            Cx::Mov(32, r) => format!("mov {}, {op}\n", R32[r as usize]),
            Cx::Mov(_, r) => format!("mov {}, {op}\n", R16[r as usize]),
            Cx::Push => format!("push {op}\n"),
            Cx::D(n) => format!("{} {op}\n", ["db", "dw", "dd", "dq"][n]),
            Cx::Item(n, k) => format!("{} {}{op}{}\n", ["db", "dw", "dd", "dq"][n], AROUND[k].0, AROUND[k].1),
        }
    }
    fn bits(self) -> u32 {
        match self {
            Cx::Mov(w, _) => w as u32,
            Cx::Push => 32,
            Cx::D(n) | Cx::Item(n, _) => 8 << n,
        }
    }
    pub fn value(self, s: &str) -> V {
        let v = match self {
            Cx::Mov(..) => expression(s),
            _ => match (number(s), expression(s)) {
                (V::Bad, V::Exact(x)) => V::Maybe(x),
                (V::Exact(x), _) => V::Exact(x),
                (_, v) => v,
            },
        };
        let fits = |x: u64| self.bits() == 64 || x >> self.bits() == 0;
        match v {
            V::Exact(x) if !fits(x) => V::Bad,
            // a sign may well be taken within the operand's width
            V::Maybe(x) if !fits(x) => {
                let top = x as i64;
                if top < 0 && top >= -(1i64 << (self.bits() - 1)) { V::Open } else { V::Bad }
            }
            v => v,
        }
    }
    /// Does the emitted code or data stand for `v`?
    fn holds(self, b: &[u8], v: u64) -> bool {
        match self {
            Cx::D(n) => b == &v.to_le_bytes()[..1 << n],
            Cx::Item(n, k) => {
                let mut want = vec![];
                for part in [AROUND[k].2, &v.to_le_bytes()[..1 << n], AROUND[k].3] {
                    want.extend_from_slice(part);
                    want.resize(want.len().next_multiple_of(1 << n), 0);
                }
                b == want
            }
            Cx::Push => decode_whole(b).map_or(false, |d| pushes(&d.eff, v)),
            Cx::Mov(width, r) => decode_whole(b).map_or(false, |d| d.eff == Effect::Set { width, dst: r, val: Val::Imm(v) }),
        }
    }
}

fn numeric(w: &mut W, cx: Cx, op: &str) -> Result<(), String> {
    let text = cx.text(op);
    let v = cx.value(op);
    w.state(&text);
    w.executed(1);
    let bad = |b: &[u8]| Err(format!("{text:?} was accepted and gives [{}]; its value is {v:?}", hex(b)));
    match v {
        V::Open => Ok(()),
        V::Exact(x) => {
            let b = one(w, &text)?;
            if cx.holds(&b, x) { Ok(()) } else { bad(&b) }
        }
        V::Maybe(_) | V::Bad => {
            w.note(|| show(&text));
            w.transitions += 1;
            let e = w.forked(|| assemble(text.as_bytes()).unwrap_or_else(|m| panic!("{m}")));
            match (e.end, v) {
                (End::Exited(c), _) if c != 0 => {}
                (End::Panicked(_), _) => {}
                (End::Returned(out), V::Maybe(x)) => {
                    let o = macho::read(&out)?;
                    match o.sects.as_slice() {
                        [s] if s.relocs.is_empty() && cx.holds(&s.data, x) => {}
                        [s] => return bad(&s.data),
                        _ => return bad(&[]),
                    }
                    return Ok(());
                }
                (End::Returned(out), _) => {
                    let o = macho::parse(&out)?;
                    return bad(o.sects.first().map_or(&[], |s| &s.data));
                }
                (end, _) => return Err(format!("{text:?}: the run ended with {end:?}")),
            }
            w.refused += 1;
            Ok(())
        }
    }
}

fn a03(w: &mut W) {
    let th = w.thorough();
    // all short strings
    let chars = ['0', '1', '9', 'a', 'f', 'g', 'x', '+', '-', ' '];
    let depth = if th { 5 } else { 4 };
    for n in 1..=depth {
        let total = chars.len().pow(n);
        for lo in (0..total).step_by(50) {
            w.case("short operands", || format!("operands of {n} characters number {lo}.. over {chars:?}"), |w| {
                for x in lo..(lo + 50).min(total) {
                    w.beat();
                    let mut x = x;
                    let mut s = String::new();
                    for _ in 0..n {
                        s.push(chars[x % chars.len()]);
                        x /= chars.len();
                    }
                    if s.trim() != s {
                        continue;
                    }
                    for cx in [Cx::Mov(64, 7), Cx::Push, Cx::D(0), Cx::D(3)] {
                        // letters first: a symbol, not a number; blanks separate items of data
                        if s.starts_with(|c: char| c.is_alphabetic()) && matches!(cx, Cx::Mov(..)) {
                            continue;
                        }
                        if s.contains(' ') && matches!(cx, Cx::D(_)) {
                            continue;
                        }
                        numeric(w, cx, &s)?;
                    }
                }
                Ok(())
            });
        }
    }
    // all short sequences of operands, signs and strays
    let toks = ["5", "0x10", "0", "+", "-", "18446744073709551615", "*", "0x", "1x", "x", ",", "rax", "4294967295"];
    for n in 1..=if th { 5u32 } else { 4 } {
        let total = toks.len().pow(n);
        for lo in (0..total).step_by(toks.len()) {
            w.case("operand sequences", || format!("{n} of {toks:?} number {lo}.."), |w| {
                for x in lo..lo + toks.len() {
                    w.beat();
                    let mut x = x;
                    let mut seq = vec![];
                    for _ in 0..n {
                        seq.push(toks[x % toks.len()]);
                        x /= toks.len();
                    }
                    let s = seq.join(" ");
                    for cx in [Cx::Mov(64, 3), Cx::Mov(32, 12), Cx::Mov(16, 1), Cx::Push] {
                        // names in front: a register or a symbol, not a number
                        if matches!(seq[0], "x" | "rax") && n == 1 {
                            continue;
                        }
                        numeric(w, cx, &s)?;
                    }
                }
                Ok(())
            });
        }
    }
    // spellings of boundary values
    let ctxs = [Cx::Mov(64, 10), Cx::Mov(32, 3), Cx::Mov(16, 14), Cx::Push, Cx::D(0), Cx::D(1), Cx::D(2), Cx::D(3)];
    let mut vals: Vec<u64> = (0..=300).collect();
    for b in 0..64 {
        for d in -2i64..=2 {
            vals.push((1u64 << b).wrapping_add(d as u64));
        }
    }
    vals.extend([9999, 10000, 99999, 123456789, 0x0102030405060708, 0xfedcba9876543210, 0xdeadbeef, 0xabcdef, u64::MAX - 1, u64::MAX, 10u64.pow(18), 10u64.pow(19), 4294967295, 4294967296, 4294967297]);
    vals.sort();
    vals.dedup();
    for cx in ctxs {
        for ch in vals.chunks(16) {
            w.case("spellings", || format!("values {:#x}..{:#x} as {:?}", ch[0], ch[ch.len() - 1], cx.text("N")), |w| {
                for &v in ch {
                    w.beat();
                    for s in [format!("{v}"), format!("0x{v:x}"), format!("0x{v:X}"), format!("0{v}"), format!("0x000{v:x}"), format!("000000000000000000000000000000{v}")] {
                        numeric(w, cx, &s)?;
                    }
                }
                Ok(())
            });
        }
    }
    // many digits
    let digits = |x: u64, k: u32| -> String {
        // 2^k + x in decimal
        let mut d = vec![1u8];
        let mut add = |d: &mut Vec<u8>, mul: u32, mut carry: u64| {
            for y in d.iter_mut() {
                let t = *y as u64 * mul as u64 + carry % 10;
                carry = carry / 10 + t / 10;
                *y = (t % 10) as u8;
            }
            while carry > 0 {
                d.push((carry % 10) as u8);
                carry /= 10;
            }
        };
        for _ in 0..k {
            add(&mut d, 2, 0);
        }
        add(&mut d, 1, x);
        d.iter().rev().map(|y| (b'0' + y) as char).collect()
    };
    for cx in [Cx::Mov(64, 11), Cx::Mov(32, 5), Cx::Mov(16, 8), Cx::Push, Cx::D(0), Cx::D(1), Cx::D(2), Cx::D(3), Cx::Item(0, 0), Cx::Item(3, 1)] {
        for n in (1usize..=140).chain([255, 256, 257, 1000, 4096, 65535, 65536, 65537]) {
            w.case("many digits", || format!("{n} zeros in front of digits, as {:?}", cx.text("N")), |w| {
                let z = "0".repeat(n);
                for s in [z.clone(), format!("{z}7"), format!("{z}200"), format!("0x{z}"), format!("0x{z}9"), format!("0x{z}fF")] {
                    numeric(w, cx, &s)?;
                }
                if cx.bits() == 64 {
                    numeric(w, cx, &format!("{z}18446744073709551615"))?;
                    numeric(w, cx, &format!("0x{z}ffffffffffffffff"))?;
                }
                // zeros in front of what does not fit
                for s in ["18446744073709551616", "18446744073709551617", "36893488147419103239", "100000000000000000000", "4294967296", "4294967303", "65543", "263"] {
                    numeric(w, cx, &format!("{z}{s}"))?;
                }
                for s in ["10000000000000000", "10000000000000007", "fffffffffffffffff", "100000000", "100000009", "10007", "107"] {
                    numeric(w, cx, &format!("0x{z}{s}"))?;
                }
                // one digit too many
                numeric(w, cx, &format!("{}{}", "1", "0".repeat(n + 19)))?;
                numeric(w, cx, &format!("0x1{}", "0".repeat(n + 15)))
            });
        }
        for k in (64..=140).chain([191, 192, 193, 255, 256, 257, 512, 1024]) {
            w.case("many digits", || format!("2^{k} and a little more, as {:?}", cx.text("N")), |w| {
                for x in [0u64, 1, 7, 200] {
                    numeric(w, cx, &digits(x, k))?;
                }
                numeric(w, cx, &format!("0x{}{}", 1 << (k % 4), "0".repeat(k as usize / 4)))?;
                numeric(w, cx, &format!("0x{}{}05", 1 << (k % 4), "0".repeat(k as usize / 4 - 2)))
            });
        }
    }
    // items of a list, which are judged one by one
    let mut iv: Vec<String> = vals.iter().filter(|v| **v > 200).flat_map(|v| [format!("{v}"), format!("{v:#x}")]).collect();
    iv.extend(["0x", "x", "1x", "0xg", "a", "-", "+", "1_000", "18446744073709551616", "0x10000000000000000", "0b1", "1h", "'a'"].map(String::from));
    for n in 0..4 {
        for k in 0..AROUND.len() {
            for ch in iv.chunks(50) {
                w.case("items of a list", || format!("items {}.. as {:?}", ch[0], Cx::Item(n, k).text("N")), |w| {
                    for s in ch {
                        w.beat();
                        numeric(w, Cx::Item(n, k), s)?;
                    }
                    Ok(())
                });
            }
        }
    }
    // sums and differences
    let mut ev: Vec<u64> = vec![0, 1, 2, 3, 5, 9, 10, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff, 0x1_0000_0000, 1 << 53, (1 << 53) + 1, i64::MAX as u64 - 1, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX - 1, u64::MAX, 0x0123456789abcdef];
    if th {
        ev.extend((4..64).flat_map(|b| [1u64 << b, (1u64 << b) - 1]));
        ev.sort();
        ev.dedup();
    }
    for (i, &a) in ev.iter().enumerate() {
        for width in [64u8, 32, 16] {
            w.case("sums and differences", || format!("{a:#x} +- each of {} values into a {width}-bit register", ev.len()), |w| {
                for (j, &b) in ev.iter().enumerate() {
                    w.beat();
                    for op in ["+", "-"] {
                        let cx = Cx::Mov(width, ((i + j) % 16) as u8);
                        numeric(w, cx, &format!("{a} {op} {b}"))?;
                        if (i + j) % 3 == 0 {
                            numeric(w, cx, &format!("{a:#x} {op} {b}"))?;
                            numeric(w, cx, &format!("{a} {op} {b:#x}"))?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // not numbers
    let bad = [
        "0x", "0xg", "0xfg", "0x1g", "0x1.", "0x+1", "0x-1", "0x+", "0x 1", "0x0x1", "0x1x", "00x1", "1x", "12a", "9f", "1_000", "0x1_0", "1.5", "1e3", "1,",
        "--1", "++1", "+-1", "1 +", "1 -", "+", "-", "+ +", "1 + + 2", "1 - - 2", "1 + 2 + 3", "1 - 2 - 3", "1 + 2 - 3", "1 + 2 3", "1 2", "1 2 3", "1 2 + 3",
        "1 * 2", "1 / 2", "1 % 2", "1 & 2", "1 = 2", "1 + x", "1 + rax", "1 + 0x", "1 + 1x", "1x + 1", "0x + 1", "1 + 2 +", "1 + 2 -", "1 + 2 + ", "1 + 2 ret", "1 + 2 ; 3 +".split(';').next().unwrap(),
        "18446744073709551616", "18446744073709551617", "99999999999999999999", "0x10000000000000000", "0xfffffffffffffffff", "340282366920938463463374607431768211456", "340282366920938463463374607431768211457",
        "18446744073709551616 - 1", "1 + 18446744073709551616", "0 - 18446744073709551616", "0x10000000000000000 - 1", "36893488147419103233",
        "1\u{660}", "\u{661}", "1\u{b2}", "1\u{ff11}", "0x\u{ff11}", "1'", "(1)", "[1]", "1h", "0b2", "0b", "0o8", "1:", "#1 1", "1\u{0}",
    ];
    // one character more at every place of a number, and what other languages write around numbers
    let around = [
        "0b", "0B", "0o", "0O", "0d", "0h", "0q", "0y", "0t", "00x", "x", "X", "&h", "&H", "&", "$", "$0", "#", "#0x", "%", "@", "h", "H", "b", "B", "o", "q", "d", "t", "y", "u", "U", "l", "ul", "ull", "LL", "n", "i", "f", "e", "e1", "E1", "e+1", "p1", "p0", "_", "__", "'", "''", ".0", ".", "kb", "K", "M", "k", "_u8",
        "u64", "i32", "f32", "rd", "0r", "16r", "16#", "2#", "\\x", "\\", "=", "~", "!", "!!", "(", ")", "{", "}", "<<0", "*1", "/1", "^0", "|0", "||", "?", "\u{660}", "\u{2212}",
    ];
    for cx in [Cx::Mov(64, 3), Cx::Mov(32, 11), Cx::Mov(16, 1), Cx::Push, Cx::D(0), Cx::D(1), Cx::D(2), Cx::D(3), Cx::Item(0, 0), Cx::Item(3, 2), Cx::Item(1, 1)] {
        for n in ["0", "1", "12", "0f", "0ff", "1f", "0ab", "0x1f", "0x0", "101", "00"] {
            w.case("affixes of numbers", || format!("one or more characters before, behind and inside of {:?}", cx.text(n)), |w| {
                let one: Vec<String> = (33u8..127).map(|c| (c as char).to_string()).collect();
                for a in one.iter().map(|c| c.as_str()).chain(around) {
                    // these end the operand or the line, or make it something else
                    if a == "," || a == ";" || a == "\"" || (a == ":" && matches!(cx, Cx::Push)) {
                        continue;
                    }
                    w.beat();
                    for at in 0..=n.len() {
                        let op = format!("{}{a}{}", &n[..at], &n[at..]);
                        // the name of a register is an operand, and not a number
                        if op != "r12" {
                            numeric(w, cx, &op)?;
                        }
                    }
                }
                Ok(())
            });
        }
    }
    for cx in [Cx::Mov(64, 0), Cx::Mov(64, 13), Cx::Mov(32, 2), Cx::Mov(16, 9), Cx::Push, Cx::D(0), Cx::D(1), Cx::D(2), Cx::D(3)] {
        for s in bad {
            if matches!(cx, Cx::D(_)) && (s.contains(' ') || s.ends_with(',')) {
                continue;
            }
            if s.is_empty() {
                continue;
            }
            w.case("malformed", || format!("{:?}", cx.text(s)), |w| numeric(w, cx, s.trim()));
        }
    }
}

// ---------------------------------------------------------------- A04
fn items(l: Option<&str>, width: usize, its: &[It], sep: &str) -> Line {
    let n = 1usize << width;
    let mut b: Vec<u8> = vec![];
    let mut t: Vec<String> = vec![];
    for i in its {
        match i {
            It::N(v) => {
                b.extend_from_slice(&v.to_le_bytes()[..n]);
                t.push(v.to_string());
            }
            It::X(v) => {
                b.extend_from_slice(&v.to_le_bytes()[..n]);
                t.push(format!("{v:#x}"));
            }
            It::S(s) => {
                b.extend_from_slice(s.as_bytes());
                let pad = (n - s.len() % n) % n;
                b.extend(std::iter::repeat(0).take(pad));
                t.push(format!("\"{s}\""));
            }
        }
    }
    let d = ["db", "dw", "dd", "dq"][width];
    line(&format!("{}{d} {}", l.map(|l| format!("{l} ")).unwrap_or_default(), t.join(sep)), Sem::Data(l.map(|s| s.into()), b))
}
#[derive(Clone)]
enum It {
    N(u64),
    X(u64),
    S(String),
}

fn data_line(w: &mut W, l: Line) -> Result<(), String> {
    // a label in front and one behind show where the line's bytes begin and end
    let p = [section(DATA), db(Some("before"), &[0xee, 0xdd, 0xcc]), l, label("after"), db(None, &[0xaa])];
    let m = Model::of(&p);
    w.state(&m.secs[1]);
    conform(w, &text_of(&p), &m).map(|_| ())
}

fn a04(w: &mut W) {
    let th = w.thorough();
    for width in 0..4 {
        let max = u64::MAX >> (64 - (8 << width));
        let al = vec![
            It::N(0),
            It::N(1),
            It::N(max),
            It::X(0x12),
            It::X(max - 1),
            It::N(max / 3),
            It::S("".into()),
            It::S("a".into()),
            It::S("ab".into()),
            It::S("abc".into()),
            It::S("hello, w".into()),
            It::S("x;y".into()),
            It::S("db 1".into()),
            It::S(" ".into()),
            It::S("あ,".into()),
            It::S("\t9".into()),
        ];
        for n in 1..=if th { 4 } else { 3 } {
            for lab in [None, Some("x")] {
                for lo in (0..al.len().pow(n)).step_by(16) {
                    w.case("item lists", || format!("directive {width}, lists of {n} items number {lo}..{}, label {lab:?}", lo + 16), |w| {
                        for x in lo..lo + 16 {
                            let mut x = x;
                            let mut its = vec![];
                            for _ in 0..n {
                                its.push(al[x % 16].clone());
                                x /= 16;
                            }
                            w.executed(1);
                            data_line(w, items(lab, width, &its, ", "))?;
                        }
                        Ok(())
                    });
                }
            }
        }
        let long: Vec<usize> = (0..=300).chain([4095, 4096, 4097, 8170, 8185, 8186, 8187, 8188, 8189, 8190, 8191, 8192, 8193, 16383, 16384, 65535, 65536, 65537]).collect();
        for n in long {
            w.case("string lengths", || format!("directive {width}, a string of {n} bytes, then a number"), |w| {
                let s: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
                for its in [vec![It::S(s.clone())], vec![It::S(s.clone()), It::N(7)], vec![It::N(9), It::S(s.clone()), It::S(s.clone())]] {
                    w.executed(1);
                    data_line(w, items(Some("x"), width, &its, ", "))?;
                }
                Ok(())
            });
        }
        for n in (1usize..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4096, 5000, 8191, 8192, 8193, 20000, 32768, 65535, 65536, 65537]) {
            w.case("many items", || format!("directive {width}, {n} numbers or strings"), |w| {
                let nums: Vec<It> = (0..n).map(|i| It::N(i as u64 & max)).collect();
                let strs: Vec<It> = (0..n).map(|i| It::S("s".repeat(i % 9))).collect();
                w.executed(2);
                data_line(w, items(None, width, &nums, ", "))?;
                data_line(w, items(Some("x"), width, &nums, ","))?;
                data_line(w, items(Some("x"), width, &strs, ", "))
            });
        }
        // all longer lists of few items
        let few = [It::N(0), It::N(max), It::S("a".into()), It::S("".into())];
        for n in 4..=if th { 9u32 } else { 7 } {
            for lo in (0..few.len().pow(n)).step_by(256) {
                w.case("longer lists", || format!("directive {width}, {n} of 0, {max:#x}, \"a\" and \"\" number {lo}.."), |w| {
                    for x in lo..lo + 256 {
                        let its: Vec<It> = (0..n).map(|i| few[x / few.len().pow(i) % few.len()].clone()).collect();
                        w.executed(1);
                        data_line(w, items(None, width, &its, ", "))?;
                    }
                    Ok(())
                });
            }
        }
        // the same item again and again behind others
        for n in (1usize..=80).chain([127, 128, 129, 255, 256, 257, 1024, 4096]) {
            w.case("repeated items", || format!("directive {width}, {n} equal items behind and before others"), |w| {
                let mut heads = vec![vec![], vec![It::N(1)], vec![It::S("12345678".into())], vec![It::S("a".into()), It::N(0)]];
                heads.push((0..n as u64).map(|i| It::N(i % 100 + 1)).collect());
                heads.push(vec![It::S("s".repeat(n))]);
                for again in [It::N(0), It::N(max), It::N(0x20), It::N(0x90 & max), It::X(0), It::S("".into()), It::S("a".into()), It::S(" ".into()), It::S("\0".into()), It::S("0".into())] {
                    for head in &heads {
                        for tail in [None, Some(It::N(1)), Some(It::N(0)), Some(It::S("t".into()))] {
                            let mut its = head.clone();
                            its.extend(vec![again.clone(); n]);
                            its.extend(tail);
                            w.executed(1);
                            data_line(w, items(None, width, &its, ", "))?;
                        }
                    }
                }
                Ok(())
            });
        }
        // two strings behind each other: the padding of the first
        for n in 0..=40usize {
            w.case("pairs of strings", || format!("directive {width}, a string of {n} and one of 0..=40 bytes"), |w| {
                for k in 0..=40usize {
                    w.executed(1);
                    let s = |n: usize, c: u8| It::S((0..n).map(|i| (c + (i % 9) as u8) as char).collect());
                    data_line(w, items(None, width, &[s(n, b'a'), s(k, b'A'), It::N(3), s(n, b'0')], ", "))?;
                }
                Ok(())
            });
        }
        // every pair of characters
        for c in (1u8..128).filter(|c| !b"\n\r\"".contains(c)) {
            w.case("pairs of characters", || format!("directive {width}, {:?} before every character", c as char), |w| {
                for d in (1u8..128).filter(|c| !b"\n\r\"".contains(c)) {
                    w.executed(1);
                    let s: String = [c as char, d as char].iter().collect();
                    data_line(w, items(None, width, &[It::S(s.clone()), It::S(format!("{s}{s}x"))], ","))?;
                }
                Ok(())
            });
        }
        let special = [';', ',', ' ', '\t', '\'', '\\', ':', '+', 'a'];
        for n in 1..=4u32 {
            for lo in (0..special.len().pow(n)).step_by(27) {
                w.case("special characters", || format!("directive {width}, strings of {n} over {special:?} number {lo}.."), |w| {
                    for x in lo..(lo + 27).min(special.len().pow(n)) {
                        let mut x = x;
                        let mut s = String::new();
                        for _ in 0..n {
                            s.push(special[x % special.len()]);
                            x /= special.len();
                        }
                        w.executed(1);
                        data_line(w, items(None, width, &[It::S(s.clone())], ", "))?;
                        let mut l = items(Some("y"), width, &[It::N(1), It::S(s.clone()), It::S(s)], ", ");
                        l.text.push_str(" ; \"c\", 1");
                        data_line(w, l)?;
                    }
                    Ok(())
                });
            }
        }
    }
    // every value of the narrow directives
    for lo in (0u64..65536).step_by(1024) {
        w.case("values", || format!("every byte, and every word from {lo:#x}, alone and in a list"), |w| {
            for v in lo..lo + 1024 {
                w.executed(2);
                data_line(w, items(None, 1, &[It::N(v)], ", "))?;
                data_line(w, items(None, 2, &[It::X(v), It::N(v << 16 | 1)], ", "))?;
                if v < 256 {
                    data_line(w, items(None, 0, &[It::N(v)], ", "))?;
                    data_line(w, items(None, 0, &[It::X(v), It::N(255 - v)], ", "))?;
                }
            }
            Ok(())
        });
    }
    // what a line emits does not depend on the data lines before it
    let lists = |width: usize| -> Vec<Line> {
        let n = |v: u64| It::N(v);
        let s = |s: &str| It::S(s.into());
        let long: Vec<It> = (0..40).map(|i| if i % 7 == 3 { s("some text") } else { n(i) }).collect();
        let mut v = vec![
            items(None, width, &[n(1)], ", "),
            items(None, width, &[n(1), n(2)], ", "),
            items(None, width, &[s("abc")], ", "),
            items(None, width, &[s("abc"), n(255)], ", "),
            items(None, width, &[n(200), s("a longer text of thirty-one byte"), n(0), s(""), s("x")], ", "),
            items(None, width, &long, ","),
        ];
        v.push(items(Some("x"), width, &[n(200), s("a longer text of thirty-one byte"), n(0), s(""), s("x")], ", "));
        v
    };
    let al: Vec<Line> = (0..4).flat_map(lists).collect();
    let k = al.len();
    for depth in 2..=if th { 4u32 } else { 3 } {
        for lo in (0..k.pow(depth)).step_by(k) {
            w.case("lines after lines", || format!("sequences of {depth} data lines number {lo}..{}", lo + k), |w| {
                for x in lo..lo + k {
                    let mut x = x;
                    let mut p = vec![section(DATA)];
                    let mut labels = 0;
                    for _ in 0..depth {
                        let l = &al[x % k];
                        x /= k;
                        labels += l.text.starts_with('x') as usize;
                        p.push(l.clone());
                    }
                    if labels > 1 {
                        continue;
                    }
                    w.executed(1);
                    let m = Model::of(&p);
                    w.state(&m.secs[1]);
                    conform(w, &text_of(&p), &m)?;
                }
                Ok(())
            });
        }
    }
    let step = if th { 1 } else { 37 };
    for lo in (0u32..0x110000).step_by(256) {
        w.case("characters", || format!("every character of U+{lo:04X}..U+{:04X}, and every {}. in more places", lo + 255, if lo < 256 { 1 } else { step }), |w| {
            for c in lo..lo + 256 {
                let sampled = lo < 256 || c % step == 0 || c & 0xff == 0xff || c & 0xff == 0;
                let Some(c) = char::from_u32(c) else { continue };
                if c == '"' || c == '\n' || c == '\r' {
                    continue;
                }
                let width = (c as usize) % 4;
                w.executed(1);
                let forms = [format!("{c}"), format!("a{c}"), format!("{c}{c}b"), format!("a {c} b")];
                let k = (c as usize / 4) % 4;
                for s in if sampled { &forms[..] } else { &forms[k..k + 1] } {
                    data_line(w, items(Some("x"), width, &[It::S(s.clone()), It::N(2)], ", "))?;
                }
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- A05
/// One layout site of the program and the layouts it admits; the first is the canonical one.
#[derive(Clone, Copy, PartialEq)]
enum Site {
    Indent,
    Gap,
    BeforeComma,
    AfterComma,
    Trail,
    Comment,
    Eol,
    Insert,
}
impl Site {
    fn options(self) -> &'static [&'static str] {
        match self {
            Site::Indent => &["", " ", "\t", "    ", " \t ", "\x0c"],
            Site::Gap => &[" ", "\t", "  ", "\t\t ", "          ", "\x0c"],
            Site::BeforeComma => &["", " ", "\t", "   ", "\x0c"],
            Site::AfterComma => &[" ", "", "\t", "  ", "\x0c"],
            Site::Trail => &["", " ", "\t", "  \t", "\x0c"],
            Site::Comment => &["", ";", "; c", " ;x, y: \"q", "\t; \"q\" ; section .bss", ";é;\t"],
            Site::Eol => &["\n", "\r\n"],
            Site::Insert => &["", "\n", "   \n", ";\n", "\t; \"db 1\n", "\r\n", ";global a\r\n", " \t\r\n", "\n\n\n", "\x0c\n"],
        }
    }
}
enum P {
    T(&'static str),
    S(Site),
}

fn a05_program() -> Vec<P> {
    let lines: [&[&'static str]; 19] = [
        &["global", "b"],
        &["a:"],
        &["mov", "rax", ",", "1", "+", "2"],
        &["mov", "edi", ",", "0x10", "-", "3"],
        &["mov", "r9", ",", "b"],
        &["mov", "r10d", ",", "a"],
        &["mov", "ax", ",", "r15w"],
        &["push", "rbx"],
        &["push", "7"],
        &["syscall"],
        &["section", ".data"],
        &["b", "db", "1", ",", "\"x ; y, z\"", ",", "0x3"],
        &["dw", "1", ",", "\"\t\"", ",", "\"\""],
        &["c", "dq", "\"q\""],
        &["dd", "9"],
        &["section", ".bss"],
        &["z:"],
        &["section", ".text"],
        &["ret"],
    ];
    let mut p = vec![];
    for l in lines {
        p.push(P::S(Site::Insert));
        p.push(P::S(Site::Indent));
        for (i, t) in l.iter().enumerate() {
            if *t == "," {
                p.push(P::S(Site::BeforeComma));
                p.push(P::T(t));
                p.push(P::S(Site::AfterComma));
            } else {
                if i > 0 && l[i - 1] != "," {
                    p.push(P::S(Site::Gap));
                }
                p.push(P::T(t));
            }
        }
        p.push(P::S(Site::Trail));
        p.push(P::S(Site::Comment));
        p.push(P::S(Site::Eol));
    }
    p.push(P::S(Site::Insert));
    p
}

fn a05(w: &mut W) {
    let th = w.thorough();
    let p = a05_program();
    let sites: Vec<(usize, Site)> = p.iter().enumerate().filter_map(|(i, x)| if let P::S(s) = x { Some((i, *s)) } else { None }).collect();
    let render = |choice: &dyn Fn(usize, Site) -> usize| -> String {
        let mut s = String::new();
        for (i, x) in p.iter().enumerate() {
            match x {
                P::T(t) => s.push_str(t),
                P::S(k) => s.push_str(k.options()[choice(i, *k)]),
            }
        }
        s
    };
    let plain = render(&|_, _| 0);
    let want = match assemble(plain.as_bytes()) {
        Ok(b) => b,
        Err(e) => {
            w.case("canonical", || plain.clone(), |_| Err(e.clone()));
            return;
        }
    };
    let same = |w: &mut W, src: &str, want: &[u8]| -> Result<(), String> {
        w.note(|| show(src));
        w.state(src);
        w.transitions += 1;
        let out = assemble(src.as_bytes()).map_err(|e| format!("{e}\n  {}", show(src)))?;
        w.outcome(&out);
        if out == want {
            Ok(())
        } else {
            Err(format!("the object differs from that of the canonical layout\n  {}", show(src)))
        }
    };
    let devs: Vec<(usize, usize)> = sites.iter().flat_map(|(i, s)| (1..s.options().len()).map(move |o| (*i, o))).collect();
    w.case("single deviations", || "all single deviations".into(), |w| {
        same(w, &plain, &want)?;
        for &(i, o) in &devs {
            w.executed(1);
            same(w, &render(&|j, _| if j == i { o } else { 0 }), &want)?;
        }
        Ok(())
    });
    for (x, &(i, o)) in devs.iter().enumerate() {
        w.case("pairs of deviations", || format!("site {i} option {o} with every later one"), |w| {
            for &(j, q) in &devs[x + 1..] {
                if j == i {
                    continue;
                }
                w.executed(1);
                same(w, &render(&|k, _| if k == i { o } else if k == j { q } else { 0 }), &want)?;
            }
            Ok(())
        });
    }
    if th {
        for (x, &(i, o)) in devs.iter().enumerate() {
            for (y, &(j, q)) in devs.iter().enumerate().skip(x + 1) {
                if j == i {
                    continue;
                }
                w.case("triples of deviations", || format!("sites {i} and {j}, options {o} and {q}, with every later one"), |w| {
                    for &(k, r) in &devs[y + 1..] {
                        if k == j || k == i {
                            continue;
                        }
                        w.executed(1);
                        same(w, &render(&|z, _| if z == i { o } else if z == j { q } else if z == k { r } else { 0 }), &want)?;
                    }
                    Ok(())
                });
            }
        }
    }
    // the same layout everywhere
    let kinds = [Site::Indent, Site::Gap, Site::BeforeComma, Site::AfterComma, Site::Trail, Site::Comment, Site::Eol, Site::Insert];
    let total: usize = kinds.iter().map(|k| k.options().len()).product();
    let step = if th { 60 } else { 600 };
    for lo in (0..total).step_by(step) {
        w.case("uniform layouts", || format!("combinations {lo}.."), |w| {
            for x in lo..(lo + step).min(total) {
                let mut pick = [0usize; 8];
                let mut x = x;
                for (i, k) in kinds.iter().enumerate() {
                    pick[i] = x % k.options().len();
                    x /= k.options().len();
                }
                w.executed(1);
                same(w, &render(&|_, s| pick[kinds.iter().position(|k| *k == s).unwrap()]), &want)?;
            }
            Ok(())
        });
    }
    // every line as the last one, terminated or not
    let ends: Vec<usize> = plain.char_indices().filter(|(_, c)| *c == '\n').map(|(i, _)| i).collect();
    // (labels first, so that every prefix is valid)
    let pre = "q:\nsection .data\nqq db 1\nsection .text\n";
    let prog = format!("{pre}{}", plain.replace(", b\n", ", qq\n").replace(", a\n", ", q\n"));
    for n in 0..ends.len() {
        w.case("unterminated last line", || format!("the first {n} lines"), |w| {
            let mut it = prog.split_inclusive('\n');
            let body: String = it.by_ref().take(4 + n).collect();
            let last = it.next().unwrap().trim_end_matches('\n');
            let want = assemble(format!("{body}{last}\n").as_bytes())?;
            for t in Site::Trail.options() {
                for c in Site::Comment.options() {
                    for e in ["", "\n", "\r\n", "\n ", "\n\t", "\n;", "\n; x", "\n\n", "\r\n\r\n"] {
                        w.executed(1);
                        same(w, &format!("{body}{last}{t}{c}{e}"), &want)?;
                        let crlf = format!("{body}{last}{t}{c}").replace('\n', "\r\n");
                        same(w, &format!("{crlf}{e}"), &want)?;
                    }
                }
            }
            Ok(())
        });
    }
    // one layout up to a line of a long program, and another one from there on
    {
        let outer: Vec<String> = closed(mixed(2, true)).into_iter().map(|l| l.text.trim_end_matches('\r').to_string()).collect();
        let opts: [(&str, &str); 10] = [("", "\n"), ("\t", "\n"), ("  ", " \n"), ("", "\t;c\n"), ("", ";\"x\n"), ("", "\r\n"), ("\n", "\n"), (" ; \"\n", "\n"), ("\r\n", "\r\n"), ("\t\n\n", " \t; x:\r\n")];
        let plain: String = outer.iter().map(|l| format!("{l}\n")).collect();
        for o in 0..opts.len() {
            for q in 0..opts.len() {
                for lo in (0..=outer.len()).step_by(24) {
                    w.case("layout changes", || format!("layout {:?} before and {:?} from each of 24 lines from {lo} of a long program", opts[o], opts[q]), |w| {
                        let want = assemble(plain.as_bytes())?;
                        let ends = (lo + 24).min(outer.len() + 1);
                        for at in lo..ends {
                            if o == q && at > 0 {
                                continue;
                            }
                            let s: String = outer.iter().enumerate().map(|(i, l)| { let (a, b) = opts[if i < at { o } else { q }]; format!("{a}{l}{b}") }).collect();
                            w.executed(1);
                            same(w, &s, &want)?;
                            // and only that line
                            if at < outer.len() {
                                let s: String = outer.iter().enumerate().map(|(i, l)| { let (a, b) = opts[if i != at { o } else { q }]; format!("{a}{l}{b}") }).collect();
                                w.executed(1);
                                same(w, &s, &want)?;
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    // comments and blanks behind strings of every kind of character
    for c in (1u32..0x250).chain((0x250..0x3000).step_by(37)).chain([0x3042, 0x3000, 0x2028, 0x85, 0xfeff, 0x1f600, 0xffff, 0x10000, 0x10ffff]).filter_map(char::from_u32).filter(|c| !"\r\n\"".contains(*c)) {
        w.case("behind strings", || format!("layout behind strings with {c:?}"), |w| {
            for n in [1usize, 2, 3, 8] {
                let t = String::from(c).repeat(n);
                let lines = [format!("db \"{t}\", 7"), format!("x dw 2, \"a{t}b\", \"{t}\""), format!("dq \";{t};\""), format!("y dd \"{t}\"")];
                let want = assemble(lines.iter().map(|l| format!("{l}\n")).collect::<String>().as_bytes())?;
                for end in [" ", "\t", ";c", " ; c", ";\"", "\t;\u{e9}\";\u{3042}", "\r", " ; x\r"] {
                    w.executed(1);
                    same(w, &lines.iter().map(|l| format!("{l}{end}\n")).collect::<String>(), &want)?;
                }
                w.executed(1);
                same(w, &lines.iter().map(|l| format!("; {t}\"\n\t{}\n", l.replace(", ", "\t,\t"))).collect::<String>(), &want)?;
            }
            Ok(())
        });
    }
    // the empty program
    w.case("no lines at all", || "only blanks and comments".into(), |w| {
        let want = assemble(b"")?;
        for s in ["\n", " ", "\t\n", ";", "; x\n", "\r\n", "\n\n;\n", " ; \"\r\n\n"] {
            w.executed(1);
            same(w, s, &want)?;
        }
        Ok(())
    });
    // words that mean something elsewhere
    let words: Vec<&str> = super::diag::FOREIGN
        .split_whitespace()
        .chain("vim: ex: -*- emacs TODO FIXME XXX NOLINT nolint pragma #pragma @ignore ignore @line line 5 region endregion syntax: intel att nasm masm skip stop END __END__ __DATA__ ^Z --8<-- snip encoding: coding: utf-8 latin1 #! !/bin/sh a: b: x: a b x rax ret; mov; global; \\ \\\\ + - \" \"\" \"; ;\" , ,, 0 1 0x".split_whitespace())
        .chain(["section .data", "section .bss", "section .text", "global a", "global x", "db 1", "x db 1", "mov rax, 1", "ret", "line 1", "# 1 \"a.c\"", "#line 7", "end of file", "if 0", "a: ret", "-*- mode: asm -*-", "vim: set ft=nasm:"])
        .collect();
    for part in words.chunks(8) {
        w.case("comment words", || format!("{part:?} in comments behind and before every kind of line"), |w| {
            for x in part {
                for t in [format!(";{x}"), format!("; {x}"), format!("\t;; {x} {x} a, 1"), format!(" ; c {x}")] {
                    w.executed(3);
                    let s: String = plain.lines().map(|l| format!("{l}{t}\n")).collect();
                    same(w, &s, &want)?;
                    let s: String = plain.lines().map(|l| format!("{t}\n{l}\n")).collect();
                    same(w, &s, &want)?;
                    same(w, &format!("{t}\n{plain}{t}"), &want)?;
                }
            }
            Ok(())
        });
    }
    // long runs of blanks and long comments
    // every character in a comment
    for c in (1u32..0x250).chain([0x3000, 0x2028, 0x85, 0xfeff, 0x1f600]).filter_map(char::from_u32).filter(|c| !"\r\n".contains(*c)) {
        w.case("comment characters", || format!("{c:?} in comments behind every kind of line"), |w| {
            for t in [format!(";{c}"), format!(" ; {c}"), format!(";{c}{c} a{c}b \"{c}"), format!("\t;;{c}:"), format!("; x, 1 {c}")] {
                let s: String = plain.lines().map(|l| format!("{l}{t}\n")).collect();
                w.executed(2);
                same(w, &s, &want)?;
                let s: String = plain.lines().map(|l| format!("{t}\n{l}\n")).collect();
                same(w, &s, &want)?;
                same(w, &format!("{plain}{t}"), &want)?;
            }
            Ok(())
        });
    }
    for n in (1usize..=300).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 8190, 8191, 8192, 8193, 20000, 65535, 65536, 70000]) {
        w.case("long layouts", || format!("{n} blanks or comment characters at each place"), |w| {
            let b = " ".repeat(n);
            let t = "\t".repeat(n);
            let c = format!(";{}", "c\"".repeat(n / 2 + 1));
            let want = assemble(b"a:\nmov rax, 1 + 2\nx db 1, \"z\"\n")?;
            for s in [
                format!("{b}a:{t}\n{t}mov{b}rax{t},{b}1{t}+{b}2{t}\n{b}x{t}db{b}1{t},{b}\"z\"{b}\n"),
                format!("a:{c}\nmov rax, 1 + 2 {c}\nx db 1, \"z\"{c}\n{c}"),
                format!("{}a:\n{}mov rax, 1 + 2\n{}x db 1, \"z\"\n", "\n".repeat(n), "\r\n".repeat(n), ";\n".repeat(n)),
            ] {
                w.executed(1);
                same(w, &s, &want)?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- A07
fn kind(s: &macho::Sect) -> usize {
    SECT.iter().position(|(a, b)| *a == s.sectname && *b == s.segname).unwrap()
}
/// The contents of the sections when the object is linked with them at the given addresses.
pub fn image(o: &Obj, bases: [u64; 3]) -> Result<Vec<Vec<u8>>, String> {
    let mut img: Vec<Vec<u8>> = vec![vec![]; 3];
    for s in &o.sects {
        let mut b = s.data.clone();
        for r in &s.relocs {
            if r.pcrel || !r.ext || r.ty != 0 {
                return Err(format!("relocation {r:?} is not an absolute external one"));
            }
            let y = &o.syms[r.symnum as usize];
            let Some(ys) = (y.sect as usize).checked_sub(1).and_then(|i| o.sects.get(i)) else {
                return Err(format!("relocation of {} that has no section", y.name));
            };
            let addr = bases[kind(ys)].wrapping_add(y.value.wrapping_sub(ys.addr));
            let n = 1usize << r.len;
            let at = r.addr as usize;
            if r.addr < 0 || at + n > b.len() {
                return Err(format!("relocation at {} reaches outside {}", r.addr, s.sectname));
            }
            let mut v = 0u64;
            for k in (0..n).rev() {
                v = v << 8 | b[at + k] as u64;
            }
            v = v.wrapping_add(addr);
            b[at..at + n].copy_from_slice(&v.to_le_bytes()[..n]);
        }
        img[kind(s)] = b;
    }
    Ok(img)
}
/// Links the object with its sections at the given addresses and checks every symbolic operand.
pub fn link(o: &Obj, lay: &Layout, bases: [u64; 3]) -> Result<(), String> {
    let mut img = image(o, bases)?;
    for (k, off, len, sym) in &lay.uses {
        let (_, sk, so) = lay.labels.iter().find(|l| l.0 == *sym).ok_or_else(|| format!("{sym} is not placed"))?;
        let want = bases[*sk].wrapping_add(*so);
        let got = &img[*k][*off..*off + *len];
        if got != &want.to_le_bytes()[..*len] {
            return Err(format!(
                "linked at {bases:x?}, the use of {sym} in {} at {off:#x} holds [{}], the label is at {want:#x}",
                SECT[*k].0, hex(got)
            ));
        }
        // the whole field is the operand: erase it for the comparison below
        img[*k][*off..*off + *len].fill(0x5a);
    }
    for s in &o.sects {
        let k = kind(s);
        let mut b = s.data.clone();
        for (uk, off, len, _) in &lay.uses {
            if *uk == k {
                b[*off..*off + *len].fill(0x5a);
            }
        }
        if b != img[k] {
            return Err(format!("linking changed bytes of {} that are no symbolic operand", s.sectname));
        }
    }
    Ok(())
}
const BASES: [[u64; 3]; 6] = [
    [0, 0, 0],
    [0x1000, 0x2000, 0x3000],
    [0x7fff_0000, 0x1_0000, 0x8000_0000],
    [0x1_0000_0000, 0x7fff_ffff_f000, 0x1234_5678_9000],
    [0xfedc_ba98, 0x0102_0304, 0xffff_0000],
    [0xffff_8000_0000_0000, 0x00ff_00ff_00ff_0000, 0x1_0000_0001],
];
fn linked(w: &mut W, src: &str, m: &Model) -> Result<(), String> {
    let (_, o, lay) = conform(w, src, m)?;
    for b in BASES {
        let narrow = lay.uses.iter().any(|u| u.2 == 4);
        if narrow && b.iter().any(|x| *x > 0xffff_ffff - 0x1000_0000 && *x > 0xffff_0000) {
            continue;
        }
        w.executed(1);
        link(&o, &lay, b).map_err(|e| format!("{e}\n  {}", show(src)))?;
    }
    Ok(())
}

pub fn a07_alphabet() -> Vec<Line> {
    vec![
        section(TEXT),
        section(DATA),
        section(BSS),
        label("a"),
        label("ab"),
        db(Some("b"), &[9]),
        movsym(64, 0, "a"),
        movsym(64, 9, "ab"),
        movsym(32, 6, "b"),
        movsym(32, 12, "a"),
        db(None, &[1, 2, 3]),
        line("ret", Sem::Insn(Effect::Ret)),
        global("ab"),
    ]
}

fn a07(w: &mut W) {
    let th = w.thorough();
    let alpha = a07_alphabet();
    programs(w, "programs", &alpha, if th { 6 } else { 5 }, 2, &|w, t, m, _| {
        if m.secs.iter().any(|s| s.pieces.iter().any(|p| matches!(p, Piece::Sym { .. }))) {
            linked(w, t, m)
        } else {
            Ok(())
        }
    });
    // registers, places and orders
    for width in [64u8, 32] {
        for r in 0..16 {
            w.case("registers and places", || format!("{width}-bit register {r}, label and use in every section and order"), |w| {
                for us in [TEXT, DATA] {
                    for ls in [TEXT, DATA, BSS] {
                        for before in [true, false] {
                            for pad in [0usize, 1, 7, 130] {
                                let mut p = vec![section(BSS), label("m0"), section(DATA)];
                                let def = |p: &mut Vec<Line>| {
                                    p.push(section(ls));
                                    if ls != BSS && pad > 0 {
                                        p.push(db(None, &vec![0x90; pad]));
                                    }
                                    p.push(label("target"));
                                };
                                if before {
                                    def(&mut p);
                                }
                                p.push(section(us));
                                p.push(label("m1"));
                                p.push(push_imm(1));
                                p.push(movsym(width, r, "target"));
                                p.push(push_imm(2));
                                p.push(movsym(width, 15 - r, "m1"));
                                if !before {
                                    def(&mut p);
                                }
                                p.push(section(DATA));
                                p.push(db(Some("tail"), &[1, 2, 3]));
                                let m = Model::of(&p);
                                w.state(&m);
                                linked(w, &text_of(&p), &m)?;
                            }
                        }
                    }
                }
                Ok(())
            });
        }
    }
    // long programs
    for (n, ahead, step) in [(2usize, false, 1usize), (2, true, 1), (3, false, if th { 3 } else { 37 }), (3, true, if th { 3 } else { 37 })] {
        let ls = mixed(n, ahead);
        let per = 12;
        for lo in (1..=ls.len()).step_by(per * step) {
            w.case("mixed programs", || format!("every {step}. beginning from {lo} lines on of a program in which every {n} kinds of lines follow one another, labels ahead: {ahead}"), |w| {
                for to in (lo..lo + per * step).step_by(step).filter(|&t| t <= ls.len()) {
                    let p = closed(ls[..to].to_vec());
                    w.state(&(n, ahead, to));
                    w.executed(1);
                    linked(w, &text_of(&p), &Model::of(&p))?;
                }
                Ok(())
            });
        }
    }
    // names
    let names = ["a", "b", "aa", "ab", "ba", "abc", "bc", "_a", "a_", "a1", "A", "a.b", ".a", "a$", "aaa", "_main", "main", "_main2", "rax1", "raxx", "xrax", "movx", "_mov", "db1", "_", "é", "あ"];
    for (i, a) in names.iter().enumerate() {
        for (j, b) in names.iter().enumerate() {
            if i == j || !a.is_ascii() || !b.is_ascii() {
                continue;
            }
            w.case("names", || format!("labels {a:?} and {b:?}"), |w| {
                for (sa, sb) in [(TEXT, TEXT), (TEXT, DATA), (DATA, TEXT), (BSS, DATA), (DATA, BSS)] {
                    let mut p = vec![section(sa), label(a)];
                    if sa != BSS {
                        p.push(db(None, &[1, 1, 1]));
                    }
                    p.extend([section(sb), label(b)]);
                    if sb != BSS {
                        p.push(db(Some("zz"), &[2]));
                    }
                    p.extend([section(TEXT), movsym(64, 2, b), movsym(64, 10, a), movsym(32, 3, b), global(a)]);
                    let m = Model::of(&p);
                    w.state(&m);
                    linked(w, &text_of(&p), &m)?;
                }
                Ok(())
            });
        }
    }
    for c in (33u8..127).map(|c| c as char).filter(|c| c.is_ascii_alphanumeric() || "_.$".contains(*c)) {
        w.case("name characters", || format!("{c:?} inside and at the end of a name"), |w| {
            let p = [label(&format!("n{c}")), push_imm(1), label(&format!("n{c}n")), push_imm(2), label("n"), movsym(64, 1, &format!("n{c}n")), movsym(64, 2, &format!("n{c}")), movsym(32, 2, "n"), global(&format!("n{c}"))];
            let m = Model::of(&p);
            w.state(&m);
            linked(w, &text_of(&p), &m)
        });
    }
    for n in (1usize..=if th { 600 } else { 140 }).chain([250, 255, 256, 257, 258, 300, 512, 513, 700, 1024, 1025]) {
        for mixed in [false, true] {
            w.case("many names alike", || format!("{n} labels of which many are alike, each used, mixed: {mixed}"), |w| {
                for x in 0..4 {
                    let p = many_alike(n, mixed, [6, 1, 3, 0][x], x, true);
                    let m = Model::of(&p);
                    w.state(&m);
                    w.executed(1);
                    linked(w, &text_of(&p), &m)?;
                }
                Ok(())
            });
        }
    }
    for n in [1usize, 2, 10, 100, 254, 255, 256, 257, 300, 600] {
        for p in 0..3 {
            w.case("symbol counts", || format!("{n} labels and uses, pattern {p}"), |w| {
                let mut ls = vec![];
                for i in 0..n {
                    ls.push(section(if p == 0 { TEXT } else { i % 3 }));
                    ls.push(label(&if p == 2 { "l".repeat(i + 1) } else { format!("l{i}") }));
                    if p == 0 || i % 3 != 2 {
                        ls.push(db(None, &[i as u8, 1, 2][..1 + i % 3]));
                    }
                }
                ls.push(section(if p == 1 { DATA } else { TEXT }));
                for i in 0..n {
                    let k = (i * 7) % n;
                    ls.push(movsym(if i % 2 == 0 { 64 } else { 32 }, i % 16, &if p == 2 { "l".repeat(k + 1) } else { format!("l{k}") }));
                }
                let m = Model::of(&ls);
                w.state(&m);
                linked(w, &text_of(&ls), &m)
            });
        }
    }
    for n in [0usize, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 70000, 1 << 20] {
        for k in [TEXT, DATA] {
            w.case("distances", || format!("label and use behind {n} bytes of {}", SECT[k].0), |w| {
                let mut ls = vec![section(k)];
                if n > 0 {
                    ls.push(data(None, 0, &[&format!("\"{}\"", "p".repeat(n))]));
                }
                ls.extend([label("far"), movsym(64, 1, "far"), movsym(32, 9, "end"), label("end"), section(TEXT), movsym(64, 3, "end")]);
                let m = Model::of(&ls);
                w.state(&m);
                linked(w, &text_of(&ls), &m)
            });
        }
    }
    for n in wordlike() {
        w.case("names like words", || format!("label {n:?} as label, data label, export and operand"), |w| {
            for k in 0..3 {
                let p = named(&n, k);
                let m = Model::of(&p);
                w.state(&m);
                linked(w, &text_of(&p), &m)?;
            }
            Ok(())
        });
    }
    for part in affix_names().chunks(20) {
        w.case("names with affixes", || format!("{part:?} next to all names they begin and end with"), |w| {
            for n in part {
                for order in 0..2 {
                    let p = affixed(n, order, order);
                    let m = Model::of(&p);
                    w.state(&m);
                    w.executed(1);
                    linked(w, &text_of(&p), &m)?;
                }
            }
            Ok(())
        });
    }
    for n in name_lengths(th) {
        w.case("long names", || format!("two labels of about {n} characters that differ in one place or in length, in every order"), |w| {
            for (a, b) in twins(n) {
                for (a, b) in [(&a, &b), (&b, &a)] {
                    for (sa, sb) in [(TEXT, TEXT), (TEXT, DATA), (BSS, DATA)] {
                        let mut p = vec![section(sa), label(a)];
                        if sa != BSS {
                            p.push(db(None, &[1, 1, 1]));
                        }
                        p.extend([section(sb), label(b), section(TEXT), movsym(64, 2, b), movsym(32, 10, a), global(a)]);
                        let m = Model::of(&p);
                        w.state(&m);
                        linked(w, &text_of(&p), &m)?;
                    }
                }
            }
            Ok(())
        });
    }
}

/// Names that begin, end or are spelled like words of the language.
fn wordlike() -> Vec<String> {
    use crate::x86::{R16, R32, R64, R8};
    let mut words: Vec<&str> = vec!["mov", "push", "pop", "ret", "syscall", "section", "global", "db", "dw", "dd", "dq", "text", "data", "bss", "lea", "extern", "align", "resb", "equ", "times"];
    words.extend(R64);
    words.extend(R32);
    words.extend(R16);
    words.extend(R8);
    let mut v = vec![];
    for x in words {
        for n in [format!("{x}_"), format!("_{x}"), format!("{x}x"), format!("x{x}"), format!("{x}_1"), format!("l_{x}_r"), format!("{x}{x}"), format!("{x}0"), format!("q_{x}")] {
            if !reserved(&n) && !R8.contains(&&n[..]) && !v.contains(&n) {
                v.push(n);
            }
        }
    }
    // register names of other spellings may become registers
    let numbered = |n: &str| n.strip_prefix('r').map_or(false, |r| r.trim_end_matches(|c: char| "bwdl".contains(c)).parse::<u32>().is_ok());
    v.retain(|n| !numbered(n));
    v
}
/// Every name of one or two characters, and names with the prefixes and suffixes that tools give a meaning.
pub fn affix_names() -> Vec<String> {
    let first: Vec<char> = (33u8..127).map(|c| c as char).filter(|c| c.is_ascii_alphabetic() || "_.$".contains(*c)).collect();
    let mut v: Vec<String> = first.iter().map(|c| c.to_string()).collect();
    for a in &first {
        for b in (33u8..127).map(|c| c as char).filter(|c| c.is_ascii_alphanumeric() || "_.$".contains(*c)) {
            v.push(format!("{a}{b}"));
        }
    }
    let affixes = [
        "_", "__", "___", "L", "L.", ".L", "l", "l.", ".l", "ltmp", "Ltmp", "LBB", "LBB0_", "L_", "l_", "LC", ".LC", "Lfunc_begin", "loc_", "sub_", "str_", "_main", "main", "_start", "start", "_GLOBAL_", "GLOBAL__", "_OBJC_", "OBJC_CLASS_$_", "_OBJC_CLASS_$_",
        "_$s", "$s", "$S", "_T0", "__Z", "_Z", "__ZN", "_ZN", "_R", "_RN", "anon.", ".Lanon.", "_$", "$", "$$", ".", "..", "..$", "__text", "__data", "__bss", "__TEXT", "__DATA", ".text", ".data", ".bss", "__mh_", "_mh_", "___mh_", "dyld_", "_dyld_",
        "section$start$", "segment$end$", "global", "local", "extern", "weak_", "hidden_", "private_", "static_", "const_", "abs_", "undef_", "rel_", "pc_", "rip", "rel", "abs", "ptr", "byte", "word", "dword", "qword", "offset", "near", "far", "short", "long",
        "st0", "mm0", "xmm0", "cr0", "dr0", "cs", "eflags", "0x", "0b", "0", "1", "00", "e", "x", "h", "b", "d", "o", "q", "u", "ull", "_t", "_s", "_end", "_len", "_size", ".end", "$end", "$1", ".1", ".0", "_0", "_1", "1_", "0_", ".llvm.1", "$lazy", "_ptr", ".eh", "_fini", "init", "_init", "__init", "_cold", ".cold", ".cold.", ".part.", ".isra.", ".constprop.", "@plt", "@PLT", "@GOT", "@GOTPCREL", "@TLVP", "@@", "@1", "#", "?", "??_", "?$", "~", ".part.0", "$UNIX2003", "$DARWIN_EXTSN",
    ];
    for x in affixes {
        for body in ["x", "main", "a1"] {
            for n in [format!("{x}{body}"), format!("{body}{x}"), format!("{x}"), format!("{body}{x}{body}")] {
                v.push(n);
            }
        }
    }
    // names that are nearly those of registers
    for a in ["r", "e", ""] {
        for b in 'a'..='z' {
            for c in 'a'..='z' {
                v.push(format!("{a}{b}{c}"));
            }
        }
    }
    for n in 0..=130 {
        for (a, z) in [("r", ""), ("r0", ""), ("r00", ""), ("R", ""), ("x", ""), ("e", ""), ("reg", ""), ("r_", ""), ("r", "x"), ("r", "e"), ("r", "q"), ("r", "h"), ("r", "b"), ("r", "w"), ("r", "d"), ("r", "l"), ("r", "_"), ("r", "0"), ("r0", "d"), ("r0", "w"), ("r", "D"), ("r", "W"), ("r", "ww"), ("r", "dd"), ("r", "wd"), ("r", "xd")] {
            v.push(format!("{a}{n}{z}"));
        }
    }
    for r in crate::x86::R64.iter().chain(&crate::x86::R32).chain(&crate::x86::R16).chain(&["mov", "push", "ret", "syscall", "section", "global", "db", "dw", "dd", "dq"]) {
        let t: String = r.chars().rev().collect();
        let first = format!("{}{}", r[..1].to_ascii_uppercase(), &r[1..]);
        v.extend([r.to_ascii_uppercase(), first, t, r[1..].to_string(), r[..r.len() - 1].to_string()]);
        for x in ["_", ".", "$", "x", "r", "e", "l", "b", "w", "d", "q", "h", "0", "1", "8", "64", "32", "16"] {
            v.extend([format!("{r}{x}"), format!("{x}{r}")]);
        }
    }
    v.retain(|n| may_be_name(n));
    v.sort();
    v.dedup();
    v
}
/// Names that the language cannot mean anything else by.
fn may_be_name(n: &str) -> bool {
    // the numbered registers, also those of eight bits
    let numbered = n.strip_prefix('r').map_or(false, |r| (8..=15).any(|i| ["", "b", "w", "d", "l"].iter().any(|x| r == format!("{i}{x}"))));
    !n.is_empty() && !n.starts_with(|c: char| c.is_ascii_digit()) && n.chars().any(|c| c.is_ascii_alphanumeric()) && !reserved(n) && !crate::x86::R8.contains(&n) && !numbered
}
/// A program with the name and with all names it begins or ends with, exported or not, each used.
fn affixed(n: &str, order: usize, exports: usize) -> Vec<Line> {
    let mut others: Vec<String> = (1..n.len()).flat_map(|i| [n[i..].to_string(), n[..i].to_string()]).collect();
    others.extend([n.to_ascii_uppercase(), n.to_ascii_lowercase(), format!("_{n}"), format!("{n}_")]);
    others.retain(|o| o != n && may_be_name(o));
    others.sort();
    others.dedup();
    let mut p = vec![];
    if exports & 1 != 0 {
        p.push(global(n));
    }
    let own = |p: &mut Vec<Line>| p.extend([section(TEXT), label(n), line("ret", Sem::Insn(Effect::Ret))]);
    if order == 0 {
        own(&mut p);
    }
    for (i, o) in others.iter().enumerate() {
        p.push(section(i % 3));
        if i % 3 == DATA && i % 2 == 0 {
            p.push(db(Some(o), &[i as u8]));
        } else {
            p.push(label(o));
            if i % 3 != BSS {
                p.push(db(None, &[7]));
            }
        }
    }
    if order == 1 {
        own(&mut p);
    }
    if exports & 2 != 0 {
        p.extend(others.iter().map(|o| global(o)));
    }
    p.push(section(TEXT));
    for (i, o) in others.iter().enumerate() {
        p.push(movsym(if i % 2 == 0 { 64 } else { 32 }, i % 16, o));
        if i % 3 == 0 {
            p.push(movsym(64, 1, n));
        }
    }
    p.push(movsym(64, 9, n));
    p
}
/// A program that uses the name in every way.
fn named(n: &str, kind: usize) -> Vec<Line> {
    let mut p = vec![label("first"), line("ret", Sem::Insn(Effect::Ret))];
    match kind {
        0 => p.extend([label(n), movsym(64, 9, n), movsym(32, 1, n), global(n)]),
        1 => p.extend([global(n), section(DATA), db(Some(n), &[1, 2]), db(None, &[3]), section(TEXT), movsym(32, 8, n), movsym(64, 0, n)]),
        _ => p.extend([movsym(64, 3, n), movsym(64, 3, "first"), section(BSS), label(n), label("last"), section(DATA), movsym(32, 3, n)]),
    }
    p
}

/// Pairs of names of `n` characters and about as many that differ in one place, in case, or in length.
pub fn twins(n: usize) -> Vec<(String, String)> {
    let base: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
    let mut v = vec![];
    let mut at = vec![0, n / 2, n - 1];
    at.dedup();
    for i in at {
        for c in ['z', '_', base[i..].chars().next().unwrap().to_ascii_uppercase()] {
            let mut o = base.clone();
            o.replace_range(i..i + 1, &c.to_string());
            v.push((base.clone(), o));
        }
    }
    v.push((base.clone(), format!("{base}z")));
    v.push((base.clone(), format!("_{base}")));
    v.push((base.clone(), base.repeat(2)));
    if n > 1 {
        v.push((base.clone(), base.chars().rev().collect()));
        v.push(("x".repeat(n), "x".repeat(n - 1)));
    }
    v.retain(|(a, b)| a != b && ![a, b].iter().any(|x| reserved(x)));
    v
}
fn reserved(x: &str) -> bool {
    use crate::x86::{R16, R32, R64};
    [R64, R32, R16].iter().any(|r| r.contains(&x)) || matches!(x, "mov" | "push" | "ret" | "syscall" | "section" | "global" | "db" | "dw" | "dd" | "dq")
}
/// n names of which many are nearly alike, one kind behind the other or mixed.
fn alike(n: usize, mixed: bool) -> Vec<String> {
    let forms: [&dyn Fn(&str) -> String; 12] = [
        &|s| s.into(),
        &|s| format!("{s}_"),
        &|s| format!("_{s}"),
        &|s| s.to_ascii_uppercase(),
        &|s| format!("{s}{s}"),
        &|s| format!("{s}0"),
        &|s| format!("{s}."),
        &|s| format!(".{s}"),
        &|s| format!("${s}"),
        &|s| format!("{s}x"),
        &|s| format!("__{s}"),
        &|s| s.replacen('n', "n0", 1),
    ];
    let stems = (n + 11) / 12;
    let mut v: Vec<String> = vec![];
    for i in 0..stems * 12 {
        let (k, f) = if mixed { (i % stems, i / stems) } else { (i / 12, i % 12) };
        v.push(forms[f](&format!("n{}q", k + 1)));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.clone()));
    v.truncate(n);
    v
}
/// A program with a label for each of many names that are nearly alike, exports by a pattern, and uses.
fn many_alike(n: usize, mixed: bool, pattern: usize, place: usize, uses: bool) -> Vec<Line> {
    let names = alike(n, mixed);
    let n = names.len();
    let out = |i: usize| match pattern {
        0 => true,
        1 => i % 2 == 0,
        2 => i % 12 != 1,
        3 => i % 12 == 1 || i == n / 2,
        4 => i < n / 2,
        5 => i == n - 1,
        _ => false,
    };
    let mut p: Vec<Line> = vec![];
    let exports = |p: &mut Vec<Line>, back: bool| {
        for i in 0..n {
            let i = if back { n - 1 - i } else { i };
            if out(i) {
                p.push(global(&names[i]));
            }
        }
    };
    if place == 0 || place == 3 {
        exports(&mut p, false);
    }
    for (i, x) in names.iter().enumerate() {
        if place == 1 && out(i) {
            p.push(global(x));
        }
        p.push(section([TEXT, DATA, TEXT, BSS][i % 4]));
        p.push(label(x));
        if i % 4 != 3 && i % 3 != 0 {
            p.push(db(None, &[i as u8]));
        }
    }
    if uses {
        p.push(section(TEXT));
        for i in 0..n {
            p.push(movsym(if i % 2 == 0 { 64 } else { 32 }, i % 16, &names[(i * 7 + 3) % n]));
        }
    }
    if place >= 2 {
        exports(&mut p, true);
    }
    p
}
fn name_lengths(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=if th { 1100 } else { 300 }).collect();
    v.extend([511usize, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537]);
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------- A08
fn a08(w: &mut W) {
    let th = w.thorough();
    let alpha = vec![
        section(TEXT),
        section(DATA),
        section(BSS),
        label("a"),
        label("ab"),
        label("b"),
        db(Some("x"), &[1]),
        global("a"),
        global("ab"),
        global("x"),
        global("zz"),
        line("ret", Sem::Insn(Effect::Ret)),
    ];
    programs(w, "programs", &alpha, if th { 7 } else { 6 }, 3, &|w, t, m, _| conform(w, t, m).map(|_| ()));
    let names = ["a", "aa", "ab", "b", "_a", "a_", "A", "ba"];
    for mask in 0..256usize {
        for place in 0..4 {
            w.case("subsets", || format!("exports {mask:#b} of {names:?}, placement {place}"), |w| {
                let mut ls = vec![];
                let ex = |ls: &mut Vec<Line>, keep: &dyn Fn(usize) -> bool| {
                    for i in 0..8 {
                        if mask >> i & 1 == 1 && keep(i) {
                            ls.push(global(names[i]));
                        }
                    }
                };
                if place == 0 || place == 3 {
                    ex(&mut ls, &|_| true);
                }
                if place == 2 {
                    ex(&mut ls, &|i| i % 2 == 0);
                }
                for (i, n) in names.iter().enumerate() {
                    ls.push(section(i % 3));
                    ls.push(label(n));
                    if i % 3 != 2 {
                        ls.push(db(Some(&format!("d{i}")), &[i as u8]));
                    }
                }
                if place == 1 || place == 3 {
                    ex(&mut ls, &|_| true);
                }
                if place == 2 {
                    ex(&mut ls, &|i| i % 2 == 1);
                }
                let m = Model::of(&ls);
                w.state(&m);
                conform(w, &text_of(&ls), &m).map(|_| ())
            });
        }
    }
    for part in affix_names().chunks(20) {
        w.case("names with affixes", || format!("{part:?} exported or not, next to all names they begin and end with"), |w| {
            for n in part {
                for x in 0..8 {
                    let p = affixed(n, x & 1, x >> 1);
                    let m = Model::of(&p);
                    w.state(&m);
                    w.executed(1);
                    conform(w, &text_of(&p), &m)?;
                }
            }
            Ok(())
        });
    }
    for n in (1usize..=if th { 600 } else { 140 }).chain([250, 255, 256, 257, 258, 300, 512, 513, 700, 1024, 1025]) {
        for mixed in [false, true] {
            w.case("many names alike", || format!("{n} names of which many are alike, mixed: {mixed}, every pattern and place of exports"), |w| {
                for x in 0..28 {
                    let p = many_alike(n, mixed, x / 4, x % 4, false);
                    let m = Model::of(&p);
                    w.state(&m);
                    w.executed(1);
                    conform(w, &text_of(&p), &m)?;
                }
                Ok(())
            });
        }
    }
    for n in (1usize..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 400, 1000, 1024, 2500]) {
        for p in 0..4 {
            w.case("export counts", || format!("{n} labels, export pattern {p}"), |w| {
                let mut ls = vec![];
                for i in 0..n {
                    if p == 0 || (p == 1 && i % 2 == 0) {
                        ls.push(global(&format!("l{i}")));
                    }
                    ls.push(section(i % 3));
                    ls.push(label(&format!("l{i}")));
                    if p == 2 && i % 3 == 0 {
                        ls.push(global(&format!("l{}", n - 1 - i)));
                    }
                    if p == 3 {
                        ls.push(global("l0"));
                        ls.push(global(&format!("u{i}")));
                    }
                }
                let m = Model::of(&ls);
                w.state(&m);
                conform(w, &text_of(&ls), &m).map(|_| ())
            });
        }
    }
    for n in name_lengths(th) {
        w.case("long names", || format!("two labels of about {n} characters that differ in one place or in length, every set of exports before and after"), |w| {
            for (a, b) in twins(n) {
                for x in 1..16usize {
                    let mut p = vec![];
                    for (i, g) in [&a, &b].iter().enumerate() {
                        if x >> i & 1 == 1 {
                            p.push(global(g));
                        }
                    }
                    p.extend([section(x % 3), label(&a), section(TEXT), line("ret", Sem::Insn(Effect::Ret)), section(x / 4 % 3), label(&b)]);
                    for (i, g) in [&a, &b].iter().enumerate() {
                        if x >> (i + 2) & 1 == 1 {
                            p.push(global(g));
                        }
                    }
                    let m = Model::of(&p);
                    w.state(&m);
                    conform(w, &text_of(&p), &m)?;
                }
            }
            Ok(())
        });
    }
}
