//! A12: whatever the source is, assembling it ends in an object or in a refusal.
use crate::fw::*;
use crate::macho;
use super::cli::Box_;
use std::cell::RefCell;
use at_asm::Assembler;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "A12",
        level: "model_checking",
        run: a12,
        bounds: |t| {
            let th = t == Tier::Thorough;
            format!(
                "every byte string of up to 2 bytes; every string of 3 bytes over {}, of 4 over {} and of 5 over {} bytes that matter to the parser; every single-byte edit (insertion and replacement by {} values, removal), every removal and {} of a byte range of a program with every kind of line; {} repeated 1 to 10^6 times in 6 places; lines of 2^8 to 2^20 characters of 18 kinds; malformed last lines and ends behind 0 to 1100 lines; 6 sources at three times more than a second apart, under other names, in other folders and with other time stamps; every input run twice in processes of their own, and the long ones through the debug build of the tool as well",
                if th { "96" } else { "24" },
                if th { 24 } else { 12 },
                if th { 12 } else { 8 },
                if th { 256 } else { 40 },
                if th { "every doubling" } else { "every doubling of up to 8 bytes" },
                "22 fragments"
            )
        },
        assumptions: &["an assembly that takes more than 30 s of processor time for at most 2^23 bytes is counted as one that does not end"],
    }]
}

const SEED: &str = "global a\nsection .text\na:\n mov rax, 60 ; c\n\tmov r9d, 0x1f+2\npush 300\npush rbx\nret\nsyscall\nmov rdi, s\r\nsection .data\ns db 1, \"x;y\", 0\ndw 7\nq dq \"\",9\nsection .bss\nz:\n";

fn once(w: &mut W, src: &[u8]) -> Ended {
    w.forked(|| {
        let mut a = Assembler::new();
        a.read_from(&mut &src[..]);
        let mut out = vec![];
        a.write_into(&mut out);
        out
    })
}

fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(300).flat_map(|c| std::ascii::escape_default(*c)).map(|c| c as char).collect();
    if b.len() > 300 { format!("\"{s}\"… ({} bytes)", b.len()) } else { format!("\"{s}\"") }
}

fn ends(w: &mut W, src: &[u8]) -> Result<(), String> {
    let fail = |m: String| Err(format!("{m}\n  source {}", show(src)));
    w.note(|| show(src));
    w.state(src);
    w.transitions += 2;
    w.executed(2);
    let e = once(w, src);
    match &e.end {
        End::Returned(o) => {
            let p = match macho::parse(o) {
                Ok(p) => p,
                Err(m) => return fail(format!("accepted, but the output is not readable: {m}")),
            };
            if let Err(m) = macho::well_formed(o, &p) {
                return fail(format!("accepted, but the output is malformed: {m}"));
            }
        }
        End::Exited(0) => return fail("the run ends itself with status 0 and without an object".into()),
        End::Exited(_) if e.stderr.trim().is_empty() => return fail("refused without a word".into()),
        End::Exited(_) | End::Panicked(_) => w.refused += 1,
        End::Killed(s) => return fail(format!("neither an object nor a refusal: ended by signal {s}")),
    }
    w.outcome(&(format!("{:?}", e.end), &e.stderr));
    let f = once(w, src);
    if f.end != e.end || f.stderr != e.stderr {
        let tell = |e: &Ended| match &e.end {
            End::Returned(o) => format!("an object of {} bytes", o.len()),
            x => format!("{} {:?}", clip(&format!("{x:?}"), 200), clip(&e.stderr, 200)),
        };
        return fail(format!("two runs on the same source end differently: {} and {}", tell(&e), tell(&f)));
    }
    Ok(())
}

/// Many sources in one case: `n` of them, built by number.
fn batch(w: &mut W, fam: &str, what: &str, n: usize, per: usize, mk: &dyn Fn(usize) -> Vec<u8>) {
    for lo in (0..n).step_by(per) {
        w.case(fam, || format!("{what}, number {lo}.."), |w| {
            for i in lo..(lo + per).min(n) {
                w.beat();
                ends(w, &mk(i))?;
            }
            Ok(())
        });
    }
}

/// The same through the tool as users build it: same object, or refused as well.
fn tool(w: &mut W, b: &mut Box_, src: &[u8]) -> Result<(), String> {
    ends(w, src)?;
    w.beat();
    let e = once(w, src);
    let d = b.dir();
    b.file(&d.join("a.asm"), src);
    w.transitions += 1;
    w.executed(1);
    let (st, msg) = b.run(&d, &["a.asm".to_string()], None);
    w.beat();
    let out = std::fs::read(d.join("a.o")).ok();
    std::fs::remove_dir_all(&d).expect("cleaning up");
    let m = match (st, &e.end, out) {
        (Err(s), _, _) => format!("the tool is ended by signal {s}"),
        (Ok(0), End::Returned(o), Some(x)) if *o == x => return Ok(()),
        (Ok(0), End::Returned(_), Some(_)) => "the tool writes an object other than the library's".into(),
        (Ok(0), _, None) => "the tool ends with status 0 and without an object".into(),
        (Ok(0), ..) => "the tool accepts what the library refuses".into(),
        (Ok(_), End::Returned(_), _) => format!("the tool refuses what the library accepts: {:?}", clip(&msg, 200)),
        (Ok(_), _, Some(_)) => "the tool refuses, but writes an output".into(),
        (Ok(_), _, None) if msg.trim().is_empty() => "the tool refuses without a word".into(),
        (Ok(_), _, None) => return Ok(()),
    };
    Err(format!("{m}\n  source {}", show(src)))
}

fn a12(w: &mut W) {
    let th = w.thorough();
    let bx = RefCell::new(Box_::new(w));
    // refused late, and objects of every small number of lines
    for n in 0..=1100usize {
        w.case("late refusals", || format!("a malformed line behind {n} others"), |w| {
            tool(w, &mut bx.borrow_mut(), format!("{}hoge\n", "ret\n".repeat(n)).as_bytes())?;
            tool(w, &mut bx.borrow_mut(), format!("{}mov rax, no{n}\n", "a: ; c\n".repeat(n.min(1)) + &"push 300\n".repeat(n)).as_bytes())?;
            tool(w, &mut bx.borrow_mut(), "\tret\r\n".repeat(n).as_bytes())
        });
    }
    // later, elsewhere, under another name: nothing but the source matters
    let srcs = [SEED, "ret\n", "", "a:\nmov rax, a\nsection .data\nx db 1\nglobal x\n", "hoge\n", "section .bss\nz:\nglobal z\n"];
    for (si, src) in srcs.iter().enumerate() {
        w.case("at other times and places", || format!("source {}", show(src.as_bytes())), |w| {
            let b = &mut bx.borrow_mut();
            let mut seen: Vec<(String, bool, Option<Vec<u8>>)> = vec![];
            let lib = once(w, src.as_bytes());
            let lib = match lib.end {
                End::Returned(o) => Some(o),
                _ => None,
            };
            for round in 0..3u64 {
                for (dir, name, out) in [("", "a.asm", "a.o"), ("d/e/f/", "another name.s", "another name.o"), ("", "zz", "zz.o")] {
                    w.beat();
                    let d = b.dir();
                    b.file(&d.join(dir).join(name), src.as_bytes());
                    let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(round * 1_234_567_890);
                    std::fs::File::options().write(true).open(d.join(dir).join(name)).and_then(|f| f.set_modified(t)).expect("setting a time");
                    let (st, _) = b.run(&d, &[format!("{dir}{name}")], None);
                    w.transitions += 1;
                    w.executed(1);
                    w.state(&(si, round, dir, name));
                    let got = std::fs::read(d.join(dir).join(out)).ok();
                    std::fs::remove_dir_all(&d).expect("cleaning up");
                    seen.push((format!("round {round}, {dir}{name}"), st == Ok(0), got));
                }
                if round < 2 {
                    std::thread::sleep(std::time::Duration::from_millis(1050));
                }
            }
            for (what, ok, got) in seen {
                if ok != lib.is_some() || got != lib {
                    return Err(format!("{what}: the run ends differently from that of the library before\n  source {}", show(src.as_bytes())));
                }
            }
            Ok(())
        });
    }
    batch(w, "short strings", "strings of 1 byte", 256, 64, &|i| vec![i as u8]);
    w.case("short strings", || "the empty source".into(), |w| ends(w, b""));
    batch(w, "short strings", "strings of 2 bytes", 65536, 256, &|i| vec![i as u8, (i >> 8) as u8]);
    // the first twelve and the first eight matter most
    let al: Vec<u8> = b"\n\" ;:,a1\r\t+-db0xrt._\\\0\xc3\xa9\xff".to_vec();
    let wide: Vec<u8> = (0x20..0x7f).chain([b'\n']).collect();
    let over = |w: &mut W, al: &[u8], n: u32| {
        let al = al.to_vec();
        batch(w, "strings over the parser's bytes", &format!("strings of {n} over {} bytes", al.len()), al.len().pow(n), 128, &|mut i| {
            let mut v = vec![];
            for _ in 0..n {
                v.push(al[i % al.len()]);
                i /= al.len();
            }
            v
        });
    };
    if th {
        over(w, &wide, 3);
    }
    over(w, &al, 3);
    over(w, if th { &al } else { &al[..12] }, 4);
    over(w, if th { &al[..12] } else { &al[..8] }, 5);
    // edits of a program
    let seed = SEED.as_bytes();
    let vals: Vec<u8> = if th {
        (0..=255).collect()
    } else {
        b"\0\x01\t\n\x0b\x0c\r\x1a\x1b \"'+,-./059:;=@AXZ[\\_ablrx{~\x7f\x80\xc3\xff".to_vec()
    };
    let m = vals.len();
    batch(w, "single edits", "an insertion", (seed.len() + 1) * m, 64, &|i| {
        let mut v = seed.to_vec();
        v.insert(i / m, vals[i % m]);
        v
    });
    batch(w, "single edits", "a replacement", seed.len() * m, 64, &|i| {
        let mut v = seed.to_vec();
        v[i / m] = vals[i % m];
        v
    });
    let mut ranges = vec![];
    for i in 0..seed.len() {
        for j in i + 1..=seed.len() {
            ranges.push((i, j));
        }
    }
    batch(w, "ranges", "a removal", ranges.len(), 64, &|i| {
        let (a, b) = ranges[i];
        [&seed[..a], &seed[b..]].concat()
    });
    let twice: Vec<(usize, usize)> = ranges.iter().cloned().filter(|(a, b)| th || b - a <= 8).collect();
    batch(w, "ranges", "a doubling", twice.len(), 64, &|i| {
        let (a, b) = twice[i];
        [&seed[..b], &seed[a..]].concat()
    });
    // repetition
    let frags: [&[u8]; 22] = [
        b"\n", b"\r\n", b" ", b"\t", b"\r", b"\0", b";", b"\"", b"\"\"", b",", b", ", b"1,", b"1, ", b"1 + ", b"+", b"-", b"a", b":", b"a:\n",
        b"section .data\n", b"\xff", b"\xe3\x81\x82",
    ];
    let places: [(&[u8], &[u8]); 6] =
        [(b"", b""), (b"db ", b"1\n"), (b"mov rax, ", b"1\n"), (b"section .data\nx db \"", b"\"\n"), (b"ret\n", b"\nret\n"), (b"global a", b"\n")];
    for f in frags {
        for (a, b) in places {
            for n in [1usize, 2, 3, 10, 100, 1000, 10_000, 100_000, 1_000_000] {
                if n * f.len() > 4 << 20 {
                    continue;
                }
                w.case("repetitions", || format!("{} then {n} x {} then {}", show(a), show(f), show(b)), |w| tool(w, &mut bx.borrow_mut(), &[a, &f.repeat(n), b].concat()));
            }
        }
    }
    // long lines
    let lines: [(&str, &str, &str); 18] = [
        ("a", "a", ":"),
        ("mov rax, 0x", "0", "1"),
        ("mov rax, ", "0", "1"),
        ("mov rax, 1", " + 1", ""),
        ("mov rax,", " ", "rbx"),
        ("mov", "\t", "rax, rbx"),
        ("db 1", ", 1", ""),
        ("db \"", "x", "\""),
        ("dq \"", "\\", "\""),
        ("x", "y", " db 1"),
        ("ret ;", "c", ""),
        ("", " ", "ret"),
        ("ret", " ", ""),
        ("global ", "g", ""),
        ("section .", "t", ""),
        ("push 1", "\t+\t1", ""),
        ("mov rdi, ", "l", ""),
        ("h", "o", "ge"),
    ];
    for (a, f, b) in lines {
        for k in 8..=20 {
            for d in [-1i64, 0, 1] {
                let n = ((1i64 << k) + d) as usize / f.len();
                w.case("long lines", || format!("{a:?}, {n} x {f:?}, {b:?}"), |w| {
                    for (x, y) in [("", ""), ("ret\n", "\r\nret\n")] {
                        w.beat();
                        tool(w, &mut bx.borrow_mut(), format!("{x}{a}{}{b}{y}", f.repeat(n)).as_bytes())?;
                    }
                    Ok(())
                });
            }
        }
    }
}
