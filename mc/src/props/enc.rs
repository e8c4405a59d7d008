//! E01..E05: the instruction encoder, its registers and its byte buffer.
use crate::fw::*;
use crate::x86::{alphabet, decode, decode_whole, regs::*, Ea, Effect, Val, R16, R32, R64, R8};
use at_x64::instruction::*;
use at_x64::mem::Mem64;
use at_x64::reg::Reg;
use at_x64::BytesAtMost;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "E01",
            level: "model_checking",
            run: e01,
            bounds: |t| match t {
                Tier::Quick => "every register (pair) of every register form; every u8 and u16 immediate; u32/u64 immediates: 0..=300, every value with one or two bits set or one run of ones, each byte lane, +-2 around powers of two, and all complements, for each of the 16 registers; every u32 push immediate with a free 16-bit window at each bit offset 0,8,16".into(),
                Tier::Thorough => "every register (pair) of every register form; every u8 and u16 immediate; every one of the 2^32 u32 immediates for push and for mov to eax, edi, r8d, r15d; u64 immediates as in the quick tier plus every 16-bit window at every bit offset".into(),
            },
            assumptions: &["the independent decoder (mc/src/x86.rs) states the Intel SDM semantics of the opcodes it accepts; it refuses any other opcode"],
        },
        Prop {
            id: "E02",
            level: "model_checking",
            run: e02,
            bounds: |t| match t {
                Tier::Quick => "lea and mov-store, all 16 registers x all 1105 address shapes (16 bases, rip, {none,16 bases} x 16 indexes x 4 scales) x 90 boundary displacements; two registers x all shapes x ~2300 displacements; every displacement in -70000..=70000 for 7 shapes".into(),
                Tier::Thorough => "as quick with all ~2300 displacements for all registers and shapes, and every one of the 2^32 displacements for 7 shapes (rax, rsp, rbp, r12, r13, rip, sib)".into(),
            },
            assumptions: &["the independent decoder (mc/src/x86.rs) states the Intel SDM addressing semantics; flat segments"],
        },
        Prop {
            id: "E03",
            level: "model_checking",
            run: e03,
            bounds: |_| "both widths x all 16 registers x every immediate of the boundary alphabet, each patched to each of 24 other values".into(),
            assumptions: &["the position of the immediate is cross-checked with the independent decoder"],
        },
        Prop {
            id: "E04",
            level: "model_checking",
            run: e04,
            bounds: |_| "all 64 registers; every printed 64/32/16-bit name as first and as second operand of mov (all pairs of one width), with an immediate, and as push operand".into(),
            assumptions: &["register numbers and names are those of the Intel SDM (table in mc/src/x86.rs)"],
        },
        Prop {
            id: "E05",
            level: "model_checking",
            run: e05,
            bounds: |t| match t {
                Tier::Quick => "capacities 0..=16 x lengths 0..=20; arrays of 0..=17 bytes into capacities 0..=16; every u8/u16 and boundary u32/u64 conversions into capacities 0,1,2,3,4,5,7,8,9,15; all contents of up to 4 bytes over {0,1,0x80,0xff} built by 3 routes and compared pairwise; capacities around every power of two up to 4096 with lengths around all of them, arrays of up to 65540 bytes".into(),
                Tier::Thorough => "as quick, contents of up to 5 bytes".into(),
            },
            assumptions: &[],
        },
    ]
}

fn code<T: Instruction>(i: T) -> Result<BytesAtMost<15>, String> {
    sut(|| i.bytecode()).map_err(|m| format!("encoding panicked: {m}"))
}

fn expect(b: &[u8], want: &Effect) -> Result<(), String> {
    if b.len() > 15 {
        return Err(format!("{} bytes is no x86 instruction", b.len()));
    }
    match decode_whole(b) {
        Ok(d) if d.eff == *want => Ok(()),
        Ok(d) => Err(format!("bytes [{}] mean {:?}, requested was {:?}", hex(b), d.eff, want)),
        Err(e) => Err(format!("bytes [{}] are not the instruction {:?}: {e}", hex(b), want)),
    }
}

fn check<T: Instruction>(w: &mut W, i: T, want: Effect) -> Result<(), String> {
    let b = code(i)?;
    w.transitions += 1;
    let r = b.as_ref();
    w.outcome(&(r.len(), &r[..r.len().min(3)]));
    expect(r, &want)
}

fn set(width: u8, dst: usize, val: Val) -> Effect {
    Effect::Set { width, dst: dst as u8, val }
}
fn sx(v: u64, bytes: u32, width: u8) -> u64 {
    let s = 64 - 8 * bytes;
    let v = (((v << s) as i64) >> s) as u64;
    if width == 16 { v & 0xffff } else { v }
}

fn e01(w: &mut W) {
    // registers
    for d in 0..16 {
        w.case("mov r16,r16", || format!("mov {}, any", R16[d]), |w| {
            for s in 0..16 {
                check(w, Mov::new(X16[d], X16[s]), set(16, d, Val::Reg(s as u8)))?;
                w.state(&("rr16", d, s));
            }
            Ok(())
        });
        w.case("mov r32,r32", || format!("mov {}, any", R32[d]), |w| {
            for s in 0..16 {
                check(w, Mov::new(X32[d], X32[s]), set(32, d, Val::Reg(s as u8)))?;
                check(w, Mov(X32[d], X32[s]), set(32, d, Val::Reg(s as u8)))?;
                w.state(&("rr32", d, s));
            }
            Ok(())
        });
        w.case("mov r64,r64", || format!("mov {}, any", R64[d]), |w| {
            for s in 0..16 {
                check(w, Mov::new(X64[d], X64[s]), set(64, d, Val::Reg(s as u8)))?;
                w.state(&("rr64", d, s));
            }
            Ok(())
        });
        w.case("push/pop register", || format!("push/pop {} and {}", R64[d], R16[d]), |w| {
            check(w, Push::new(X64[d]), Effect::Push { width: 64, val: Val::Reg(d as u8) })?;
            check(w, Push::new(X16[d]), Effect::Push { width: 16, val: Val::Reg(d as u8) })?;
            check(w, Pop::new(X64[d]), Effect::Pop { width: 64, dst: d as u8 })?;
            check(w, Pop::new(X16[d]), Effect::Pop { width: 16, dst: d as u8 })?;
            w.state(&("stack", d));
            Ok(())
        });
    }
    w.case("ret, syscall", || "ret and syscall".into(), |w| {
        check(w, Ret::new(), Effect::Ret)?;
        check(w, Syscall::new(), Effect::Syscall)?;
        w.state(&"plain");
        Ok(())
    });
    // immediates
    w.case("push imm8", || "push of every u8".into(), |w| {
        for v in 0..=255u8 {
            check(w, Push::new(v), Effect::Push { width: 64, val: Val::Imm(sx(v as u64, 1, 64)) })?;
        }
        w.states_dense(256);
        Ok(())
    });
    for hi in 0..=255u16 {
        w.case("push imm16", || format!("push of every u16 in {:#x}..", hi << 8), |w| {
            for lo in 0..=255u16 {
                let v = hi << 8 | lo;
                check(w, Push::new(v), Effect::Push { width: 16, val: Val::Imm(v as u64) })?;
            }
            w.states_dense(256);
            Ok(())
        });
        w.case("mov r16,imm16", || format!("mov to every 16-bit register of every u16 in {:#x}..", hi << 8), |w| {
            for d in 0..16 {
                for lo in 0..=255u16 {
                    let v = hi << 8 | lo;
                    check(w, Mov::new(X16[d], v), set(16, d, Val::Imm(v as u64)))?;
                }
            }
            w.states_dense(256 * 16);
            Ok(())
        });
    }
    let a32 = alphabet(32);
    let a64 = alphabet(64);
    for d in 0..16 {
        w.case("mov r32,imm32", || format!("mov {}, boundary immediates", R32[d]), |w| {
            for &v in &a32 {
                check(w, Mov::new(X32[d], v as u32), set(32, d, Val::Imm(v)))?;
                w.state(&("ri32", d, v));
            }
            Ok(())
        });
        w.case("mov r64,imm64", || format!("mov {}, boundary immediates", R64[d]), |w| {
            for &v in &a64 {
                check(w, Mov::new(X64[d], v), set(64, d, Val::Imm(v)))?;
                w.state(&("ri64", d, v));
            }
            Ok(())
        });
    }
    w.case("push imm32", || "push of boundary u32".into(), |w| {
        for &v in &a32 {
            check(w, Push::new(v as u32), Effect::Push { width: 64, val: Val::Imm(sx(v, 4, 64)) })?;
            w.state(&("pi32", v));
        }
        Ok(())
    });
    // windows of 16 free bits
    let offs64: Vec<u32> = if w.thorough() { (0..=48).collect() } else { vec![0, 16, 24, 32, 48] };
    for sh in offs64 {
        w.case("mov r64, 16-bit window", || format!("mov rcx/r9, x << {sh} for every 16-bit x, and complements"), |w| {
            for x in 0..=0xffffu64 {
                let v = x << sh;
                check(w, Mov::new(X64[1], v), set(64, 1, Val::Imm(v)))?;
                check(w, Mov::new(X64[9], !v), set(64, 9, Val::Imm(!v)))?;
            }
            w.states_dense(0x20000 - 2);
            Ok(())
        });
    }
    for sh in [0u32, 8, 16] {
        w.case("push imm32, 16-bit window", || format!("push x << {sh} for every 16-bit x, and complements"), |w| {
            for x in 0..=0xffffu32 {
                for v in [x << sh, !(x << sh)] {
                    check(w, Push::new(v), Effect::Push { width: 64, val: Val::Imm(sx(v as u64, 4, 64)) })?;
                    check(w, Mov::new(X32[10], v), set(32, 10, Val::Imm(v as u64)))?;
                }
            }
            w.states_dense(0x20000);
            Ok(())
        });
    }
    if w.thorough() {
        for hi in 0..=0xfffu32 {
            w.case("every u32", || format!("push and mov of every u32 in {:#x}..", hi << 20), |w| {
                for lo in 0..=0xfffffu32 {
                    let v = hi << 20 | lo;
                    check(w, Push::new(v), Effect::Push { width: 64, val: Val::Imm(sx(v as u64, 4, 64)) })?;
                    for d in [0, 7, 8, 15] {
                        check(w, Mov::new(X32[d], v), set(32, d, Val::Imm(v as u64)))?;
                    }
                    if lo & 0xffff == 0 {
                        w.beat();
                    }
                }
                w.states_dense(5 << 20);
                Ok(())
            });
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Shape {
    Base(usize),
    Rip,
    Sib(Option<usize>, usize, u8),
}

fn shapes() -> Vec<Shape> {
    let mut v: Vec<Shape> = (0..16).map(Shape::Base).collect();
    v.push(Shape::Rip);
    for b in std::iter::once(None).chain((0..16).map(Some)) {
        for i in 0..16 {
            for s in 0..4 {
                v.push(Shape::Sib(b, i, s));
            }
        }
    }
    v
}

fn mem(s: Shape, d: u32) -> (Mem64, Ea) {
    let mut ea = Ea { coef: [0; 16], disp: d as i32 as i64 as u64, rip: false };
    let m = match s {
        Shape::Base(b) => {
            ea.coef[b] = 1;
            Mem64::reg_offset(X64[b], d)
        }
        Shape::Rip => {
            ea.rip = true;
            Mem64::rip_offset(d)
        }
        Shape::Sib(b, i, sc) => {
            if let Some(b) = b {
                ea.coef[b] += 1;
            }
            if i != 4 {
                ea.coef[i] += 1 << sc;
            }
            Mem64::sib(b.map(|b| X64[b]), d, X64[i], sc)
        }
    };
    (m, ea)
}

fn check_mem(w: &mut W, r: usize, s: Shape, d: u32) -> Result<(), String> {
    let (m, ea) = sut(|| mem(s, d)).map_err(|m| format!("building the operand panicked: {m}"))?;
    check(w, Lea::new(X64[r], m), set(64, r, Val::Ea(ea.clone()))).map_err(|e| format!("lea {}, {s:?} disp {d:#x}: {e}", R64[r]))?;
    check(w, Mov::new(m, X64[r]), Effect::Store { width: 64, ea, val: Val::Reg(r as u8) })
        .map_err(|e| format!("mov {s:?} disp {d:#x}, {}: {e}", R64[r]))
}

fn e02(w: &mut W) {
    let mut few: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 7, 8, 16, 42, 64, 100];
    for k in [7u32, 8, 9, 10, 15, 16, 17, 23, 24, 30, 31] {
        for d in 0..3u32 {
            few.push((1u32 << k).wrapping_add(d));
            few.push((1u32 << k).wrapping_sub(d));
        }
    }
    few.extend([0x12345678, 0x00ff00ff, 0xff00ff00, 0x7fffffff]);
    let neg: Vec<u32> = few.iter().map(|d| d.wrapping_neg()).collect();
    few.extend(neg);
    few.sort();
    few.dedup();
    let many: Vec<u32> = alphabet(32).iter().map(|&v| v as u32).collect();
    for s in shapes() {
        w.case("all registers", || format!("{s:?}: all registers, {} displacements", few.len()), |w| {
            if let Shape::Base(b) = s {
                // the displacement-less constructor is the same location
                let (m0, mz) = (sut(|| Mem64::reg(X64[b]))?, sut(|| Mem64::reg_offset(X64[b], 0))?);
                if code(Lea::new(X64[0], m0))?.as_ref() != code(Lea::new(X64[0], mz))?.as_ref() {
                    let ea = mem(s, 0).1;
                    check(w, Lea::new(X64[0], m0), set(64, 0, Val::Ea(ea)))?;
                }
            }
            for r in 0..16 {
                for &d in if w.thorough() { &many } else { &few } {
                    check_mem(w, r, s, d)?;
                }
                w.states_dense(if w.thorough() { many.len() } else { few.len() } as u64);
            }
            Ok(())
        });
        if !w.thorough() {
            w.case("many displacements", || format!("{s:?}: rcx and r13, {} displacements", many.len()), |w| {
                for r in [1, 13] {
                    for &d in &many {
                        check_mem(w, r, s, d)?;
                        w.state(&(format!("{s:?}"), r, d));
                    }
                }
                Ok(())
            });
        }
    }
    let key = [
        Shape::Base(0), Shape::Base(4), Shape::Base(5), Shape::Base(12), Shape::Base(13), Shape::Rip,
        Shape::Sib(Some(5), 9, 2),
    ];
    for s in key {
        for blk in -70i64..70 {
            w.case("dense displacements", || format!("{s:?}: displacements {}..", blk * 1000), |w| {
                for d in blk * 1000..=blk * 1000 + 1000 {
                    check_mem(w, 7, s, d as u32)?;
                }
                w.states_dense(1000);
                Ok(())
            });
        }
        if w.thorough() {
            for hi in 0..=0xfffu32 {
                w.case("every displacement", || format!("{s:?}: displacements {:#x}..", hi << 20), |w| {
                    for lo in 0..=0xfffffu32 {
                        check_mem(w, 7, s, hi << 20 | lo)?;
                        if lo & 0xffff == 0 {
                            w.beat();
                        }
                    }
                    w.states_dense(1 << 20);
                    Ok(())
                });
            }
        }
    }
}

fn e03(w: &mut W) {
    let others: Vec<u64> = vec![
        0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff,
        0x100000000, 0x7fffffffffffffff, 0x8000000000000000, u64::MAX, u64::MAX - 1, 0x0102030405060708,
        0xfedcba9876543210, 0xff00000000000000, 0x00000000ff000000, 0x5555555555555555,
    ];
    for d in 0..16 {
        let a = alphabet(32);
        for chunk in a.chunks(64) {
            w.case("mov r32,imm32", || format!("{}: immediates {:#x}..", R32[d], chunk[0]), |w| {
                for &v in chunk {
                    let off = sut(|| Mov::new(X32[d], v as u32).offset_to_imm_bytes())? as usize;
                    let b = code(Mov::new(X32[d], v as u32))?;
                    patch(w, b.as_ref(), off, 4, v, &others, |o| code(Mov::new(X32[d], o as u32)))?;
                    w.state(&(32, d, v));
                }
                Ok(())
            });
        }
        let a = alphabet(64);
        for chunk in a.chunks(64) {
            w.case("mov r64,imm64", || format!("{}: immediates {:#x}..", R64[d], chunk[0]), |w| {
                for &v in chunk {
                    let off = sut(|| Mov::new(X64[d], v).offset_to_imm_bytes())? as usize;
                    let b = code(Mov::new(X64[d], v))?;
                    patch(w, b.as_ref(), off, 8, v, &others, |o| code(Mov::new(X64[d], o)))?;
                    w.state(&(64, d, v));
                }
                Ok(())
            });
        }
    }
}

fn patch(
    w: &mut W,
    b: &[u8],
    off: usize,
    n: usize,
    v: u64,
    others: &[u64],
    enc: impl Fn(u64) -> Result<BytesAtMost<15>, String>,
) -> Result<(), String> {
    if off + n != b.len() {
        return Err(format!("immediate {v:#x}: reported offset {off} + {n} is not the length of [{}]", hex(b)));
    }
    if b[off..] != v.to_le_bytes()[..n] {
        return Err(format!("the bytes at offset {off} of [{}] are not the immediate {v:#x}", hex(b)));
    }
    let d = decode(b)?;
    if d.imm != Some((off, n)) {
        return Err(format!("the immediate of [{}] is at {:?}, reported is {off}", hex(b), d.imm));
    }
    for &o in others {
        let mut p = b.to_vec();
        p[off..].copy_from_slice(&o.to_le_bytes()[..n]);
        let e = enc(o)?;
        w.transitions += 1;
        if e.as_ref() != p {
            return Err(format!("patching {o:#x} over {v:#x} gives [{}], encoding it gives [{}]", hex(&p), hex(e.as_ref())));
        }
    }
    Ok(())
}

fn e04(w: &mut W) {
    for i in 0..16 {
        w.case("register facts", || format!("{} {} {} {}", R64[i], R32[i], R16[i], R8[i]), |w| {
            let (a, b, c, d) = (X64[i], X32[i], X16[i], X8[i]);
            let eq = |what: &str, got: String, want: String| {
                if got == want { Ok(()) } else { Err(format!("{what} is {got}, should be {want}")) }
            };
            w.state(&i);
            w.transitions += 20;
            sut(|| -> Result<(), String> {
                eq("64-bit name", a.to_string(), R64[i].into())?;
                eq("32-bit name", b.to_string(), R32[i].into())?;
                eq("16-bit name", c.to_string(), R16[i].into())?;
                eq("8-bit name", d.to_string(), R8[i].into())?;
                eq("name through Reg", Reg::Reg64(a).to_string(), R64[i].into())?;
                eq("name through Reg", Reg::Reg32(b).to_string(), R32[i].into())?;
                eq("name through Reg", Reg::Reg16(c).to_string(), R16[i].into())?;
                eq("name through Reg", Reg::Reg8(d).to_string(), R8[i].into())?;
                eq("to_reg64", format!("{:?}", b.to_reg64()), format!("{a:?}"))?;
                eq("to_reg32", format!("{:?}", c.to_reg32()), format!("{b:?}"))?;
                for n in [a.register_code(), b.register_code(), c.register_code()] {
                    eq("register code", n.to_string(), (i & 7).to_string())?;
                }
                for e in [a.is_extended(), b.is_extended(), c.is_extended()] {
                    eq("extended", e.to_string(), (i >= 8).to_string())?;
                }
                Ok(())
            })?
        });
        for (width, names) in [(64u8, &R64), (32, &R32), (16, &R16)] {
            w.case("names in source", || format!("{} in source text", names[i]), |w| {
                let printed = sut(|| match width {
                    64 => X64[i].to_string(),
                    32 => X32[i].to_string(),
                    _ => X16[i].to_string(),
                })?;
                for j in 0..16 {
                    let other = sut(|| match width {
                        64 => X64[j].to_string(),
                        32 => X32[j].to_string(),
                        _ => X16[j].to_string(),
                    })?;
                    let src = format!("mov {printed}, {other}\n");
                    one_insn(w, &src, &set(width, i, Val::Reg(j as u8)))?;
                    w.state(&(width, i, j));
                }
                one_insn(w, &format!("mov {printed}, 77\n"), &set(width, i, Val::Imm(77)))?;
                if width == 64 {
                    one_insn(w, &format!("push {printed}\n"), &Effect::Push { width: 64, val: Val::Reg(i as u8) })?;
                }
                Ok(())
            });
        }
    }
}

fn one_insn(w: &mut W, src: &str, want: &Effect) -> Result<(), String> {
    let obj = crate::asmref::assemble(src.as_bytes())?;
    let o = crate::macho::parse(&obj)?;
    w.transitions += 1;
    let t = o.sects.first().ok_or("no section was emitted")?;
    if t.nreloc != 0 {
        return Err(format!("{src:?} was taken as a reference to a label"));
    }
    expect(&t.data, want).map_err(|e| format!("{src:?}: {e}"))
}

fn refused<T>(r: Result<T, String>, what: impl Fn() -> String) -> Result<(), String> {
    match r {
        Ok(_) => Err(format!("{} was not refused", what())),
        Err(_) => Ok(()),
    }
}

fn exposes<const M: usize>(b: &BytesAtMost<M>, want: &[u8]) -> Result<(), String> {
    if b.as_ref() != want || b.len() != want.len() || b.is_empty() != want.is_empty() {
        return Err(format!(
            "buffer of capacity {M} exposes [{}] (len {}, empty {}), put in was [{}]",
            hex(b.as_ref()), b.len(), b.is_empty(), hex(want)
        ));
    }
    Ok(())
}

fn cap<const M: usize>(w: &mut W) {
    w.case("with_len", || format!("capacity {M}: every length up to 20"), |w| {
        for n in 0..=20usize {
            let r = sut(|| BytesAtMost::<M>::with_len(n));
            w.transitions += 1;
            w.state(&("len", M, n));
            if n > M {
                w.refused += 1;
                refused(r, || format!("length {n} in capacity {M}"))?;
                continue;
            }
            let mut b = r?;
            exposes(&b, &vec![0; n])?;
            let mut model = vec![0u8; n];
            for i in 0..n {
                let v = (i as u8 + 1).wrapping_mul(37);
                b.as_mut()[i] = v;
                model[i] = v;
                exposes(&b, &model)?;
            }
            if b.as_mut().len() != n {
                return Err("the writable view has another length".into());
            }
            let c = b;
            if n > 0 {
                b.as_mut()[n - 1] ^= 0xff;
                if b == c {
                    return Err("buffers with different bytes compare equal".into());
                }
                b.as_mut()[n - 1] ^= 0xff;
            }
            if b != c {
                return Err("buffers with the same bytes compare unequal".into());
            }
        }
        Ok(())
    });
    w.case("integers", || format!("integers into capacity {M}"), |w| {
        macro_rules! ints {
            ($t:ty, $vals:expr) => {
                for v in $vals {
                    let v = v as $t;
                    let want = v.to_le_bytes();
                    let r = sut(|| BytesAtMost::<M>::from(v));
                    w.transitions += 1;
                    if want.len() > M {
                        w.refused += 1;
                        refused(r, || format!("{} in capacity {M}", stringify!($t)))?;
                        if v > 2 {
                            break;
                        }
                    } else {
                        let b = r?;
                        exposes(&b, &want)?;
                        w.state(&(stringify!($t), M, v));
                        let mut c = sut(|| BytesAtMost::<M>::with_len(want.len()))?;
                        c.as_mut().copy_from_slice(&want);
                        if b != c {
                            return Err("buffers with the same bytes compare unequal".into());
                        }
                    }
                }
            };
        }
        ints!(u8, 0..=255u64);
        ints!(u16, 0..=65535u64);
        ints!(u32, alphabet(32));
        ints!(u64, alphabet(64));
        Ok(())
    });
}

fn arr<const N: usize, const M: usize>(w: &mut W) {
    let full = if w.thorough() { 7 } else { 5 };
    w.case("arrays", || format!("arrays of {N} into capacity {M}"), |w| {
        let mut check = |w: &mut W, a: [u8; N]| -> Result<(), String> {
            let r = sut(|| BytesAtMost::<M>::from(a));
            w.transitions += 1;
            if N > M {
                w.refused += 1;
                return refused(r, || format!("array of {N} in capacity {M}"));
            }
            let b = r?;
            exposes(&b, &a)?;
            let mut c = sut(|| BytesAtMost::<M>::with_len(N))?;
            sut(|| c.as_mut().copy_from_slice(&a))?;
            if b != c || c != b {
                return Err(format!("[{}] made from an array and written in place compare unequal", hex(&a)));
            }
            w.state(&("arr", M, &a[..]));
            Ok(())
        };
        for seed in [0u8, 1, 0x55, 0xff] {
            let mut a = [0u8; N];
            for (i, x) in a.iter_mut().enumerate() {
                *x = (i as u8).wrapping_mul(29).wrapping_add(1) ^ seed;
            }
            check(w, a)?;
            if N > M {
                return Ok(());
            }
            // every value at every position, and the extremes at every two positions
            for i in 0..N {
                for v in 0..=255 {
                    let mut b = a;
                    b[i] = v;
                    check(w, b)?;
                }
                for j in 0..i {
                    for (u, v) in [(0, 0), (0, 0xff), (0xff, 0), (0xff, 0xff), (0x80, 0x7f)] {
                        let mut b = a;
                        b[i] = u;
                        b[j] = v;
                        check(w, b)?;
                    }
                }
            }
        }
        // constant arrays, and constant ones that end differently from some place on
        for v in [0u8, 1, 0x7f, 0x80, 0xff] {
            for u in [0u8, 1, 0x7f, 0x80, 0xff] {
                for k in 0..=N {
                    let mut a = [v; N];
                    for x in &mut a[k..] {
                        *x = u;
                    }
                    check(w, a)?;
                }
            }
        }
        if N <= full {
            let al = [0u8, 1, 0x80, 0xff];
            for mut x in 0..4usize.pow(N as u32) {
                let mut a = [0u8; N];
                for y in a.iter_mut() {
                    *y = al[x % 4];
                    x /= 4;
                }
                check(w, a)?;
            }
        }
        Ok(())
    });
}

macro_rules! each_arr {
    ($w:expr, $m:literal) => { each_arr!($w, $m; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17); };
    ($w:expr, $m:literal; $($n:literal)*) => { $( arr::<$n, $m>($w); )* };
}
macro_rules! each_cap {
    ($w:expr; $($m:literal)*) => { $( cap::<$m>($w); each_arr!($w, $m); )* };
}

fn pairs<const M: usize>(w: &mut W, maxlen: usize) {
    let alpha = [0u8, 1, 0x80, 0xff];
    let mut contents: Vec<Vec<u8>> = vec![vec![]];
    let mut lo = 0;
    for _ in 0..maxlen {
        let hi = contents.len();
        for i in lo..hi {
            for a in alpha {
                let mut c = contents[i].clone();
                c.push(a);
                contents.push(c);
            }
        }
        lo = hi;
    }
    let build = |c: &[u8], route: u8| -> Result<BytesAtMost<M>, String> {
        sut(|| {
            let mut b = BytesAtMost::<M>::with_len(c.len());
            match route {
                0 => b.as_mut().copy_from_slice(c),
                1 => {
                    // overwritten before: earlier contents must not matter
                    for x in b.as_mut() {
                        *x = 0xee;
                    }
                    for i in (0..c.len()).rev() {
                        b.as_mut()[i] = c[i];
                    }
                }
                _ => match c.len() {
                    0 => b = BytesAtMost::from([]),
                    1 => b = BytesAtMost::from(c[0]),
                    2 => b = BytesAtMost::from(u16::from_le_bytes([c[0], c[1]])),
                    3 => b = BytesAtMost::from([c[0], c[1], c[2]]),
                    4 => b = BytesAtMost::from(u32::from_le_bytes([c[0], c[1], c[2], c[3]])),
                    _ => b = BytesAtMost::from([c[0], c[1], c[2], c[3], c[4]]),
                },
            }
            b
        })
    };
    for x in 0..contents.len() {
        w.case("equality", || format!("capacity {M}: [{}] against all others", hex(&contents[x])), |w| {
            w.state(&("eq", M, &contents[x]));
            for ra in 0..3 {
                let a = build(&contents[x], ra)?;
                exposes(&a, &contents[x])?;
                for (y, c) in contents.iter().enumerate() {
                    let b = build(c, (ra + 1) % 3)?;
                    w.transitions += 1;
                    if (a == b) != (x == y) {
                        return Err(format!("[{}] == [{}] is {}", hex(&contents[x]), hex(c), a == b));
                    }
                }
            }
            Ok(())
        });
    }
}

fn e05(w: &mut W) {
    each_cap!(w; 0 1 2 3 4 5 7 8 9 15 16);
    let n = if w.thorough() { 5 } else { 4 };
    pairs::<8>(w, n);
    pairs::<15>(w, n);
    macro_rules! wide { ($($m:literal)*) => { $( wide::<$m>(w); )* } }
    wide!(17 31 32 33 63 64 65 127 128 129 254 255 256 257 300 511 512 513 1024 4096);
    macro_rules! wide_arr { ($($n:literal, $m:literal;)*) => { $( wide_array::<$n, $m>(w); )* } }
    wide_arr!(32, 32; 33, 32; 255, 256; 256, 256; 257, 256; 256, 257; 257, 300; 256, 0; 256, 4; 258, 255; 300, 300; 512, 513; 513, 512; 4096, 4096; 65536, 65536; 65537, 65536; 65540, 70000; 65537, 8;);
}

/// Large capacities: lengths around every boundary below and above.
fn wide<const M: usize>(w: &mut W) {
    w.case("large capacities", || format!("capacity {M}: lengths up to 20, around powers of two and around the capacity"), |w| {
        let mut ls: Vec<usize> = (0..=20).chain((4..18).flat_map(|b| [(1 << b) - 1, 1 << b, (1 << b) + 1])).chain([M - 1, M, M + 1, M + 2, 2 * M, M + 256, M + 65536, usize::MAX, usize::MAX / 2]).collect();
        ls.sort();
        ls.dedup();
        let mut prev: Option<BytesAtMost<M>> = None;
        for n in ls {
            let r = sut(|| BytesAtMost::<M>::with_len(n));
            w.transitions += 1;
            w.executed(1);
            w.state(&("wide", M, n));
            if n > M {
                w.refused += 1;
                refused(r, || format!("length {n} in capacity {M}"))?;
                continue;
            }
            let mut b = r?;
            exposes(&b, &vec![0; n])?;
            let want: Vec<u8> = (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(7)).collect();
            sut(|| b.as_mut().copy_from_slice(&want))?;
            exposes(&b, &want)?;
            let mut c = b;
            for i in [0, 1, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)] {
                if i < n {
                    c.as_mut()[i] ^= 0x80;
                    if b == c || c == b {
                        return Err(format!("buffers of {n} bytes that differ at {i} compare equal"));
                    }
                    c.as_mut()[i] ^= 0x80;
                }
            }
            if b != c {
                return Err(format!("equal buffers of {n} bytes compare unequal"));
            }
            // zeros, one byte longer than before
            let z = sut(|| BytesAtMost::<M>::with_len(n))?;
            if prev.map_or(false, |p| p == z || z == p) {
                return Err(format!("zero buffers of {n} bytes and of fewer compare equal"));
            }
            prev = Some(z);
        }
        Ok(())
    });
}
fn wide_array<const N: usize, const M: usize>(w: &mut W) {
    w.case("large arrays", || format!("arrays of {N} into capacity {M}"), |w| {
        for seed in [0u8, 1, 0x80, 0xff] {
            let mut a = [seed; N];
            for (i, x) in a.iter_mut().enumerate() {
                *x = x.wrapping_add((i % 251) as u8);
            }
            let r = sut(|| BytesAtMost::<M>::from(a));
            w.transitions += 1;
            w.executed(1);
            w.state(&("wide arr", N, M, seed));
            if N > M {
                w.refused += 1;
                refused(r, || format!("an array of {N} in capacity {M}"))?;
            } else {
                exposes(&r?, &a)?;
            }
        }
        Ok(())
    });
}
