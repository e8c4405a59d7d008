//! An independent decoder for the 64-bit mode instructions the repository can emit (and the
//! alternative encodings of the same instructions). It is the oracle of the encoder properties:
//! it gives each byte string the effect the Intel SDM gives it, or refuses it.

/// Sum of `coef[r] * r` over the 16 registers, plus `disp`, plus the address of the next
/// instruction when `rip`.
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Ea {
    pub coef: [u8; 16],
    pub disp: u64,
    pub rip: bool,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Val {
    Reg(u8),
    Imm(u64),
    Ea(Ea),
    Mem(Ea),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Effect {
    /// The register's low `width` bits become the value.
    Set { width: u8, dst: u8, val: Val },
    Store { width: u8, ea: Ea, val: Val },
    /// `width` bits are pushed; an immediate is the pushed value itself.
    Push { width: u8, val: Val },
    Pop { width: u8, dst: u8 },
    Ret,
    Syscall,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Dec {
    pub len: usize,
    pub eff: Effect,
    /// Where the immediate operand's bytes are: (offset, length).
    pub imm: Option<(usize, usize)>,
}

fn at(b: &[u8], i: usize) -> Result<u8, String> {
    b.get(i).copied().ok_or_else(|| "instruction is cut off".to_string())
}
fn le(b: &[u8], i: usize, n: usize) -> Result<u64, String> {
    let mut v = 0u64;
    for k in (0..n).rev() {
        v = (v << 8) | at(b, i + k)? as u64;
    }
    Ok(v)
}
fn sx(v: u64, bytes: usize) -> u64 {
    let s = 64 - 8 * bytes as u32;
    (((v << s) as i64) >> s) as u64
}
fn mask(v: u64, width: u8) -> u64 {
    if width == 64 { v } else { v & ((1u64 << width) - 1) }
}

enum Rm {
    Reg(u8),
    Mem(Ea),
}

fn modrm(b: &[u8], p: &mut usize, rex: u8) -> Result<(u8, Rm), String> {
    let m = at(b, *p)?;
    *p += 1;
    let (md, reg, rm) = (m >> 6, (m >> 3) & 7, m & 7);
    let reg = reg | if rex & 4 != 0 { 8 } else { 0 };
    let bx = if rex & 1 != 0 { 8 } else { 0 };
    if md == 3 {
        return Ok((reg, Rm::Reg(rm | bx)));
    }
    let mut ea = Ea { coef: [0; 16], disp: 0, rip: false };
    let mut dlen = match md {
        1 => 1,
        2 => 4,
        _ => 0,
    };
    if rm == 4 {
        let s = at(b, *p)?;
        *p += 1;
        let (sc, ix, bs) = (s >> 6, (s >> 3) & 7, s & 7);
        let ix = ix | if rex & 2 != 0 { 8 } else { 0 };
        if ix != 4 {
            ea.coef[ix as usize] += 1 << sc;
        }
        if bs == 5 && md == 0 {
            dlen = 4;
        } else {
            ea.coef[(bs | bx) as usize] += 1;
        }
    } else if rm == 5 && md == 0 {
        ea.rip = true;
        dlen = 4;
    } else {
        ea.coef[(rm | bx) as usize] += 1;
    }
    if dlen > 0 {
        ea.disp = sx(le(b, *p, dlen)?, dlen);
        *p += dlen;
    }
    Ok((reg, Rm::Mem(ea)))
}

/// Decodes the one instruction at the start of `b`.
pub fn decode(b: &[u8]) -> Result<Dec, String> {
    let mut p = 0;
    let mut opsize = false;
    let mut rex = 0u8;
    loop {
        match at(b, p)? {
            0x66 => {
                opsize = true;
                rex = 0; // a REX not directly before the opcode has no effect
                p += 1;
            }
            r @ 0x40..=0x4f => {
                rex = r;
                p += 1;
            }
            _ => break,
        }
        if p > 4 {
            return Err("too many prefixes".into());
        }
    }
    let op = at(b, p)?;
    p += 1;
    let w = rex & 8 != 0;
    let width: u8 = if w {
        64
    } else if opsize {
        16
    } else {
        32
    };
    let bx = if rex & 1 != 0 { 8u8 } else { 0 };
    let stack: u8 = if opsize && !w { 16 } else { 64 };
    let mut imm = None;
    let eff = match op {
        0x88 | 0x8a => {
            let (reg, rm) = modrm(b, &mut p, rex)?;
            return Err(format!("8-bit move of register {reg} ({})", matches!(rm, Rm::Reg(_))));
        }
        0x89 => match modrm(b, &mut p, rex)? {
            (reg, Rm::Reg(d)) => Effect::Set { width, dst: d, val: Val::Reg(reg) },
            (reg, Rm::Mem(ea)) => Effect::Store { width, ea, val: Val::Reg(reg) },
        },
        0x8b => match modrm(b, &mut p, rex)? {
            (reg, Rm::Reg(s)) => Effect::Set { width, dst: reg, val: Val::Reg(s) },
            (reg, Rm::Mem(ea)) => Effect::Set { width, dst: reg, val: Val::Mem(ea) },
        },
        0x8d => match modrm(b, &mut p, rex)? {
            (_, Rm::Reg(_)) => return Err("lea of a register is undefined".into()),
            (reg, Rm::Mem(ea)) => Effect::Set { width, dst: reg, val: Val::Ea(ea) },
        },
        0xb8..=0xbf => {
            let n = width as usize / 8;
            let v = le(b, p, n)?;
            imm = Some((p, n));
            p += n;
            Effect::Set { width, dst: (op & 7) | bx, val: Val::Imm(v) }
        }
        0xc7 => {
            let (ext, rm) = modrm(b, &mut p, rex)?;
            if ext & 7 != 0 {
                return Err("C7 with an undefined extension".into());
            }
            let n = if width == 16 { 2 } else { 4 };
            let v = mask(sx(le(b, p, n)?, n), width);
            imm = Some((p, n));
            p += n;
            match rm {
                Rm::Reg(d) => Effect::Set { width, dst: d, val: Val::Imm(v) },
                Rm::Mem(ea) => Effect::Store { width, ea, val: Val::Imm(v) },
            }
        }
        0x50..=0x57 => Effect::Push { width: stack, val: Val::Reg((op & 7) | bx) },
        0x58..=0x5f => Effect::Pop { width: stack, dst: (op & 7) | bx },
        0x68 => {
            let n = if stack == 16 { 2 } else { 4 };
            let v = mask(sx(le(b, p, n)?, n), stack);
            imm = Some((p, n));
            p += n;
            Effect::Push { width: stack, val: Val::Imm(v) }
        }
        0x6a => {
            let v = mask(sx(le(b, p, 1)?, 1), stack);
            imm = Some((p, 1));
            p += 1;
            Effect::Push { width: stack, val: Val::Imm(v) }
        }
        0xff => match modrm(b, &mut p, rex)? {
            (r, Rm::Reg(s)) if r & 7 == 6 => Effect::Push { width: stack, val: Val::Reg(s) },
            (r, Rm::Mem(ea)) if r & 7 == 6 => Effect::Push { width: stack, val: Val::Mem(ea) },
            _ => return Err("FF of another instruction".into()),
        },
        0x8f => match modrm(b, &mut p, rex)? {
            (r, Rm::Reg(d)) if r & 7 == 0 => Effect::Pop { width: stack, dst: d },
            _ => return Err("8F of another instruction".into()),
        },
        0xc3 if opsize => return Err("RET with another operand size".into()),
        0xc3 => Effect::Ret,
        0x0f => match at(b, p)? {
            0x05 => {
                p += 1;
                Effect::Syscall
            }
            x => return Err(format!("opcode 0F {x:02X} is not one of the known instructions")),
        },
        x => return Err(format!("opcode {x:02X} is not one of the known instructions")),
    };
    if p > 15 {
        return Err("longer than 15 bytes".into());
    }
    Ok(Dec { len: p, eff, imm })
}

/// Decodes `b` as exactly one instruction.
pub fn decode_whole(b: &[u8]) -> Result<Dec, String> {
    let d = decode(b)?;
    if d.len != b.len() {
        return Err(format!("decodes as a {}-byte instruction with {} bytes left over", d.len, b.len() - d.len));
    }
    Ok(d)
}

pub const R64: [&str; 16] =
    ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"];
pub const R32: [&str; 16] = [
    "eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "r8d", "r9d", "r10d", "r11d", "r12d", "r13d", "r14d",
    "r15d",
];
pub const R16: [&str; 16] = [
    "ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "r8w", "r9w", "r10w", "r11w", "r12w", "r13w", "r14w", "r15w",
];
pub const R8: [&str; 16] = [
    "al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil", "r8b", "r9b", "r10b", "r11b", "r12b", "r13b", "r14b", "r15b",
];

/// The library's registers in order of their architectural numbers.
pub mod regs {
    use at_x64::reg::*;
    pub const X64: [Reg64; 16] = [
        Reg64::RAX, Reg64::RCX, Reg64::RDX, Reg64::RBX, Reg64::RSP, Reg64::RBP, Reg64::RSI, Reg64::RDI,
        Reg64::R8, Reg64::R9, Reg64::R10, Reg64::R11, Reg64::R12, Reg64::R13, Reg64::R14, Reg64::R15,
    ];
    pub const X32: [Reg32; 16] = [
        Reg32::EAX, Reg32::ECX, Reg32::EDX, Reg32::EBX, Reg32::ESP, Reg32::EBP, Reg32::ESI, Reg32::EDI,
        Reg32::R8D, Reg32::R9D, Reg32::R10D, Reg32::R11D, Reg32::R12D, Reg32::R13D, Reg32::R14D, Reg32::R15D,
    ];
    pub const X16: [Reg16; 16] = [
        Reg16::AX, Reg16::CX, Reg16::DX, Reg16::BX, Reg16::SP, Reg16::BP, Reg16::SI, Reg16::DI,
        Reg16::R8W, Reg16::R9W, Reg16::R10W, Reg16::R11W, Reg16::R12W, Reg16::R13W, Reg16::R14W, Reg16::R15W,
    ];
    pub const X8: [Reg8; 16] = [
        Reg8::AL, Reg8::CL, Reg8::DL, Reg8::BL, Reg8::SPL, Reg8::BPL, Reg8::SIL, Reg8::DIL,
        Reg8::R8B, Reg8::R9B, Reg8::R10B, Reg8::R11B, Reg8::R12B, Reg8::R13B, Reg8::R14B, Reg8::R15B,
    ];
}

/// Boundary-oriented values of `bits` bits: small ones, all with one or two bits set, all
/// runs of ones, each byte lane filled with each of several values, and the complements.
pub fn alphabet(bits: u32) -> Vec<u64> {
    let m = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let mut v: Vec<u64> = (0..=300).collect();
    for i in 0..bits {
        let p = 1u64 << i;
        for d in 0..=2u64 {
            v.push(p.wrapping_add(d));
            v.push(p.wrapping_sub(d));
        }
        for j in 0..i {
            v.push(p | 1u64 << j);
            v.push((p << 1).wrapping_sub(1) ^ (1u64 << j).wrapping_sub(1));
        }
    }
    for lane in 0..bits / 8 {
        for x in [1u64, 0x7f, 0x80, 0x81, 0xa5, 0xfe, 0xff] {
            v.push(x << (8 * lane));
        }
    }
    v.push(0x0102030405060708);
    v.push(0x1122334455667788);
    v.push(0xfedcba9876543210);
    let c: Vec<u64> = v.iter().map(|x| !x).collect();
    v.extend(c);
    for x in &mut v {
        *x &= m;
    }
    v.sort();
    v.dedup();
    v
}
