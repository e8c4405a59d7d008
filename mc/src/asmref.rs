//! The reference meaning of assembly programs, and its comparison with emitted objects.
use crate::fw::{hex, sut};
use crate::macho::{Obj, Rel};
use crate::x86::{decode, Effect, Val};
use at_asm::Assembler;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};

/// Assembles in this process. A diagnosed error ends the process, which the explorer reports.
pub fn assemble(src: &[u8]) -> Result<Vec<u8>, String> {
    sut(|| {
        let mut a = Assembler::new();
        a.read_from(&mut &src[..]);
        let mut out = Vec::new();
        a.write_into(&mut out);
        out
    })
    .map_err(|m| format!("assembling a valid program panicked: {m}"))
}

pub const TEXT: usize = 0;
pub const DATA: usize = 1;
pub const BSS: usize = 2;
pub const SECT: [(&str, &str); 3] = [("__text", "__TEXT"), ("__data", "__DATA"), ("__bss", "__DATA")];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sem {
    Nop,
    Section(usize),
    Global(String),
    Label(String),
    Data(Option<String>, Vec<u8>),
    Insn(Effect),
    /// mov of a label's address into a register
    Sym { width: u8, dst: u8, sym: String },
}

#[derive(Clone, Debug)]
pub struct Line {
    pub text: String,
    pub sem: Sem,
}
pub fn line(text: &str, sem: Sem) -> Line {
    Line { text: text.to_string(), sem }
}
pub fn label(n: &str) -> Line {
    line(&format!("{n}:"), Sem::Label(n.into()))
}
pub fn global(n: &str) -> Line {
    line(&format!("global {n}"), Sem::Global(n.into()))
}
pub fn section(i: usize) -> Line {
    line(["section .text", "section .data", "section .bss"][i], Sem::Section(i))
}
pub fn db(l: Option<&str>, b: &[u8]) -> Line {
    let items: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    let t = format!("{}db {}", l.map(|l| format!("{l} ")).unwrap_or_default(), items.join(", "));
    line(&t, Sem::Data(l.map(|s| s.into()), b.to_vec()))
}
pub fn movsym(width: u8, dst: usize, sym: &str) -> Line {
    let r = if width == 64 { crate::x86::R64[dst] } else { crate::x86::R32[dst] };
    line(&format!("mov {r}, {sym}"), Sem::Sym { width, dst: dst as u8, sym: sym.into() })
}
pub fn set_imm(width: u8, dst: usize, v: u64) -> Sem {
    Sem::Insn(Effect::Set { width, dst: dst as u8, val: Val::Imm(v) })
}
pub fn set_reg(width: u8, dst: usize, s: usize) -> Sem {
    Sem::Insn(Effect::Set { width, dst: dst as u8, val: Val::Reg(s as u8) })
}
pub fn text_of<'a>(ls: impl IntoIterator<Item = &'a Line>) -> String {
    let mut s = String::new();
    for l in ls {
        s.push_str(&l.text);
        s.push('\n');
    }
    s
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Piece {
    Bytes(Vec<u8>),
    Insn(Effect),
    Sym { width: u8, dst: u8, sym: String },
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Sec {
    pub pieces: Vec<Piece>,
    /// label and the number of pieces before it
    pub labels: Vec<(String, usize)>,
}
impl Hash for Sec {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.pieces.hash(h);
        self.labels.hash(h);
    }
}

/// The reference assembler: what a program means.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Model {
    pub cur: usize,
    pub secs: [Sec; 3],
    pub globals: BTreeSet<String>,
    /// bytes were emitted into the zero-fill section: must be refused
    pub bad_bss: bool,
}

/// Where things ended up, read off an object that agrees with a model.
pub struct Layout {
    /// (name, section, offset)
    pub labels: Vec<(String, usize, u64)>,
    /// (section, offset of the immediate, its length, symbol)
    pub uses: Vec<(usize, usize, usize, String)>,
}

impl Model {
    pub fn feed(&mut self, s: &Sem) {
        let cur = self.cur;
        let sec = &mut self.secs[cur];
        let n = sec.pieces.len();
        match s {
            Sem::Nop => {}
            Sem::Section(i) => self.cur = *i,
            Sem::Global(g) => {
                self.globals.insert(g.clone());
            }
            Sem::Label(l) => sec.labels.push((l.clone(), n)),
            Sem::Data(l, b) => {
                if let Some(l) = l {
                    sec.labels.push((l.clone(), n));
                }
                sec.pieces.push(Piece::Bytes(b.clone()));
                self.bad_bss |= cur == BSS;
            }
            Sem::Insn(e) => {
                sec.pieces.push(Piece::Insn(e.clone()));
                self.bad_bss |= cur == BSS;
            }
            Sem::Sym { width, dst, sym } => {
                sec.pieces.push(Piece::Sym { width: *width, dst: *dst, sym: sym.clone() });
                self.bad_bss |= cur == BSS;
            }
        }
    }
    pub fn of<'a>(ls: impl IntoIterator<Item = &'a Line>) -> Model {
        let mut m = Model::default();
        for l in ls {
            m.feed(&l.sem);
        }
        m
    }
    pub fn defines(&self, name: &str) -> usize {
        self.secs.iter().map(|s| s.labels.iter().filter(|l| l.0 == name).count()).sum()
    }
    pub fn uses_undefined(&self) -> bool {
        self.secs.iter().any(|s| {
            s.pieces.iter().any(|p| matches!(p, Piece::Sym { sym, .. } if self.defines(sym) == 0))
        })
    }
    pub fn valid(&self) -> bool {
        !self.bad_bss && !self.uses_undefined()
    }

    /// Does the emitted object mean what this program means?
    pub fn check(&self, o: &Obj) -> Result<Layout, String> {
        let mut present: Vec<usize> = Vec::new(); // section kind per ordinal
        for s in &o.sects {
            match SECT.iter().position(|(a, b)| *a == s.sectname && *b == s.segname) {
                Some(k) if !present.contains(&k) => present.push(k),
                _ => return Err(format!("unexpected or repeated section {},{}", s.segname, s.sectname)),
            }
        }
        let mut lay = Layout { labels: vec![], uses: vec![] };
        let mut want_syms: Vec<(String, usize, u64, bool)> = Vec::new();
        for k in 0..3 {
            let m = &self.secs[k];
            let name = SECT[k].0;
            let Some(ord) = present.iter().position(|&p| p == k) else {
                if !m.pieces.is_empty() && m.pieces.iter().any(|p| *p != Piece::Bytes(vec![])) || !m.labels.is_empty() {
                    return Err(format!("section {name} is missing from the object"));
                }
                continue;
            };
            let s = &o.sects[ord];
            if (k == BSS) != s.zerofill() {
                return Err(format!("section {name} has the wrong type"));
            }
            let mut pos = 0usize;
            let mut starts = vec![0usize];
            let mut want_rel: Vec<(Rel, &str)> = Vec::new();
            for (i, p) in m.pieces.iter().enumerate() {
                let rest = &s.data[pos.min(s.data.len())..];
                match p {
                    Piece::Bytes(b) => {
                        if !rest.starts_with(b) {
                            return Err(format!(
                                "{name}+{pos:#x} should hold [{}], holds [{}]",
                                hex(b), hex(&rest[..rest.len().min(b.len() + 4)])
                            ));
                        }
                        pos += b.len();
                    }
                    Piece::Insn(e) => {
                        let d = decode(rest).map_err(|x| format!("{name}+{pos:#x}: {x}; wanted {e:?}"))?;
                        if d.eff != *e {
                            return Err(format!("{name}+{pos:#x} means {:?}, the line says {e:?}", d.eff));
                        }
                        pos += d.len;
                    }
                    Piece::Sym { width, dst, sym } => {
                        let d = decode(rest).map_err(|x| format!("{name}+{pos:#x}: {x}; wanted mov of {sym}"))?;
                        let n = *width as usize / 8;
                        let want = Effect::Set { width: *width, dst: *dst, val: Val::Imm(0) };
                        let Some((off, len)) = d.imm.filter(|x| d.eff == want && x.1 == n) else {
                            return Err(format!("{name}+{pos:#x} (piece {i}) means {:?}, the line says mov of the address of {sym} into register {dst} ({width} bit)", d.eff));
                        };
                        want_rel.push((
                            Rel {
                                addr: (pos + off) as i32,
                                symnum: 0,
                                pcrel: false,
                                len: if len == 8 { 3 } else { 2 },
                                ext: true,
                                ty: 0,
                            },
                            sym,
                        ));
                        lay.uses.push((k, pos + off, len, sym.clone()));
                        pos += d.len;
                    }
                }
                starts.push(pos);
            }
            if pos as u64 != s.size {
                return Err(format!("section {name} has {} bytes, its lines give {pos}", s.size));
            }
            let mut got: Vec<&Rel> = s.relocs.iter().collect();
            got.sort_by_key(|r| r.addr);
            if got.len() != want_rel.len() {
                return Err(format!("section {name} has {} relocations for {} symbolic operands", got.len(), want_rel.len()));
            }
            for (g, (r, sym)) in got.iter().zip(&want_rel) {
                let gname = match o.syms.get(g.symnum as usize) {
                    Some(y) if g.ext => y.name.as_str(),
                    _ => return Err(format!("relocation {g:?} of {name} names no symbol")),
                };
                let norm = Rel { symnum: 0, ..(*g).clone() };
                if norm != *r || gname != *sym {
                    return Err(format!("relocation in {name} is {g:?} of {gname:?}, should be {r:?} of {sym:?}"));
                }
            }
            for (l, p) in &m.labels {
                want_syms.push((l.clone(), k, s.addr + starts[*p] as u64, self.globals.contains(l)));
                lay.labels.push((l.clone(), k, starts[*p] as u64));
            }
        }
        let mut got_syms = Vec::new();
        for y in &o.syms {
            if y.ntype & 0xfe != 0x0e {
                return Err(format!("symbol {} has type {:#x}, not a label", y.name, y.ntype));
            }
            let k = *present.get((y.sect as usize).wrapping_sub(1)).ok_or_else(|| format!("symbol {} has no section", y.name))?;
            got_syms.push((y.name.clone(), k, y.value, y.ntype & 1 == 1));
        }
        want_syms.sort();
        got_syms.sort();
        if want_syms != got_syms {
            let show = |v: &Vec<(String, usize, u64, bool)>| {
                v.iter()
                    .map(|(n, k, a, e)| format!("{n}={}@{a:#x}{}", SECT[*k].0, if *e { " ext" } else { "" }))
                    .collect::<Vec<_>>()
                    .join(", ")
            };
            return Err(format!("symbols are {{{}}}, should be {{{}}}", show(&got_syms), show(&want_syms)));
        }
        Ok(lay)
    }
}
