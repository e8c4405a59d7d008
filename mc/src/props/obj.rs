//! O01..O05: objects emitted as Mach-O files.
use crate::asmref::SECT;
use crate::fw::*;
use crate::macho::{parse, well_formed, Obj, Rel};
use at_obj::{Object, Reloc, Symbol};
use std::fmt::Write as _;

const ASSUME: &[&str] = &[
    "the independent reader (mc/src/macho.rs) restates Apple's loader.h, nlist.h and reloc.h",
    "relocations stand in a section with bytes or symbols; symbol offsets are inside 2^63",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "O01", level: "model_checking", run: |w| { generate(w, o01); beyond_4gib(w) }, bounds, assumptions: ASSUME },
        Prop { id: "O02", level: "model_checking", run: |w| { generate(w, o02); beyond_4gib(w) }, bounds, assumptions: ASSUME },
        Prop { id: "O03", level: "model_checking", run: |w| { generate(w, o03); o03_refused(w) }, bounds, assumptions: ASSUME },
        Prop { id: "O04", level: "model_checking", run: |w| { generate(w, o04); o04_refused(w) }, bounds, assumptions: ASSUME },
        Prop { id: "O05", level: "model_checking", run: |w| generate(w, o05), bounds, assumptions: ASSUME },
    ]
}

fn bounds(t: Tier) -> String {
    let th = t == Tier::Thorough;
    format!(
        "shapes: every text and data length 0..={} x 6 zero-fill sizes x presence of symbols per section x 0..=2 text and 0..=2 data relocations; every sequence of up to 3 symbols over (3 sections x 5 kinds x 5 names), with and without section bytes{}; every sequence of up to 2 relocations over (2 sections x 3 offsets x 4 targets x pcrel x 4 widths) and of up to {} over a reduced alphabet of 32; each bit and boundary of relocation offsets, symbol offsets and absolute values; section sizes around every power of two up to 2^16 and around 2^24, zero-fill sizes around every power of two up to 2^62; text and data that reach 4 GiB together, refused (O01, O02); symbol counts around 2^4, 2^8, 1000{} per section with 4 name patterns; 2^15 to 2^17 symbols of the same name before others; relocation counts around 2^8 and 2^16; names of every length 0..=300 and around 2^12 and 2^16 and with every ASCII character; pairs of names that differ in one place or in length; every name of up to 2 characters and 157 prefixes, suffixes and infixes with a meaning to tools; 12 patterns of section contents at 54 sizes, every constant content, and one byte that differs from all others at up to 300 places of 43 sizes up to 65536; refusals (O03, O04): 15 characters that cannot be stored at every place of names of up to 5 characters, unknown relocation targets, widths 4..=255",
        if th { 17 } else { 9 },
        if th { "; of 4 over a reduced alphabet of 27" } else { "" },
        if th { 4 } else { 3 },
        if th { ", 4096 and 2^16" } else { " and 4096" },
    )
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum K {
    Undef,
    Abs(u64, bool),
    Ref(u64, bool),
}
#[derive(Clone, Hash, Debug)]
struct R {
    addr: i32,
    sym: String,
    pcrel: bool,
    len: u8,
}
#[derive(Clone, Hash, Default)]
struct Spec {
    text: Vec<u8>,
    data: Vec<u8>,
    bss: u64,
    syms: [Vec<(String, K)>; 3],
    rels: [Vec<R>; 2],
}
impl Spec {
    fn size(&self, k: usize) -> u64 {
        [self.text.len() as u64, self.data.len() as u64, self.bss][k]
    }
    fn present(&self) -> Vec<usize> {
        (0..3).filter(|&k| self.size(k) > 0 || !self.syms[k].is_empty()).collect()
    }
    fn nrel(&self, k: usize) -> usize {
        self.rels.get(k).map_or(0, |r| r.len())
    }
    fn bytes(&self, k: usize) -> &[u8] {
        [&self.text[..], &self.data[..], &[]][k]
    }
    fn desc(&self) -> String {
        let mut s = format!("text {} bytes, data {} bytes, bss {:#x}", self.text.len(), self.data.len(), self.bss);
        for k in 0..3 {
            for (n, y) in self.syms[k].iter().take(6) {
                let _ = write!(s, "; {} symbol {:?} {y:x?}", SECT[k].0, clip(n, 40));
            }
            if self.syms[k].len() > 6 {
                let _ = write!(s, "; ... {} symbols of {}", self.syms[k].len(), SECT[k].0);
            }
        }
        for k in 0..2 {
            for r in self.rels[k].iter().take(6) {
                let _ = write!(s, "; {} reloc at {:#x} of {:?} pcrel {} len {}", SECT[k].0, r.addr, clip(&r.sym, 40), r.pcrel, r.len);
            }
            if self.rels[k].len() > 6 {
                let _ = write!(s, "; ... {} relocations of {}", self.rels[k].len(), SECT[k].0);
            }
        }
        s
    }
    fn build(&self) -> Object {
        let mut o = Object::new();
        o.sections.text.bytes = self.text.clone();
        o.sections.data.bytes = self.data.clone();
        o.sections.bss.size = self.bss;
        let sy = |k: usize| -> Vec<Symbol> {
            self.syms[k]
                .iter()
                .map(|(n, y)| match *y {
                    K::Undef => Symbol::Undef { name: n.clone() },
                    K::Abs(val, ext) => Symbol::Abs { name: n.clone(), val, ext },
                    K::Ref(addr, ext) => Symbol::Ref { name: n.clone(), addr, ext },
                })
                .collect()
        };
        o.sections.text.symbols = sy(0);
        o.sections.data.symbols = sy(1);
        o.sections.bss.symbols = sy(2);
        let re = |k: usize| -> Vec<Reloc> {
            self.rels[k].iter().map(|r| Reloc { addr: r.addr, symbol: r.sym.clone(), pcrel: r.pcrel, len: r.len }).collect()
        };
        o.sections.text.relocs = re(0);
        o.sections.data.relocs = re(1);
        o
    }
}

fn fill(n: usize, seed: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add((i >> 8) as u8).wrapping_add(seed) | 1).collect()
}
fn rf(n: &str, addr: u64) -> (String, K) {
    (n.to_string(), K::Ref(addr, false))
}

type Check = fn(&Spec, &[u8], &Obj) -> Result<(), String>;

fn run(w: &mut W, fam: &str, chk: Check, mk: impl Fn() -> Spec) {
    w.case(fam, || mk().desc(), |w| {
        let s = mk();
        let o = s.build();
        let out = sut(|| {
            let mut out = Vec::new();
            at_obj::macho::write_into(&o, &mut out);
            out
        })
        .map_err(|m| format!("emitting the object panicked: {m}"))?;
        w.state(&s);
        w.outcome(&out);
        w.transitions += 1 + (0..3).map(|k| s.syms[k].len() + s.nrel(k)).sum::<usize>() as u64;
        let p = parse(&out).map_err(|e| format!("not readable: {e}"))?;
        chk(&s, &out, &p)
    });
}

fn generate(w: &mut W, c: Check) {
    let th = w.thorough();
    // shapes
    let m = if th { 17 } else { 9 };
    for t in 0..=m {
        for d in 0..=m {
            for bss in [0u64, 1, 5, 8, 4096, (1 << 33) + 1] {
                for mask in 0..8u8 {
                    for tr in 0..=2usize {
                        for dr in 0..=2usize {
                            if tr + dr > 0 && mask == 0 || tr > 0 && t == 0 || dr > 0 && d == 0 {
                                continue;
                            }
                            run(w, "shapes", c, || {
                                let mut s = Spec { text: fill(t, 3), data: fill(d, 0x50), bss, ..Default::default() };
                                let mut names = vec![];
                                for k in 0..3 {
                                    if mask >> k & 1 == 1 {
                                        s.syms[k].push(rf(["_t", "_data", "b"][k], s.size(k)));
                                        names.push(["_t", "_data", "b"][k]);
                                    }
                                }
                                for i in 0..tr {
                                    s.rels[0].push(R { addr: i as i32, sym: names[i % names.len()].into(), pcrel: i == 1, len: 3 - i as u8 });
                                }
                                for i in 0..dr {
                                    s.rels[1].push(R { addr: 1 - i as i32, sym: names[(i + 1) % names.len()].into(), pcrel: i == 0, len: i as u8 });
                                }
                                s
                            });
                        }
                    }
                }
            }
        }
    }
    // symbol sequences
    let names = ["a", "ab", "b", "", "_main"];
    let kinds = |i: usize| [K::Undef, K::Abs(0x1122_3344_5566_7788, false), K::Abs(7, true), K::Ref(2, false), K::Ref(3, true)][i];
    let mut alpha: Vec<(usize, usize, usize)> = vec![];
    for s in 0..3 {
        for k in 0..5 {
            for n in 0..5 {
                alpha.push((s, k, n));
            }
        }
    }
    let small: Vec<(usize, usize, usize)> =
        alpha.iter().cloned().filter(|x| [0, 2, 3].contains(&x.1) && [0, 1, 3].contains(&x.2)).collect();
    let mut seqs = |al: &[(usize, usize, usize)], n: usize, empty: bool| {
        for x in 0..al.len().pow(n as u32) {
            run(w, if n == 4 { "symbol sequences of 4" } else { "symbol sequences" }, c, || {
                let mut s = Spec::default();
                if !empty {
                    s.text = fill(5, 1);
                    s.data = fill(3, 9);
                    s.bss = 16;
                }
                let mut x = x;
                for i in 0..n {
                    let (sect, k, nm) = al[x % al.len()];
                    x /= al.len();
                    let k = match kinds(k) {
                        K::Ref(a, e) => K::Ref(if empty { 0 } else { a + i as u64 % 2 }, e),
                        K::Abs(a, e) => K::Abs(a + i as u64, e),
                        y => y,
                    };
                    s.syms[sect].push((names[nm].to_string(), k));
                    if !empty {
                        s.rels[i % 2].push(R { addr: i as i32, sym: names[nm].into(), pcrel: false, len: 2 });
                    }
                }
                s
            });
        }
    };
    for n in 0..=3 {
        seqs(&alpha, n, false);
    }
    for n in 1..=2 {
        seqs(&alpha, n, true);
    }
    if th {
        seqs(&small, 4, false);
    }
    // relocation sequences
    let targets = ["t0", "u", "d", "bb"];
    let base = || {
        let mut s = Spec { text: fill(20, 2), data: fill(13, 7), bss: 24, ..Default::default() };
        s.syms[0] = vec![rf("t0", 4), ("u".into(), K::Undef)];
        s.syms[1] = vec![("d".into(), K::Ref(1, true)), ("t".into(), K::Abs(5, false))];
        s.syms[2] = vec![rf("b", 0), rf("bb", 8)];
        s
    };
    let mut ra: Vec<(usize, R)> = vec![];
    let mut rsmall: Vec<(usize, R)> = vec![];
    for sect in 0..2 {
        for addr in [0, 5, 12] {
            for sym in targets {
                for pcrel in [false, true] {
                    for len in 0..4u8 {
                        let r = (sect, R { addr, sym: sym.into(), pcrel, len });
                        if addr != 12 && ((pcrel, len) == (false, 3) || (pcrel, len) == (true, 2)) {
                            rsmall.push(r.clone());
                        }
                        ra.push(r);
                    }
                }
            }
        }
    }
    let mut rseq = |al: &[(usize, R)], n: usize| {
        for x in 0..al.len().pow(n as u32) {
            run(w, "relocation sequences", c, || {
                let mut s = base();
                let mut x = x;
                for _ in 0..n {
                    let (k, r) = &al[x % al.len()];
                    x /= al.len();
                    s.rels[*k].push(r.clone());
                }
                s
            });
        }
    };
    rseq(&ra, 1);
    rseq(&ra, 2);
    rseq(&rsmall, 3);
    if th {
        rseq(&rsmall, 4);
    }
    // values
    let near = |top: u32| -> Vec<u64> {
        let mut v: Vec<u64> = (0..=40).collect();
        for b in 0..=top {
            for d in [-1i64, 0, 1] {
                v.push((1u64 << b).wrapping_add(d as u64));
            }
        }
        v.sort();
        v.dedup();
        v
    };
    for a in near(31).into_iter().filter(|&a| a <= i32::MAX as u64) {
        for k in 0..2 {
            run(w, "relocation offsets", c, || {
                let mut s = base();
                s.rels[k].push(R { addr: a as i32, sym: "d".into(), pcrel: k == 0, len: 3 });
                s
            });
        }
    }
    for v in near(63).into_iter().chain([u64::MAX, u64::MAX - 1, u64::MAX - 4096, 0x0102_0304_0506_0708]) {
        for k in 0..3 {
            for ext in [false, true] {
                for abs in [false, true] {
                    // (the section's address is added to the place)
                    if !abs && k > 0 && v > u64::MAX - 4096 {
                        continue;
                    }
                    run(w, "symbol values", c, || {
                        let mut s = base();
                        s.syms[k].push(("v".into(), if abs { K::Abs(v, ext) } else { K::Ref(v, ext) }));
                        s
                    });
                }
            }
        }
    }
    // sizes
    let mut sizes: Vec<usize> = (18..=70).collect();
    for b in 7..=16 {
        for d in [-1i64, 0, 1, 5] {
            sizes.push(((1i64 << b) + d) as usize);
        }
    }
    sizes.extend([(1 << 24) - 1, (1 << 24) + 3]);
    for &n in &sizes {
        for which in 0..3 {
            for other in [0usize, 1, 7] {
                run(w, "sizes", c, || {
                    let mut s = base();
                    s.bss = 24;
                    let (a, b) = [(n, other), (other, n), (n, n.min(1 << 17))][which];
                    s.text = fill(a, 11);
                    s.data = fill(b, 5);
                    if a > 0 {
                        s.rels[0].push(R { addr: (a - 1) as i32, sym: "d".into(), pcrel: false, len: 3 });
                    }
                    if b > 0 {
                        s.rels[1].push(R { addr: (b - 1) as i32, sym: "t0".into(), pcrel: false, len: 2 });
                    }
                    s
                });
            }
        }
    }
    for v in near(62) {
        for mask in 0..8 {
            run(w, "zero-fill sizes", c, || {
                let mut s = base();
                s.bss = v;
                if mask & 1 == 0 {
                    s.text.clear();
                }
                if mask & 2 == 0 {
                    s.data.clear();
                }
                if mask & 4 == 0 {
                    s.syms[2].push(("end".into(), K::Ref(v, true)));
                } else {
                    // nothing but its size makes the section appear
                    s.rels.iter_mut().for_each(|r| r.retain(|r| !s.syms[2].iter().any(|y| y.0 == r.sym)));
                    s.syms[2].clear();
                }
                s
            });
        }
    }
    // counts
    let pat = |p: usize, k: usize, i: usize| -> String {
        match p {
            0 => format!("s{k}_{i}"),
            // each name a prefix of the next
            1 => "x".repeat(1 + (i % 40)) + &format!("{}", k * 100000 + i),
            // each name a suffix of others
            2 => format!("{}{}", k * 100000 + i, "x".repeat(40 - i % 40)),
            // repeated names
            _ => format!("n{}", i % 7),
        }
    };
    let mut counts = vec![14usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 4096];
    if th {
        // (the emission takes time quadratic in the number of names)
        counts.extend([4095, 4097, 16384, 20000]);
    }
    for &n in &counts {
        for p in 0..4 {
            for place in 0..4 {
                if n > 16000 && (p != 0 || place > 1) {
                    continue;
                }
                run(w, "symbol counts", c, || {
                    let mut s = Spec { text: fill(9, 2), data: fill(6, 7), bss: 24, ..Default::default() };
                    for i in 0..n {
                        let k = if place == 3 { i % 3 } else { place };
                        let y = match i % 5 {
                            0 | 3 => K::Ref(i as u64 % 7, false),
                            1 => K::Ref(i as u64 % 5, true),
                            2 => K::Undef,
                            _ => K::Abs(i as u64, i % 2 == 0),
                        };
                        s.syms[k].push((pat(p, k, i), y));
                    }
                    for i in [0, n / 2, n - 1, n.min(256) - 1, n.min(257) - 1] {
                        let k = if place == 3 { i % 3 } else { place };
                        s.rels[i % 2].push(R { addr: 1, sym: pat(p, k, i), pcrel: false, len: 3 });
                    }
                    s
                });
            }
        }
    }
    // many symbols of long names
    for n in [100usize, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 1100, 2050] {
        for l in [3usize, 15, 16, 31, 63, 127, 128, 248, 249, 250, 251, 255, 256, 257, 300, 1000] {
            for p in 0..2 {
                if n * l > if th { 1 << 22 } else { 1 << 19 } {
                    continue;
                }
                run(w, "many long names", c, || {
                    let mut s = Spec { text: fill(9, 2), data: fill(6, 7), bss: 24, ..Default::default() };
                    let name = |i: usize| if p == 0 { format!("{}{i:06}", "n".repeat(l)) } else { format!("{i:06}{}", "n".repeat(l + i % 3)) };
                    for i in 0..n {
                        let k = if i % 2 == 0 { n % 3 } else { i % 3 };
                        s.syms[k].push((name(i), K::Ref(i as u64 % 7, i % 3 == 0)));
                    }
                    for i in (0..n).step_by(101).chain([n - 1, n.min(256) - 1, n.min(1025) - 1]) {
                        s.rels[i % 2].push(R { addr: (i % 5) as i32, sym: name(i), pcrel: false, len: 3 });
                    }
                    s
                });
            }
        }
    }
    // many symbols of few names: indices and string table offsets beyond 16 bits
    for n in [32767usize, 32768, 65534, 65535, 65536, 65537, 70000, 131072] {
        for k in 0..3 {
            run(w, "many symbols", c, || {
                let mut s = Spec { text: fill(9, 2), data: fill(6, 7), bss: 24, ..Default::default() };
                for i in 0..n {
                    s.syms[k].push(("a".into(), K::Ref(i as u64 % 5, i % 3 == 0)));
                }
                for (i, m) in ["y", "", "zz"].into_iter().enumerate() {
                    s.syms[k].push((m.into(), K::Ref(i as u64, true)));
                    s.rels[k % 2].push(R { addr: i as i32, sym: m.into(), pcrel: false, len: 3 });
                    s.rels[(k + 1) % 2].push(R { addr: i as i32, sym: m.into(), pcrel: i == 1, len: 2 });
                }
                s
            });
        }
    }
    for n in [100usize, 254, 255, 256, 257, 258, 1000, 65535, 65536, 65537] {
        for place in 0..3 {
            run(w, "relocation counts", c, || {
                let mut s = base();
                s.text = fill(n.min(4000) + 1, 2);
                for i in 0..n {
                    let k = if place == 2 { i % 2 } else { place };
                    s.rels[k].push(R { addr: (i * 3) as i32, sym: targets[(i * 7 / 3) % 4].into(), pcrel: i % 3 == 0, len: (i % 4) as u8 });
                }
                s
            });
        }
    }
    // names
    for n in (0..=300usize).chain([511, 512, 1023, 1024, 4095, 4096, 4097, 65534, 65535, 65536, 70000]) {
        for k in 0..3 {
            run(w, "name lengths", c, || {
                let mut s = base();
                s.syms[k].insert(1, ("n".repeat(n), K::Ref(1, true)));
                s.syms[k].push(("nn".into(), K::Ref(0, false)));
                s.rels[0].push(R { addr: 0, sym: "n".repeat(n), pcrel: false, len: 3 });
                s.rels[1].push(R { addr: 0, sym: "nn".into(), pcrel: false, len: 3 });
                s
            });
        }
    }
    // names that mean something to other tools
    let known = super::asm::affix_names();
    for (i, n) in known.iter().enumerate() {
        for kind in 0..3usize {
            run(w, "names with affixes", c, || {
                let mut s = base();
                let other = known[(i + 1) % known.len()].clone();
                let (a, b) = [(K::Ref(1, true), K::Ref(2, false)), (K::Ref(2, false), K::Abs(7, true)), (K::Undef, K::Abs(9, false))][kind];
                s.syms[i % 3].push((n.clone(), a));
                s.syms[(i + kind) % 3].insert(0, (other.clone(), b));
                s.rels[0].push(R { addr: 0, sym: n.clone(), pcrel: false, len: 3 });
                s.rels[1].push(R { addr: 1, sym: other, pcrel: kind == 1, len: 2 });
                s
            });
        }
    }
    // names that are alike
    for n in (1..=if th { 600usize } else { 140 }).chain([254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 65535]) {
        for (i, (a, b)) in super::asm::twins(n).into_iter().enumerate() {
            for k in 0..2 {
                run(w, "similar names", c, || {
                    let mut s = base();
                    let (x, y) = if k == 0 { (&a, &b) } else { (&b, &a) };
                    s.syms[i % 3].push((x.clone(), K::Ref(1, true)));
                    s.syms[(i + k) % 3].push((y.clone(), K::Ref(3, false)));
                    s.rels[0].push(R { addr: 2, sym: y.clone(), pcrel: false, len: 3 });
                    s.rels[1].push(R { addr: 3, sym: x.clone(), pcrel: false, len: 2 });
                    s
                });
            }
        }
    }
    // contents
    for n in (0..=40usize).chain([63, 64, 65, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537]) {
        for pattern in 0..10 {
            for which in 0..3 {
                run(w, "contents", c, || {
                    let mut s = base();
                    let part = |x: u8, y: u8, at: usize| -> Vec<u8> { (0..n).map(|i| if i < at { x } else { y }).collect() };
                    let v = match pattern {
                        0 => part(0, 0, 0),
                        1 => part(0xff, 0xff, 0),
                        2 => part(7, 0, n / 2),
                        3 => part(0, 7, n / 2),
                        4 => part(0x90, 0, n.saturating_sub(1)),
                        5 => part(0xcc, 0x0a, n.saturating_sub(1)),
                        6 => part(b'a', 0, n.saturating_sub(8)),
                        7 => [0xcf, 0xfa, 0xed, 0xfe, 7, 0, 0, 1].into_iter().cycle().take(n).collect(),
                        8 => [0x0d, 0x0a, 0x1a, 0x00].into_iter().cycle().take(n).collect(),
                        _ => (0..n).map(|i| (n - i) as u8).collect(),
                    };
                    if which != 1 {
                        s.text = v.clone();
                    }
                    if which != 0 {
                        s.data = v;
                    }
                    for k in 0..2 {
                        if s.size(k) > 8 {
                            s.rels[k].push(R { addr: 1, sym: "t0".into(), pcrel: false, len: 3 });
                        }
                    }
                    s
                });
            }
        }
    }
    // one byte that differs from all others
    for n in (1..=34usize).chain([64, 256, 512, 1024, 4095, 4096, 4097, 8192, 65536]) {
        let mut at: Vec<usize> = (0..n.min(70)).chain(n.saturating_sub(18)..n).chain(n / 2..n / 2 + 2).collect();
        for b in 7..=15 {
            at.extend((1usize << b) - 9..=(1 << b) + 8);
        }
        at.retain(|i| *i < n);
        at.sort();
        at.dedup();
        for at in at {
            for (x, y) in [(0u8, 7u8), (0xff, 0), (0x90, 0), (b'a', 0xff)] {
                for which in 0..2 {
                    run(w, "contents", c, || {
                        let mut s = base();
                        let mut b = vec![x; n];
                        b[at] = y;
                        if which == 0 { s.text = b } else { s.data = b }
                        s
                    });
                }
            }
        }
    }
    for v in 0..=255u8 {
        for which in 0..2 {
            run(w, "contents", c, || {
                let mut s = base();
                let b: Vec<u8> = vec![v; 9 + v as usize % 8];
                if which == 0 { s.text = b } else { s.data = b }
                s
            });
        }
    }
    for ch in 1..=127u8 {
        for k in 0..3 {
            run(w, "name characters", c, || {
                let mut s = base();
                let ch = ch as char;
                s.syms[k].push((format!("{ch}"), K::Ref(1, true)));
                s.syms[k].push((format!("{ch}{ch}"), K::Undef));
                s.syms[k].push((format!("q{ch}q"), K::Abs(3, true)));
                for n in [format!("q{ch}q"), format!("{ch}"), format!("{ch}{ch}")] {
                    s.rels[k % 2].push(R { addr: 2, sym: n, pcrel: false, len: 3 });
                }
                s
            });
        }
    }
}

fn o01(_: &Spec, out: &[u8], o: &Obj) -> Result<(), String> {
    well_formed(out, o)
}

fn o02(s: &Spec, _: &[u8], o: &Obj) -> Result<(), String> {
    let present = s.present();
    if o.sects.len() != present.len() {
        return Err(format!("{} sections in the file, should be {}", o.sects.len(), present.len()));
    }
    let mut addr = 0u64;
    for (e, &k) in o.sects.iter().zip(&present) {
        let name = SECT[k].0;
        if (e.sectname.as_str(), e.segname.as_str()) != SECT[k] {
            return Err(format!("section {},{} stands where {:?} belongs", e.segname, e.sectname, SECT[k]));
        }
        if e.addr != addr {
            return Err(format!("{name} is at {:#x}, should be at {addr:#x}", e.addr));
        }
        if e.size != s.size(k) {
            return Err(format!("{name} has size {:#x}, should have {:#x}", e.size, s.size(k)));
        }
        addr += e.size;
        if e.data != s.bytes(k) {
            let at = e.data.iter().zip(s.bytes(k)).position(|(a, b)| a != b);
            return Err(format!("{name}: file bytes differ at {at:?} ({} bytes, should be {})", e.data.len(), s.bytes(k).len()));
        }
        if e.zerofill() != (k == 2) {
            return Err(format!("{name}: section type is {:#x}", e.flags & 0xff));
        }
        if k == 2 && e.offset != 0 {
            return Err(format!("{name} takes no file space but has file offset {}", e.offset));
        }
        if k < 2 && e.flags & 0xff != 0 {
            return Err(format!("{name}: section type is {:#x}, not regular", e.flags & 0xff));
        }
        if (e.flags & 0x8000_0400 == 0x8000_0400) != (k == 0) || (k != 0 && e.flags & 0x8000_0400 != 0) {
            return Err(format!("{name}: instruction marks are {:#x}", e.flags & 0x8000_0400));
        }
        let marks = e.flags & 0x300;
        if marks != if s.nrel(k) > 0 { 0x300 } else { 0 } {
            return Err(format!("{name}: {} relocations but marks {marks:#x}", s.nrel(k)));
        }
        if e.flags & !0x8000_07ff != 0 {
            return Err(format!("{name}: unknown marks in {:#x}", e.flags));
        }
    }
    Ok(())
}

/// The object's own lists of its symbols are complete and in the order of the table.
fn listed(s: &Spec) -> Result<(), String> {
    let mut o = s.build();
    let all: Vec<Symbol> = [&o.sections.text.symbols, &o.sections.data.symbols, &o.sections.bss.symbols].into_iter().flatten().cloned().collect();
    let n = all.len();
    let wrong = |what: &str, got: &[Symbol]| {
        let at = got.iter().zip(&all).position(|(a, b)| a != b).unwrap_or(got.len().min(n));
        Err(format!("{what} yields {} symbols of {n}; number {at} is {:?}, should be {:?}", got.len(), got.get(at), all.get(at)))
    };
    let got: Vec<Symbol> = sut(|| o.symbols().cloned().collect())?;
    if got != all {
        return wrong("symbols()", &got);
    }
    let want: Vec<&str> = s.syms.iter().flatten().map(|x| x.0.as_str()).collect();
    if all.iter().map(|x| x.name()).ne(want) {
        return Err("a symbol's name() is not its name".into());
    }
    let got: Vec<Symbol> = sut(|| o.symbols_mut().map(|y| y.clone()).collect())?;
    if got != all {
        return wrong("symbols_mut()", &got);
    }
    // a change through the mutable list arrives in the section
    sut(|| {
        for (i, y) in o.symbols_mut().enumerate() {
            *y = Symbol::Abs { name: "m".into(), val: i as u64, ext: true };
        }
    })?;
    let secs = [&o.sections.text.symbols, &o.sections.data.symbols, &o.sections.bss.symbols];
    let ok = secs.iter().map(|v| v.len()).eq(s.syms.iter().map(|v| v.len()))
        && secs.into_iter().flatten().enumerate().all(|(i, y)| *y == Symbol::Abs { name: "m".into(), val: i as u64, ext: true });
    if ok { Ok(()) } else { Err("symbols changed through symbols_mut() are not changed in their sections".into()) }
}

fn o03(s: &Spec, _: &[u8], o: &Obj) -> Result<(), String> {
    listed(s)?;
    let present = s.present();
    let mut addr = 0u64;
    let mut want: Vec<(&str, u8, u8, u64)> = vec![];
    for (i, &k) in present.iter().enumerate() {
        for (n, y) in &s.syms[k] {
            want.push(match *y {
                K::Undef => (n, 0x01, 0, 0),
                K::Abs(v, e) => (n, 0x02 | e as u8, 0, v),
                K::Ref(a, e) => (n, 0x0e | e as u8, i as u8 + 1, addr + a),
            });
        }
        addr += s.size(k);
    }
    if o.syms.len() != want.len() {
        return Err(format!("{} symbols in the file, should be {}", o.syms.len(), want.len()));
    }
    for (i, (g, x)) in o.syms.iter().zip(&want).enumerate() {
        if (g.name.as_str(), g.ntype, g.sect, g.value) != *x {
            return Err(format!(
                "symbol {i} is {:?} type {:#x} section {} value {:#x}, should be {:?} type {:#x} section {} value {:#x}",
                clip(&g.name, 80), g.ntype, g.sect, g.value, clip(x.0, 80), x.1, x.2, x.3
            ));
        }
        if g.desc != 0 {
            return Err(format!("symbol {i} has description {:#x}", g.desc));
        }
    }
    Ok(())
}

fn o04(s: &Spec, _: &[u8], o: &Obj) -> Result<(), String> {
    let present = s.present();
    for (e, &k) in o.sects.iter().zip(&present) {
        let want: &[R] = s.rels.get(k).map_or(&[], |r| r);
        if e.relocs.len() != want.len() {
            return Err(format!("{} lists {} relocations, should list {}", e.sectname, e.relocs.len(), want.len()));
        }
        for (i, (g, r)) in e.relocs.iter().zip(want).enumerate() {
            let x = Rel { addr: r.addr, symnum: g.symnum, pcrel: r.pcrel, len: r.len, ext: true, ty: 0 };
            if *g != x {
                return Err(format!("relocation {i} of {} is {g:?}, should be {x:?}", e.sectname));
            }
            match o.syms.get(g.symnum as usize) {
                Some(y) if y.name == r.sym => {}
                y => {
                    return Err(format!(
                        "relocation {i} of {} denotes symbol {} {:?}, should be {:?}",
                        e.sectname, g.symnum, y.map(|y| clip(&y.name, 80)), clip(&r.sym, 80)
                    ))
                }
            }
        }
    }
    Ok(())
}

/// The repository's own reader finds in the file what the independent one finds.
fn o05(_: &Spec, out: &[u8], o: &Obj) -> Result<(), String> {
    use at_mac::header::*;
    use at_mac::load_command::LoadCommand as LC;
    use at_mac::nlist::{NList64, NType, NTypeField};
    use at_mac::reloc::RelocationInfo;
    use at_mac::string_table::StringTable;
    let at = |off: u64| out.get(off as usize..).unwrap_or(&[]);
    let run = || -> Result<(), String> {
        let mut r = out;
        let (h, e) = Header64::read_from(&mut r);
        let got = (h.magic.to_u32() == o.magic, h.cpu_type.to_i32_i32(), h.file_type.to_u32(), h.n_cmds, h.size_of_cmds, h.flags.to_u32(), h.reserved);
        let want = (true, (o.cputype as i32, o.cpusubtype as i32), o.filetype, o.ncmds, o.sizeofcmds, o.hflags, o.hreserved);
        if got != want {
            return Err(format!("the header reads as {got:?}, the file says {want:?}"));
        }
        let cmds: Vec<LC> = (0..h.n_cmds).map(|_| LC::read_from_in(&mut r, e)).collect();
        if out.len() - r.len() != 32 + h.size_of_cmds as usize {
            return Err(format!("the load commands end at {}, should end at {}", out.len() - r.len(), 32 + h.size_of_cmds));
        }
        if cmds.iter().map(|c| c.cmd_size()).sum::<u32>() != h.size_of_cmds {
            return Err("the sizes of the load commands do not add up to what the header says".into());
        }
        let (mut segs, mut tabs) = (0, 0);
        for c in &cmds {
            match c {
                LC::Segment64(g, ss) => {
                    segs += 1;
                    let got = (g.segname.as_str(), g.vmaddr, g.vmsize, g.fileoff, g.filesize, g.maxprot as u32, g.initprot as u32, g.flags, g.nsects as usize);
                    let want = (o.segname.as_str(), o.vmaddr, o.vmsize, o.fileoff, o.filesize, o.maxprot, o.initprot, o.segflags, o.sects.len());
                    if got != want || ss.len() != o.sects.len() {
                        return Err(format!("the segment reads as {got:?} with {} sections, the file says {want:?}", ss.len()));
                    }
                    for (s, x) in ss.iter().zip(&o.sects) {
                        let flags = s.flags.0.to_u32() | s.flags.1.to_u32();
                        let got = (s.sectname.as_str(), s.segname.as_str(), s.addr, s.size, s.offset, s.align, s.reloff, s.nreloc, flags);
                        let want = (x.sectname.as_str(), x.segname.as_str(), x.addr, x.size, x.offset, x.align, x.reloff, x.nreloc, x.flags);
                        if got != want {
                            return Err(format!("a section reads as {got:?}, the file says {want:?}"));
                        }
                        let mut r = at(s.reloff as u64);
                        for (i, x) in x.relocs.iter().enumerate() {
                            let g = RelocationInfo::read_from_in(&mut r, e);
                            let got = Rel { addr: g.r_address, symnum: g.r_symbolnum, pcrel: g.r_pcrel, len: g.r_length.to_u32() as u8, ext: g.r_extern, ty: g.r_type };
                            if got != *x {
                                return Err(format!("relocation {i} of {} reads as {got:?}, the file says {x:?}", s.sectname));
                            }
                        }
                    }
                }
                LC::Symtab(t) => {
                    tabs += 1;
                    let got = (t.symoff, t.nsyms as usize, t.stroff, t.strsize);
                    let want = (o.symoff, o.syms.len(), o.stroff, o.strsize);
                    if got != want {
                        return Err(format!("the symbol table command reads as {got:?}, the file says {want:?}"));
                    }
                    let strs = StringTable::from(at(t.stroff as u64)[..t.strsize as usize].to_vec());
                    if strs.len() != t.strsize as usize {
                        return Err(format!("the string table reads with {} bytes, the file says {}", strs.len(), t.strsize));
                    }
                    let mut r = at(t.symoff as u64);
                    for (i, x) in o.syms.iter().enumerate() {
                        let g = NList64::read_from_in(&mut r, e);
                        let name = strs.get(g.n_strx as usize);
                        let got = (g.n_strx, name, g.n_type.to_u8(), g.n_sect, g.n_desc, g.n_value);
                        let want = (x.strx, x.name.as_str(), x.ntype, x.sect, x.desc, x.value);
                        if got != want {
                            return Err(format!("symbol {i} reads as {got:x?}, the file says {want:x?}"));
                        }
                        let ty = match x.ntype & 0xe {
                            0 => NType::Undf,
                            2 => NType::Abs,
                            _ => NType::Sect,
                        };
                        match g.n_type {
                            NTypeField::Norm { n_pext, n_type, n_ext } if (n_pext, n_type, n_ext) == (x.ntype & 0x10 != 0, ty, x.ntype & 1 != 0) => {}
                            k => return Err(format!("symbol {i} of type {:#x} reads as {k:?}", x.ntype)),
                        }
                    }
                }
                LC::Dysymtab(_) | LC::BuildVersion(..) => {}
            }
        }
        if (segs, tabs) != (1, 1) {
            return Err(format!("the commands read as {segs} segments and {tabs} symbol tables"));
        }
        Ok(())
    };
    sut(run).map_err(|m| format!("reading the emitted file panicked: {m}"))?
}

/// Keeps the first bytes of what is written and counts the rest.
struct Far {
    head: Vec<u8>,
    n: u64,
}
impl std::io::Write for Far {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(4096 - self.head.len());
        self.head.extend_from_slice(&b[..k]);
        self.n += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// Contents beyond what the file format's 32-bit places can reach: refused, or described as they are.
fn beyond_4gib(w: &mut W) {
    const G4: usize = 1 << 32;
    // one case, so that one worker runs them one after another
    w.case("contents beyond 4 GiB", || "text and data of zero bytes whose sizes reach 4 GiB together".into(), |w| {
        for (t, d) in [(G4, 0), (G4 + 5, 0), (0, G4), (0, G4 + 8), (7, G4 - 7), (1 << 31, 1 << 31), (G4 - 1, 0), (0, G4 - 300)] {
            for syms in [false, true] {
                far(w, t, d, syms).map_err(|e| format!("text of {t:#x} bytes, data of {d:#x}, symbols {syms}: {e}"))?;
            }
        }
        Ok(())
    });
}
fn far(w: &mut W, t: usize, d: usize, syms: bool) -> Result<(), String> {
    w.state(&(t, d, syms));
    w.transitions += 1;
    // zero pages, which take no memory as long as nobody writes to them
    let mut o = Object::new();
    o.sections.text.bytes = vec![0; t];
    o.sections.data.bytes = vec![0; d];
    if syms {
        o.sections.text.symbols.push(Symbol::Ref { name: "t".into(), addr: 1, ext: true });
        o.sections.data.symbols.push(Symbol::Ref { name: "d".into(), addr: 1, ext: false });
    }
    let mut far = Far { head: vec![], n: 0 };
    if sut(|| at_obj::macho::write_into(&o, &mut far)).is_err() {
        w.refused += 1;
        return Ok(());
    }
    let h = &far.head;
    let u = |at: usize| h.get(at..at + 4).map_or(0, |b| u32::from_le_bytes(b.try_into().unwrap()) as u64);
    let u8_ = |at: usize| u(at) | u(at + 4) << 32;
    let ns = u(32 + 64) as usize;
    let want: Vec<u64> = [t, d].iter().enumerate().filter(|(_, n)| **n > 0 || syms).map(|(_, n)| *n as u64).collect();
    if ns != want.len() {
        return Err(format!("{ns} sections, should be {}", want.len()));
    }
    let sy = 32 + 72 + 80 * ns;
    let (symoff, nsyms, stroff, strsize) = (u(sy + 8), u(sy + 12), u(sy + 16), u(sy + 20));
    if stroff + strsize != far.n || symoff + 16 * nsyms > stroff {
        return Err(format!("the file has {:#x} bytes, symbols at {symoff:#x}, strings at {stroff:#x}", far.n));
    }
    for (k, n) in want.iter().enumerate() {
        let at = 32 + 72 + 80 * k;
        let (size, off) = (u8_(at + 40), u(at + 48));
        if size != *n || off + size > symoff {
            return Err(format!("section {k} of {n:#x} bytes is described as {size:#x} bytes at {off:#x}, symbols at {symoff:#x}, {:#x} bytes written", far.n));
        }
    }
    Ok(())
}

fn must_refuse(w: &mut W, fam: &str, s: &Spec, why: &str) {
    w.case(fam, || s.desc(), |w| {
        w.state(s);
        w.transitions += 1;
        w.refused += 1;
        let o = s.build();
        match sut(|| {
            let mut out = Vec::new();
            at_obj::macho::write_into(&o, &mut out);
            out.len()
        }) {
            Err(_) => Ok(()),
            Ok(n) => Err(format!("{why}, yet an object of {n} bytes is emitted")),
        }
    });
}
fn three() -> Spec {
    let mut s = Spec { text: fill(20, 2), data: fill(13, 7), bss: 24, ..Default::default() };
    s.syms[0] = vec![rf("t0", 4), ("u".into(), K::Undef)];
    s.syms[1] = vec![("d".into(), K::Ref(1, true)), ("abc".into(), K::Abs(5, false))];
    s.syms[2] = vec![rf("b", 0), rf("bb", 8)];
    s
}
fn o03_refused(w: &mut W) {
    for c in ['\0', '\u{80}', '\u{a0}', '\u{e9}', '\u{ff}', '\u{100}', '\u{141}', '\u{3b1}', '\u{7ff}', '\u{800}', '\u{3042}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}'] {
        for len in 0..5 {
            for pos in 0..=len {
                for k in 0..3 {
                    for (first, y) in [(true, K::Undef), (false, K::Abs(3, true)), (true, K::Ref(2, false)), (false, K::Ref(2, true))] {
                        let mut s = three();
                        let n: String = (0..=len).map(|i| if i == pos { c } else { 'a' }).collect();
                        s.syms[k].insert(if first { 0 } else { s.syms[k].len() }, (n, y));
                        must_refuse(w, "names that cannot be stored", &s, "a symbol's name cannot be stored in the string table");
                    }
                }
            }
        }
    }
}
fn o04_refused(w: &mut W) {
    for k in 0..2 {
        for before in 0..3 {
            let add = |sym: &str, len: u8| {
                let mut s = three();
                for i in 0..before {
                    s.rels[k].push(R { addr: i, sym: ["d", "bb"][i as usize % 2].into(), pcrel: false, len: 3 });
                }
                s.rels[k].push(R { addr: 2, sym: sym.into(), pcrel: false, len });
                s
            };
            for n in ["", "t", "t00", "0", "U", "ab", "bc", "abcd", "bbb", " b", "b ", "\0", "b\0", "\0b", "t0\0u", "nowhere"] {
                must_refuse(w, "unknown targets", &add(n, 3), "the relocation names no symbol of the object");
            }
            for len in 4..=255u8 {
                must_refuse(w, "impossible widths", &add("d", len), "no relocation entry can have this width");
            }
        }
    }
}
