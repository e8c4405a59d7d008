//! M01..M06: Mach-O structures, packed words, the string table and load command streams.
use crate::fw::*;
use crate::x86::alphabet;
use at_mac::header::*;
use at_mac::load_command::{build_version::*, dysymtab::*, segment64::*, symtab::*, LoadCommand};
use at_mac::nlist::*;
use at_mac::reloc::*;
use at_mac::string_table::StringTable;
use std::io::Read;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "M01",
            level: "model_checking",
            run: m01,
            bounds: |t| structure_bounds(t) + "; names that do not fit (too long, or NUL or 7 non-ASCII characters at every place); flag and attribute collections made by every sequence of up to 4 or 5 pushes (thorough: 5 and 6)",
            assumptions: &["the layout is that of Apple's loader.h, nlist.h and reloc.h, restated in mc/src/props/mac.rs", "a header is written with a magic number of the host's byte order"],
        },
        Prop {
            id: "M02",
            level: "model_checking",
            run: m02,
            bounds: structure_bounds,
            assumptions: &["big-endian relocation words hold their bit fields in the opposite order, as in Apple's reloc.h on big-endian hosts"],
        },
        Prop {
            id: "M03",
            level: "model_checking",
            run: m03,
            bounds: |t| match t {
                Tier::Quick => "header flag words: all 2^16 subsets of declared flags, each alone and 256 of them with every 1 and 2 undeclared bits; section flag words: all 256 type bytes x all 256 subsets of declared attributes, and 32 subsets with every 1 and 2 undeclared bits; all 256 symbol type bytes; relocation words: all 2^24 symbol numbers, and all 256 high bytes x 900 symbol numbers, in both byte orders; boundary alphabets of u32 for the enumerated words, and every value below 70000; versions: all 2^16 high and low halves; relocation fields beyond their bits: 1- and 2-bit excess and extremes of the symbol number, types 16..=255, with every flag; flag and attribute collections made by every sequence of up to 4 or 5 pushes (thorough: 5 and 6)".into(),
                Tier::Thorough => "as quick with all 2^32 relocation words in each byte order, all 2^32 versions, all 2^16 flag subsets with every undeclared bit, and every value below 2^24 for the enumerated words".into(),
            },
            assumptions: &[],
        },
        Prop {
            id: "M04",
            level: "model_checking",
            run: m04,
            bounds: |t| match t {
                Tier::Quick => "all push sequences of up to 5 strings out of 9 (empty, prefixes, suffixes, repetitions, 300 characters), checking every offset after every push; one string of every ASCII character; all byte strings of up to 7 bytes over {NUL, a, b, 0x80}; NUL and every non-ASCII class at every position of a pushed string; string lengths 0..=130 and around powers of two up to 2^16; 5000 pushes; tables of up to 2^24 bytes of empty, short and long strings".into(),
                Tier::Thorough => "as quick with sequences of up to 7 pushes and byte strings of up to 9 bytes".into(),
            },
            assumptions: &["iteration may yield one trailing empty string after the pushed ones"],
        },
        Prop {
            id: "M05",
            level: "model_checking",
            run: m05,
            bounds: |t| match t {
                Tier::Quick => "all sequences of up to 4 load commands out of 11 (each kind with 0 to 3 trailing entries and several contents) in both byte orders, with 5 kinds of trailing bytes; segments of 0..=300 sections and 0..=300 tools, and around powers of two up to 2^16; streams of up to 1000 commands in 21 orders".into(),
                Tier::Thorough => "as quick with sequences of up to 5 commands".into(),
            },
            assumptions: &["a command's stored type, size and counts are consistent with its entries"],
        },
        Prop {
            id: "M06",
            level: "model_checking",
            run: m06,
            bounds: |_| "every proper prefix of every structure and of load commands with 0..=3 entries, in both byte orders; for each command every type value 0..=300 and every single-bit flip of its type; every size 0..=700, every single-bit flip and boundary sizes; count fields inconsistent with the size; as magic number every single-bit flip, byte rotation and boundary value".into(),
            assumptions: &["refusing means not returning a value: by panic or by ending the process"],
        },
    ]
}

fn structure_bounds(_: Tier) -> String {
    "9 structures; 3 base assignments (all bytes distinct, minimal, maximal), each field over its whole alphabet (boundary and 1/2-bit values of its width, every declared enumerator, every subset of small flag sets, 160 names), every pair of fields over up to 32 values each from all bases, every triple of fields over 6 values each from two bases".into()
}

// ---------------------------------------------------------------- structures as field lists

#[derive(Clone, Copy)]
enum F {
    /// plain integer of so many bits
    N(u32),
    /// index into NAMES: a 16-byte name field
    S,
    /// one of these values, 32 bits wide
    E(&'static [u64]),
    /// any set of these bits, 32 bits wide
    B(&'static [u64]),
    /// fixed 32-bit value
    C(u64),
    /// 32-bit size: first + second * value of the field with this index
    Z(u64, u64, usize),
    /// section flags: a type and any set of attributes
    SF,
    /// symbol type byte
    NT,
    /// cpu type and subtype, 64 bits together; value = index into CPUS
    Cpu,
    /// bit field of the relocation word
    R(u32),
}

const CPUS: [(u32, u32); 2] = [(7, 3), (0x01000007, 3)];
const FLAGS: [u64; 16] = [
    0x1, 0x2, 0x4, 0x8, 0x10, 0x20, 0x80, 0x100, 0x200, 0x400, 0x800, 0x1000, 0x2000, 0x4000, 0x200000, 0x800000,
];
const ATTRS: [u64; 8] = [0x80000000, 0x40000000, 0x20000000, 0x08000000, 0x02000000, 0x400, 0x200, 0x100];
const STYPES: [u64; 7] = [0, 1, 2, 3, 4, 5, 0xb];
const PLATFORMS: [u64; 10] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10];
const TOOLS: [u64; 3] = [1, 2, 3];
const FILETYPES: [u64; 9] = [1, 2, 3, 4, 5, 6, 7, 8, 10];
const MAGICS: [u64; 2] = [0xfeedfacf, 0xfeedface];
const NTYPES: [u64; 21] = [
    0x00, 0x01, 0x10, 0x11, 0x02, 0x03, 0x12, 0x13, 0x0e, 0x0f, 0x1e, 0x1f, 0x0c, 0x0d, 0x1c, 0x1d, 0x0a, 0x0b, 0x1a,
    0x1b, 0x20,
];

fn names() -> &'static Vec<String> {
    static N: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        let mut v: Vec<String> = Vec::new();
        for n in 0..=16 {
            v.push("ABCDEFGHIJKLMNOP"[..n].to_string());
        }
        for s in ["__text", "__TEXT", "__DATA,__bss", " ", "a b", "__LINKEDIT", "\u{7f}\u{1}"] {
            v.push(s.to_string());
        }
        for c in 1..128u8 {
            v.push(format!("x{}y", c as char));
        }
        v.push("\u{7f}".repeat(16));
        v
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
enum Kd {
    Header,
    Segment,
    Section,
    Symtab,
    Dysymtab,
    Build,
    Tool,
    NList,
    Reloc,
}
const KINDS: [Kd; 9] =
    [Kd::Header, Kd::Segment, Kd::Section, Kd::Symtab, Kd::Dysymtab, Kd::Build, Kd::Tool, Kd::NList, Kd::Reloc];

fn fields(k: Kd) -> Vec<F> {
    use F::*;
    match k {
        Kd::Header => vec![E(&MAGICS), Cpu, E(&FILETYPES), N(32), N(32), B(&FLAGS), N(32)],
        Kd::Segment => {
            vec![C(0x19), Z(72, 80, 9), S, N(64), N(64), N(64), N(64), N(32), N(32), N(32), N(32)]
        }
        Kd::Section => vec![S, S, N(64), N(64), N(32), N(32), N(32), N(32), SF, N(32), N(32), N(32)],
        Kd::Symtab => vec![C(2), C(24), N(32), N(32), N(32), N(32)],
        Kd::Dysymtab => {
            let mut v = vec![C(0xb), C(80)];
            v.extend([N(32); 18]);
            v
        }
        Kd::Build => vec![C(0x32), Z(24, 8, 5), E(&PLATFORMS), N(32), N(32), N(32)],
        Kd::Tool => vec![E(&TOOLS), N(32)],
        Kd::NList => vec![N(32), NT, N(8), N(16), N(64)],
        Kd::Reloc => vec![N(32), R(24), R(1), R(2), R(1), R(4)],
    }
}
fn declared_size(k: Kd) -> usize {
    (match k {
        Kd::Header => Header64::SIZE,
        Kd::Segment => SegmentCommand64::SIZE,
        Kd::Section => Section64::SIZE,
        Kd::Symtab => SymtabCommand::SIZE,
        Kd::Dysymtab => DysymtabCommand::SIZE,
        Kd::Build => BuildVersionCommand::SIZE,
        Kd::Tool => BuildToolVersion::SIZE,
        Kd::NList => NList64::SIZE,
        Kd::Reloc => RelocationInfo::SIZE,
    }) as usize
}

/// Fills in the dependent fields; `None` when the free ones have no consistent completion.
fn complete(k: Kd, mut v: Vec<u64>) -> Option<Vec<u64>> {
    for (i, f) in fields(k).iter().enumerate() {
        match f {
            F::C(c) => v[i] = *c,
            F::Z(a, b, j) => {
                v[i] = a + b * v[*j];
                if v[i] > u32::MAX as u64 {
                    return None;
                }
            }
            _ => {}
        }
    }
    Some(v)
}

/// The format: Apple's layout of these field values in the given byte order.
fn enc(k: Kd, v: &[u64], be: bool) -> Vec<u8> {
    let mut o = Vec::new();
    fn int(o: &mut Vec<u8>, x: u64, bytes: usize, be: bool) {
        if be {
            o.extend_from_slice(&x.to_be_bytes()[8 - bytes..]);
        } else {
            o.extend_from_slice(&x.to_le_bytes()[..bytes]);
        }
    }
    for (f, &x) in fields(k).iter().zip(v) {
        match f {
            F::N(b) => int(&mut o, x, *b as usize / 8, be),
            F::E(_) | F::B(_) | F::C(_) | F::Z(..) | F::SF => int(&mut o, x, 4, be),
            F::NT => o.push(x as u8),
            F::Cpu => {
                int(&mut o, CPUS[x as usize].0 as u64, 4, be);
                int(&mut o, CPUS[x as usize].1 as u64, 4, be);
            }
            F::S => {
                let mut b = [0u8; 16];
                let s = names()[x as usize].as_bytes();
                b[..s.len()].copy_from_slice(s);
                o.extend_from_slice(&b);
            }
            F::R(_) => {}
        }
    }
    if k == Kd::Reloc {
        let (sym, pc, len, ext, ty) = (v[1], v[2], v[3], v[4], v[5]);
        let w = if be {
            sym << 8 | pc << 7 | len << 5 | ext << 4 | ty
        } else {
            sym | pc << 24 | len << 25 | ext << 27 | ty << 28
        };
        int(&mut o, w, 4, be);
    }
    o
}

// ---------------------------------------------------------------- to and from the library's types

enum Any {
    Header(Header64),
    Segment(SegmentCommand64),
    Section(Section64),
    Symtab(SymtabCommand),
    Dysymtab(DysymtabCommand),
    Build(BuildVersionCommand),
    Tool(BuildToolVersion),
    NList(NList64),
    Reloc(RelocationInfo),
}

fn flag(n: u64) -> Flag {
    use Flag::*;
    match n {
        0x1 => NoUndefs, 0x2 => IncrLink, 0x4 => DyldLink, 0x8 => BindAtLoad, 0x10 => PreBound, 0x20 => SplitSegs,
        0x80 => TwoLevel, 0x100 => ForceFlat, 0x200 => NoMultiDefs, 0x400 => NoFixPreBinding, 0x800 => PreBindable,
        0x1000 => AllModsBound, 0x2000 => SubsectionsViaSymbols, 0x4000 => Canonical, 0x200000 => Pie,
        0x800000 => HasTlvDescriptors,
        _ => unreachable!(),
    }
}
fn attr(n: u64) -> SectionAttr {
    use SectionAttr::*;
    match n {
        0x80000000 => PureInstructions, 0x40000000 => NoToc, 0x20000000 => StripStaticSyms, 0x08000000 => LiveSupport,
        0x02000000 => Debug, 0x400 => SomeInstructions, 0x200 => ExtReloc, 0x100 => LocReloc,
        _ => unreachable!(),
    }
}
fn stype(n: u64) -> SectionType {
    use SectionType::*;
    match n {
        0 => Regular, 1 => Zerofill, 2 => CstringLiterals, 3 => FourByteLiterals, 4 => EightByteLiterals,
        5 => LiteralPointers, 0xb => Coalesced,
        _ => unreachable!(),
    }
}
fn platform(n: u64) -> Platform {
    use Platform::*;
    [MacOS, IOS, TvOS, WatchOS, BridgeOS, MacCatalyst, IOSSimulator, TvOSSimulator, WatchOSSimulator, Driverkit][n as usize - 1]
}
fn tool(n: u64) -> Tool {
    [Tool::Clang, Tool::Swift, Tool::LD][n as usize - 1]
}
fn filetype(n: u64) -> FileType {
    use FileType::*;
    match n {
        1 => Object, 2 => Execute, 3 => FVMLib, 4 => Core, 5 => Preload, 6 => Dylib, 7 => Dylinker, 8 => Bundle,
        10 => Dsym,
        _ => unreachable!(),
    }
}
fn ntype(n: u64) -> NTypeField {
    if n == 0x20 {
        return NTypeField::Stab(DebugSymbol::Gsym);
    }
    NTypeField::Norm {
        n_pext: n & 0x10 != 0,
        n_type: match n & 0xe {
            0 => NType::Undf,
            2 => NType::Abs,
            0xe => NType::Sect,
            0xc => NType::Pbud,
            0xa => NType::Indr,
            _ => unreachable!(),
        },
        n_ext: n & 1 != 0,
    }
}
fn ntype_n(t: &NTypeField) -> u64 {
    match t {
        NTypeField::Norm { n_pext, n_type, n_ext } => {
            (*n_pext as u64) << 4
                | *n_ext as u64
                | match n_type {
                    NType::Undf => 0,
                    NType::Abs => 2,
                    NType::Sect => 0xe,
                    NType::Pbud => 0xc,
                    NType::Indr => 0xa,
                }
        }
        NTypeField::Stab(d) => *d as u8 as u64,
    }
}
fn version(n: u64) -> Version {
    Version { major: (n >> 16) as u16, minor: (n >> 8) as u8, release: n as u8 }
}
fn version_n(v: &Version) -> u64 {
    (v.major as u64) << 16 | (v.minor as u64) << 8 | v.release as u64
}
fn name_n(s: &str) -> u64 {
    names().iter().position(|n| n == s).map(|i| i as u64).unwrap_or(u64::MAX)
}
fn cpu(n: u64) -> CpuType {
    if n == 0 { CpuType::X86(CpuSubTypeX86::All) } else { CpuType::X86_64(CpuSubTypeX86_64::All) }
}
fn magic(n: u64) -> Magic {
    if n == 0xfeedfacf { Magic::Magic64 } else { Magic::Magic }
}

fn build(k: Kd, v: &[u64]) -> Any {
    let s = |i: usize| names()[v[i] as usize].clone();
    let u = |i: usize| v[i] as u32;
    match k {
        Kd::Header => {
            let mut flags = Flags::new();
            // pushed in an order other than that of the bits
            for b in FLAGS.iter().rev() {
                if v[5] & b != 0 {
                    flags.push(flag(*b));
                }
            }
            Any::Header(Header64 {
                magic: magic(v[0]), cpu_type: cpu(v[1]), file_type: filetype(v[2]), n_cmds: u(3), size_of_cmds: u(4),
                flags, reserved: u(6),
            })
        }
        Kd::Segment => Any::Segment(SegmentCommand64 {
            cmd: u(0), cmdsize: u(1), segname: s(2), vmaddr: v[3], vmsize: v[4], fileoff: v[5], filesize: v[6],
            maxprot: u(7) as i32, initprot: u(8) as i32, nsects: u(9), flags: u(10),
        }),
        Kd::Section => {
            let mut a = SectionAttrs::new();
            for b in ATTRS {
                if v[8] & b != 0 {
                    a.push(attr(b));
                }
            }
            Any::Section(Section64 {
                sectname: s(0), segname: s(1), addr: v[2], size: v[3], offset: u(4), align: u(5), reloff: u(6),
                nreloc: u(7), flags: (a, stype(v[8] & 0xff)), reserved1: u(9), reserved2: u(10), reserved3: u(11),
            })
        }
        Kd::Symtab => Any::Symtab(SymtabCommand {
            cmd: u(0), cmdsize: u(1), symoff: u(2), nsyms: u(3), stroff: u(4), strsize: u(5),
        }),
        Kd::Dysymtab => Any::Dysymtab(DysymtabCommand {
            cmd: u(0), cmdsize: u(1), ilocalsym: u(2), nlocalsym: u(3), iextdefsym: u(4), nextdefsym: u(5),
            iundefsym: u(6), nundefsym: u(7), tocoff: u(8), ntoc: u(9), modtaboff: u(10), nmodtab: u(11),
            extrefsymoff: u(12), nextrefsyms: u(13), indirectsymoff: u(14), nindirectsyms: u(15), extreloff: u(16),
            nextrel: u(17), locreloff: u(18), nlocrel: u(19),
        }),
        Kd::Build => Any::Build(BuildVersionCommand {
            cmd: u(0), cmdsize: u(1), platform: platform(v[2]), minos: version(v[3]), sdk: version(v[4]), ntools: u(5),
        }),
        Kd::Tool => Any::Tool(BuildToolVersion { tool: tool(v[0]), version: u(1) }),
        Kd::NList => Any::NList(NList64 {
            n_strx: u(0), n_type: ntype(v[1]), n_sect: v[2] as u8, n_desc: v[3] as u16, n_value: v[4],
        }),
        Kd::Reloc => Any::Reloc(RelocationInfo {
            r_address: u(0) as i32, r_symbolnum: u(1), r_pcrel: v[2] == 1,
            r_length: [RelocLength::Byte, RelocLength::Word, RelocLength::Long, RelocLength::Quad][v[3] as usize],
            r_extern: v[4] == 1, r_type: v[5] as u8,
        }),
    }
}

/// The field values of a structure, read off its public fields.
fn vals(a: &Any) -> Vec<u64> {
    let w = |xs: &[u32]| xs.iter().map(|&x| x as u64).collect::<Vec<u64>>();
    match a {
        Any::Header(h) => {
            let c = match h.cpu_type {
                CpuType::X86(_) => 0,
                CpuType::X86_64(_) => 1,
            };
            // the magic of a foreign file is the same magic in its own byte order
            let m = match h.magic {
                Magic::Magic64 | Magic::Cigam64 => 0xfeedfacf,
                Magic::Magic | Magic::Cigam => 0xfeedface,
                _ => 0,
            };
            let ft = FILETYPES.iter().copied().find(|n| filetype(*n) == h.file_type).unwrap_or(0);
            vec![m, c, ft, h.n_cmds as u64, h.size_of_cmds as u64, h.flags.to_u32() as u64, h.reserved as u64]
        }
        Any::Segment(s) => vec![
            s.cmd as u64, s.cmdsize as u64, name_n(&s.segname), s.vmaddr, s.vmsize, s.fileoff, s.filesize,
            s.maxprot as u32 as u64, s.initprot as u32 as u64, s.nsects as u64, s.flags as u64,
        ],
        Any::Section(s) => {
            let t = STYPES.iter().copied().find(|n| stype(*n) == s.flags.1).unwrap_or(u64::MAX);
            vec![
                name_n(&s.sectname), name_n(&s.segname), s.addr, s.size, s.offset as u64, s.align as u64,
                s.reloff as u64, s.nreloc as u64, s.flags.0.to_u32() as u64 | t, s.reserved1 as u64,
                s.reserved2 as u64, s.reserved3 as u64,
            ]
        }
        Any::Symtab(s) => w(&[s.cmd, s.cmdsize, s.symoff, s.nsyms, s.stroff, s.strsize]),
        Any::Dysymtab(d) => w(&[
            d.cmd, d.cmdsize, d.ilocalsym, d.nlocalsym, d.iextdefsym, d.nextdefsym, d.iundefsym, d.nundefsym,
            d.tocoff, d.ntoc, d.modtaboff, d.nmodtab, d.extrefsymoff, d.nextrefsyms, d.indirectsymoff,
            d.nindirectsyms, d.extreloff, d.nextrel, d.locreloff, d.nlocrel,
        ]),
        Any::Build(b) => {
            let p = PLATFORMS.iter().copied().find(|n| platform(*n) == b.platform).unwrap_or(0);
            vec![b.cmd as u64, b.cmdsize as u64, p, version_n(&b.minos), version_n(&b.sdk), b.ntools as u64]
        }
        Any::Tool(t) => vec![TOOLS.iter().copied().find(|n| tool(*n) == t.tool).unwrap_or(0), t.version as u64],
        Any::NList(n) => {
            vec![n.n_strx as u64, ntype_n(&n.n_type), n.n_sect as u64, n.n_desc as u64, n.n_value]
        }
        Any::Reloc(r) => vec![
            r.r_address as u32 as u64, r.r_symbolnum as u64, r.r_pcrel as u64,
            match r.r_length {
                RelocLength::Byte => 0,
                RelocLength::Word => 1,
                RelocLength::Long => 2,
                RelocLength::Quad => 3,
            },
            r.r_extern as u64, r.r_type as u64,
        ],
    }
}

/// The structures as the library's own equality sees them; flag sets as words.
fn same(a: &Any, b: &Any) -> bool {
    match (a, b) {
        (Any::Segment(a), Any::Segment(b)) => a == b,
        (Any::Symtab(a), Any::Symtab(b)) => a == b,
        (Any::Dysymtab(a), Any::Dysymtab(b)) => a == b,
        (Any::Build(a), Any::Build(b)) => a == b,
        (Any::Tool(a), Any::Tool(b)) => a == b,
        (Any::NList(a), Any::NList(b)) => a == b,
        (Any::Reloc(a), Any::Reloc(b)) => a == b,
        _ => true,
    }
}

fn write(a: &Any) -> Vec<u8> {
    let mut o = Vec::new();
    match a {
        Any::Header(x) => x.write_into(&mut o),
        Any::Segment(x) => x.write_into(&mut o),
        Any::Section(x) => x.write_into(&mut o),
        Any::Symtab(x) => x.write_into(&mut o),
        Any::Dysymtab(x) => x.write_into(&mut o),
        Any::Build(x) => x.write_into(&mut o),
        Any::Tool(x) => x.write_into(&mut o),
        Any::NList(x) => x.write_into(&mut o),
        Any::Reloc(x) => x.write_into(&mut o),
    }
    o
}

type Rd<'a> = &'a mut dyn Read;
/// Readers bound to the byte orders that headers announce.
pub struct Readers {
    /// second: is the announced order big-endian?
    header: Box<dyn Fn(Rd) -> (Header64, bool)>,
    any: Box<dyn Fn(Kd, Rd, bool) -> Any>,
    pub lc: Box<dyn Fn(Rd, bool) -> LoadCommand>,
}

pub fn readers() -> Result<Readers, String> {
    let hd = |be| enc(Kd::Header, &complete(Kd::Header, vec![0xfeedfacf, 1, 1, 2, 3, 0, 0]).unwrap(), be);
    let (l, b) = (hd(false), hd(true));
    sut(move || {
        let (_, le) = Header64::read_from(&mut &l[..]);
        let (_, be) = Header64::read_from(&mut &b[..]);
        Readers {
            header: Box::new(move |mut r| {
                let (h, e) = Header64::read_from(&mut r);
                (h, e == be)
            }),
            any: Box::new(move |k, mut r, big| {
                let e = if big { be } else { le };
                match k {
                    Kd::Header => Any::Header(Header64::read_from(&mut r).0),
                    Kd::Segment => Any::Segment(SegmentCommand64::read_from_in(&mut r, e)),
                    Kd::Section => Any::Section(Section64::read_from_in(&mut r, e)),
                    Kd::Symtab => Any::Symtab(SymtabCommand::read_from_in(&mut r, e)),
                    Kd::Dysymtab => Any::Dysymtab(DysymtabCommand::read_from_in(&mut r, e)),
                    Kd::Build => Any::Build(BuildVersionCommand::read_from_in(&mut r, e)),
                    Kd::Tool => Any::Tool(BuildToolVersion::read_from_in(&mut r, e)),
                    Kd::NList => Any::NList(NList64::read_from_in(&mut r, e)),
                    Kd::Reloc => Any::Reloc(RelocationInfo::read_from_in(&mut r, e)),
                }
            }),
            lc: Box::new(move |mut r, big| LoadCommand::read_from_in(&mut r, if big { be } else { le })),
        }
    })
    .map_err(|m| format!("reading a plain header in either byte order panicked: {m}"))
}

// ---------------------------------------------------------------- enumeration of field values

fn pattern(i: usize, bits: u32) -> u64 {
    let mut v = 0u64;
    for b in 0..bits / 8 {
        v = v << 8 | ((i as u64 * 8 + b as u64 * 0x1d + 0x11) & 0xff);
    }
    v
}
fn base(k: Kd, which: usize) -> Vec<u64> {
    fields(k)
        .iter()
        .enumerate()
        .map(|(i, f)| match (f, which) {
            (F::N(b), 0) => {
                let count = k == Kd::Segment && i == 9 || k == Kd::Build && i == 5;
                if count { 0x01020304 } else { pattern(i, *b) }
            }
            (F::N(_), 1) => 0,
            (F::N(b), _) => {
                let count = k == Kd::Segment && i == 9 || k == Kd::Build && i == 5;
                if count { 0x03333332 } else { u64::MAX >> (64 - b) }
            }
            (F::S, 0) => 5 + i as u64 % 9,
            (F::S, 1) => 0,
            (F::S, _) => 16,
            (F::E(v), 0) => v[v.len() / 2],
            (F::E(v), 1) => v[0],
            (F::E(v), _) => v[v.len() - 1],
            (F::B(_), 0) => 0x20100,
            (F::B(_), 1) => 0,
            (F::B(v), _) => v.iter().sum(),
            (F::SF, 0) => 0x80000405,
            (F::SF, 1) => 0,
            (F::SF, _) => ATTRS.iter().sum::<u64>() | 0xb,
            (F::NT, 0) => 0x0e,
            (F::NT, 1) => 0,
            (F::NT, _) => 0x1f,
            (F::Cpu, 1) => 0,
            (F::Cpu, _) => 1,
            (F::R(24), 0) => 0x123456,
            (F::R(_), 1) => 0,
            (F::R(b), 0) => (1 << b) / 2,
            (F::R(b), _) => (1 << b) - 1,
            (F::C(_) | F::Z(..), _) => 0,
        })
        .map(|v| if v == 0x20100 { 0x200100 } else { v })
        .collect()
}
fn full_alphabet(f: &F) -> Vec<u64> {
    match f {
        F::N(8) => (0..256).collect(),
        F::N(16) => (0..65536).collect(),
        F::N(b) => alphabet(*b),
        F::S => (0..names().len() as u64).collect(),
        F::E(v) => v.to_vec(),
        F::B(v) => (0..1u64 << v.len())
            .map(|m| v.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, b)| b).sum())
            .collect(),
        F::SF => {
            let mut o = Vec::new();
            for m in 0..1u64 << ATTRS.len() {
                let a: u64 = ATTRS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, b)| b).sum();
                for t in STYPES {
                    o.push(a | t);
                }
            }
            o
        }
        F::NT => NTYPES.to_vec(),
        F::Cpu => vec![0, 1],
        F::R(24) => alphabet(24),
        F::R(b) => (0..1 << b).collect(),
        F::C(_) | F::Z(..) => vec![],
    }
}
fn small_alphabet(f: &F) -> Vec<u64> {
    match f {
        F::N(b) => {
            let m = u64::MAX >> (64 - b);
            vec![0, 1, m, m >> 1, 1 << (b - 1), pattern(3, *b)]
        }
        F::S => vec![0, 1, 8, 15, 16, 17],
        F::B(v) => vec![0, v[0], v[v.len() - 1], v[7] | v[3], v.iter().sum()],
        F::SF => vec![0, 1, 0xb, 0x100, 0x80000405, ATTRS.iter().sum()],
        F::R(24) => vec![0, 1, 0xff, 0x100, 0x800000, 0xffffff],
        f => full_alphabet(f),
    }
}

fn medium_alphabet(f: &F) -> Vec<u64> {
    let mut v = match f {
        F::N(b) => {
            let m = u64::MAX >> (64 - b);
            let mut v = vec![0, 1, 2, 3, 4, 7, 8, 15, 16, 0x20, 0x48, 0x50, 0x7f, 0x80, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0x10000, 0x1234_5678, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 63];
            v.extend([pattern(3, *b), pattern(9, *b), m, m - 1, m >> 1, 1 << (b - 1)]);
            v.retain(|x| *x <= m);
            v
        }
        F::S => (0..24).chain([24 + 31, 24 + 46, 151]).collect(),
        F::B(v) => {
            let all: u64 = v.iter().sum();
            [0, all].into_iter().chain(v.iter().copied()).chain(v.iter().map(|x| all & !x)).chain(v.windows(2).map(|p| p[0] | p[1])).collect()
        }
        F::SF => {
            let all: u64 = ATTRS.iter().sum();
            let sets = [0, all].into_iter().chain(ATTRS).chain([0x300, 0x80000400, 0x80000700]);
            sets.flat_map(|a| STYPES.iter().map(move |t| a | t)).collect()
        }
        F::R(24) => vec![0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x800000, 0xfffffe, 0xffffff, 0x123456],
        f => full_alphabet(f),
    };
    v.sort();
    v.dedup();
    v
}

/// Calls `f` on every enumerated assignment of a structure's fields, in batches that are cases.
fn enumerate(w: &mut W, k: Kd, f: &dyn Fn(&mut W, &[u64]) -> Result<(), String>) {
    let fs = fields(k);
    for which in 0..3 {
        for i in 0..fs.len() {
            let al = full_alphabet(&fs[i]);
            for chunk in al.chunks(512) {
                w.case(
                    &format!("{k:?}, one field"),
                    || format!("{k:?} from base {which}, field {i} over {} values from {:#x}", chunk.len(), chunk[0]),
                    |w| {
                        for &x in chunk {
                            let mut v = base(k, which);
                            v[i] = x;
                            if let Some(v) = complete(k, v) {
                                f(w, &v)?;
                                w.state(&(k, &v));
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    for which in 0..3 {
        for i in 0..fs.len() {
            for j in i + 1..fs.len() {
                let (a, b) = (medium_alphabet(&fs[i]), medium_alphabet(&fs[j]));
                for part in a.chunks(32) {
                    w.case(&format!("{k:?}, two fields"), || format!("{k:?} from base {which}, fields {i} (from {:#x}) and {j}", part[0]), |w| {
                        for &x in part {
                            for &y in &b {
                                let mut v = base(k, which);
                                v[i] = x;
                                v[j] = y;
                                if let Some(v) = complete(k, v) {
                                    f(w, &v)?;
                                    w.state(&(k, &v));
                                }
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    for i in 0..fs.len() {
        for j in i + 1..fs.len() {
            for l in j + 1..fs.len() {
                let al: Vec<Vec<u64>> = [i, j, l].iter().map(|&n| small_alphabet(&fs[n])).collect();
                if al.iter().any(|a| a.is_empty()) {
                    continue;
                }
                w.case(&format!("{k:?}, three fields"), || format!("{k:?} from bases 0 and 1, fields {i}, {j} and {l}"), |w| {
                    for which in 0..2 {
                        for &x in &al[0] {
                            for &y in &al[1] {
                                for &z in &al[2] {
                                    let mut v = base(k, which);
                                    (v[i], v[j], v[l]) = (x, y, z);
                                    if let Some(v) = complete(k, v) {
                                        f(w, &v)?;
                                        w.state(&(k, &v));
                                    }
                                }
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    }
}

fn diff(k: Kd, got: &[u64], want: &[u64]) -> String {
    let d: Vec<String> = got
        .iter()
        .zip(want)
        .enumerate()
        .filter(|(_, (a, b))| a != b)
        .map(|(i, (a, b))| format!("field {i} is {a:#x}, should be {b:#x}"))
        .collect();
    format!("{k:?}: {}", d.join(", "))
}

/// Collections built by every sequence of pushes, in any order and with repetitions, are the set of
/// what was pushed, both as a word and where they are written.
fn pushed_sets(w: &mut W) {
    let th = w.thorough();
    let n = if th { 5 } else { 4 };
    fn go(w: &mut W, al: &[u64], seq: &mut Vec<u64>, left: usize, f: &dyn Fn(&mut W, &[u64]) -> Result<(), String>) -> Result<(), String> {
        f(w, seq)?;
        if left > 0 {
            for a in al {
                seq.push(*a);
                go(w, al, seq, left - 1, f)?;
                seq.pop();
            }
        }
        Ok(())
    }
    let hdr = |w: &mut W, seq: &[u64]| -> Result<(), String> {
        let want = seq.iter().fold(0, |a, b| a | b) as u32;
        w.transitions += 1;
        w.state(&("pushed flags", seq));
        let (n, b) = sut(|| {
            let mut f = Flags::new();
            for s in seq {
                f.push(flag(*s));
            }
            let n = f.to_u32();
            let Any::Header(mut h) = build(Kd::Header, &base(Kd::Header, 0)) else { unreachable!() };
            h.flags = f;
            (n, write(&Any::Header(h)))
        })
        .map_err(|e| format!("flags {seq:x?} pushed: {e}"))?;
        let at = u32::from_le_bytes(b[24..28].try_into().unwrap());
        if n != want || at != want {
            return Err(format!("flags {seq:x?} pushed give the word {n:#x} and are written as {at:#x}"));
        }
        Ok(())
    };
    let sec = |w: &mut W, seq: &[u64]| -> Result<(), String> {
        let want = seq.iter().fold(0, |a, b| a | b) as u32;
        w.transitions += 1;
        w.state(&("pushed attributes", seq));
        let (n, b) = sut(|| {
            let mut f = SectionAttrs::new();
            for s in seq {
                f.push(attr(*s));
            }
            let n = f.to_u32();
            let mut v = base(Kd::Section, 0);
            v[8] = 1;
            let Any::Section(mut s) = build(Kd::Section, &v) else { unreachable!() };
            s.flags.0 = f;
            (n, write(&Any::Section(s)))
        })
        .map_err(|e| format!("attributes {seq:x?} pushed: {e}"))?;
        let at = u32::from_le_bytes(b[64..68].try_into().unwrap());
        if n != want || at != want | 1 {
            return Err(format!("attributes {seq:x?} pushed give the word {n:#x} and are written with type 1 as {at:#x}"));
        }
        Ok(())
    };
    for a in FLAGS {
        w.case("pushed flags", || format!("flag {a:#x} and all sequences of up to {} further pushes", n - 1), |w| go(w, &FLAGS, &mut vec![a], n - 1, &hdr));
    }
    for a in ATTRS {
        w.case("pushed attributes", || format!("attribute {a:#x} and all sequences of up to {n} further pushes"), |w| go(w, &ATTRS, &mut vec![a], n, &sec));
    }
    w.case("pushed flags", || "nothing pushed, and everything pushed once to 5 times".into(), |w| {
        for k in 0..=5 {
            hdr(w, &FLAGS.repeat(k))?;
            sec(w, &ATTRS.repeat(k))?;
        }
        Ok(())
    });
}

fn m01(w: &mut W) {
    pushed_sets(w);
    let rd = match readers() {
        Ok(r) => r,
        Err(e) => return w.case("headers", || "plain headers".into(), |_| Err(e)),
    };
    for k in KINDS {
        enumerate(w, k, &|w, v| {
            let (a, bytes) = sut(|| {
                let a = build(k, v);
                let b = write(&a);
                (a, b)
            })
            .map_err(|m| format!("{k:?} {v:x?}: writing panicked: {m}"))?;
            w.transitions += 2;
            if bytes.len() != declared_size(k) {
                return Err(format!("{k:?} {v:x?} takes {} bytes, its declared size is {}", bytes.len(), declared_size(k)));
            }
            let want = enc(k, v, false);
            if bytes != want {
                return Err(format!("{k:?} {v:x?} is written as [{}], the format is [{}]", hex(&bytes), hex(&want)));
            }
            w.outcome(&bytes);
            let mut r = &bytes[..];
            let back = sut(|| (rd.any)(k, &mut r, false)).map_err(|m| format!("{k:?} {v:x?}: reading back panicked: {m}"))?;
            if !r.is_empty() {
                return Err(format!("{k:?}: reading leaves {} bytes", r.len()));
            }
            let got = vals(&back);
            if got != v || !same(&a, &back) {
                return Err(format!("read back differs: {}", diff(k, &got, v)));
            }
            if let Any::Header(h) = &back {
                if h.magic as u32 as u64 != v[0] {
                    return Err(format!("magic {:#x} reads back as {:?}", v[0], h.magic));
                }
            }
            Ok(())
        });
    }
    // names a 16-byte field cannot hold
    for c in ['\0', '\u{80}', '\u{e9}', '\u{ff}', '\u{100}', '\u{141}', '\u{3042}', '\u{1f600}', 'x'] {
        for len in 0..20usize {
            for pos in 0..=len {
                if c == 'x' && (len < 16 || pos > 0) {
                    continue;
                }
                w.case("names that do not fit", || format!("{c:?} at {pos} of {} characters", len + 1), |w| {
                    let s: String = (0..=len).map(|i| if i == pos { c } else { 'a' }).collect();
                    w.state(&s);
                    for which in 0..3 {
                        must_fail(w, false, &|| format!("{s:?}"), &|| {
                            let name = |i: usize| if i == which { s.clone() } else { "q".to_string() };
                            hex(&write(&if which == 0 {
                                Any::Segment(SegmentCommand64 {
                                    cmd: 0x19, cmdsize: 72, segname: name(0), vmaddr: 0, vmsize: 0, fileoff: 0, filesize: 0,
                                    maxprot: 0, initprot: 0, nsects: 0, flags: 0,
                                })
                            } else {
                                Any::Section(Section64 {
                                    sectname: name(1), segname: name(2), addr: 0, size: 0, offset: 0, align: 0, reloff: 0,
                                    nreloc: 0, flags: (SectionAttrs::new(), stype(0)), reserved1: 0, reserved2: 0, reserved3: 0,
                                })
                            }))
                        })?;
                    }
                    Ok(())
                });
            }
        }
    }
}

fn m02(w: &mut W) {
    let rd = match readers() {
        Ok(r) => r,
        Err(e) => return w.case("headers", || "plain headers".into(), |_| Err(e)),
    };
    for k in KINDS {
        enumerate(w, k, &|w, v| {
            for be in [true, false] {
                let bytes = enc(k, v, be);
                let what = || format!("{k:?} {v:x?} in {} order", if be { "big-endian" } else { "little-endian" });
                let mut r = &bytes[..];
                let (back, announced) = sut(|| {
                    if k == Kd::Header {
                        let (h, e) = (rd.header)(&mut r);
                        (Any::Header(h), e)
                    } else {
                        ((rd.any)(k, &mut r, be), be)
                    }
                })
                .map_err(|m| format!("{}: reading panicked: {m}", what()))?;
                w.transitions += 1;
                if announced != be {
                    return Err(format!("{}: the header announces the other byte order", what()));
                }
                let got = vals(&back);
                if got != v {
                    return Err(format!("{}: {}", what(), diff(k, &got, v)));
                }
                if !r.is_empty() {
                    return Err(format!("{}: reading leaves {} bytes", what(), r.len()));
                }
                w.outcome(&bytes);
            }
            Ok(())
        });
        // commands picked out by type
        if matches!(k, Kd::Segment | Kd::Symtab | Kd::Dysymtab | Kd::Build) {
            for which in 0..3 {
                for n in 0..4u64 {
                    w.case("picked out by type", || format!("{k:?} from base {which} with {n} entries"), |w| {
                        let c = Cmd::new(k, which, n);
                        for be in [true, false] {
                            let bytes = c.enc(be);
                            let got = sut(|| (rd.lc)(&mut &bytes[..], be)).map_err(|m| format!("reading panicked: {m}"))?;
                            w.transitions += 1;
                            let got = Cmd::from(&got);
                            w.state(&(&c, be));
                            if got != c {
                                return Err(format!("be={be}: reads as {got:x?}, should be {c:x?}"));
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
}

// ---------------------------------------------------------------- load commands

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
struct Cmd {
    kind: Kd,
    vals: Vec<u64>,
    sub: Vec<Vec<u64>>,
}
impl Cmd {
    fn new(kind: Kd, which: usize, n: u64) -> Cmd {
        let mut v = base(kind, which);
        let mut sub = Vec::new();
        let sk = match kind {
            Kd::Segment => {
                v[9] = n;
                Kd::Section
            }
            Kd::Build => {
                v[5] = n;
                Kd::Tool
            }
            _ => return Cmd { kind, vals: complete(kind, v).unwrap(), sub },
        };
        for i in 0..n {
            let mut s = base(sk, (which + i as usize) % 3);
            let last = s.len() - 1;
            s[last] = 0x1000 + i;
            sub.push(s);
        }
        Cmd { kind, vals: complete(kind, v).unwrap(), sub }
    }
    fn subkind(&self) -> Kd {
        if self.kind == Kd::Segment { Kd::Section } else { Kd::Tool }
    }
    fn enc(&self, be: bool) -> Vec<u8> {
        let mut o = enc(self.kind, &self.vals, be);
        for s in &self.sub {
            o.extend(enc(self.subkind(), s, be));
        }
        o
    }
    fn build(&self) -> LoadCommand {
        match build(self.kind, &self.vals) {
            Any::Segment(s) => LoadCommand::Segment64(
                s,
                self.sub.iter().map(|v| match build(Kd::Section, v) {
                    Any::Section(s) => s,
                    _ => unreachable!(),
                }).collect(),
            ),
            Any::Symtab(s) => LoadCommand::Symtab(s),
            Any::Dysymtab(s) => LoadCommand::Dysymtab(s),
            Any::Build(b) => LoadCommand::BuildVersion(
                b,
                self.sub.iter().map(|v| match build(Kd::Tool, v) {
                    Any::Tool(s) => s,
                    _ => unreachable!(),
                }).collect(),
            ),
            _ => unreachable!(),
        }
    }
    fn from(l: &LoadCommand) -> Cmd {
        #[allow(unreachable_patterns)]
        match l {
            LoadCommand::Segment64(s, v) => Cmd {
                kind: Kd::Segment,
                vals: vals(&Any::Segment(s.clone())),
                sub: v.iter().map(|s| vals(&Any::Section(s.clone()))).collect(),
            },
            LoadCommand::Symtab(s) => Cmd { kind: Kd::Symtab, vals: vals(&Any::Symtab(s.clone())), sub: vec![] },
            LoadCommand::Dysymtab(s) => Cmd { kind: Kd::Dysymtab, vals: vals(&Any::Dysymtab(s.clone())), sub: vec![] },
            LoadCommand::BuildVersion(b, v) => Cmd {
                kind: Kd::Build,
                vals: vals(&Any::Build(b.clone())),
                sub: v.iter().map(|t| vals(&Any::Tool(t.clone()))).collect(),
            },
            _ => Cmd { kind: Kd::Header, vals: vec![], sub: vec![] },
        }
    }
}

/// Bytes of one of several load command streams, for the I/O property.
pub fn sample_commands() -> Vec<(String, Vec<u8>, bool)> {
    let mut v = Vec::new();
    for be in [false, true] {
        for c in [Cmd::new(Kd::Segment, 0, 2), Cmd::new(Kd::Symtab, 0, 0), Cmd::new(Kd::Dysymtab, 0, 0), Cmd::new(Kd::Build, 0, 2)] {
            v.push((format!("{:?}", c.kind), c.enc(be), be));
        }
    }
    v
}
/// Every structure and load command as a write function with its expected bytes.
pub fn sample_writers() -> Vec<(String, Vec<u8>, Box<dyn Fn(&mut dyn std::io::Write)>)> {
    let mut v: Vec<(String, Vec<u8>, Box<dyn Fn(&mut dyn std::io::Write)>)> = Vec::new();
    for k in KINDS {
        let vs = complete(k, base(k, 0)).unwrap();
        let bytes = enc(k, &vs, false);
        v.push((
            format!("{k:?}"),
            bytes,
            Box::new(move |mut o| match build(k, &vs) {
                Any::Header(x) => x.write_into(&mut o),
                Any::Segment(x) => x.write_into(&mut o),
                Any::Section(x) => x.write_into(&mut o),
                Any::Symtab(x) => x.write_into(&mut o),
                Any::Dysymtab(x) => x.write_into(&mut o),
                Any::Build(x) => x.write_into(&mut o),
                Any::Tool(x) => x.write_into(&mut o),
                Any::NList(x) => x.write_into(&mut o),
                Any::Reloc(x) => x.write_into(&mut o),
            }),
        ));
    }
    for c in [Cmd::new(Kd::Segment, 0, 2), Cmd::new(Kd::Build, 0, 2)] {
        let bytes = c.enc(false);
        v.push((format!("command {:?}", c.kind), bytes, Box::new(move |mut o| c.build().write_into(&mut o))));
    }
    v
}
/// Every structure as bytes with a read function giving back its bytes' meaning.
pub fn sample_readers() -> Result<Vec<(String, Vec<u8>, Box<dyn Fn(&mut dyn Read) -> Vec<u8>>)>, String> {
    let mut v: Vec<(String, Vec<u8>, Box<dyn Fn(&mut dyn Read) -> Vec<u8>>)> = Vec::new();
    for be in [false, true] {
        for k in KINDS {
            let rd = readers()?;
            let vs = complete(k, base(k, 0)).unwrap();
            v.push((
                format!("{k:?} big-endian={be}"),
                enc(k, &vs, be),
                Box::new(move |r| enc(k, &vals(&(rd.any)(k, r, be)), be)),
            ));
        }
        for c in [Cmd::new(Kd::Segment, 0, 2), Cmd::new(Kd::Symtab, 0, 0), Cmd::new(Kd::Dysymtab, 0, 0), Cmd::new(Kd::Build, 0, 2)] {
            let rd = readers()?;
            v.push((
                format!("command {:?} big-endian={be}", c.kind),
                c.enc(be),
                Box::new(move |r| Cmd::from(&(rd.lc)(r, be)).enc(be)),
            ));
        }
    }
    Ok(v)
}

fn m05(w: &mut W) {
    let rd = match readers() {
        Ok(r) => r,
        Err(e) => return w.case("headers", || "plain headers".into(), |_| Err(e)),
    };
    let cmds = vec![
        Cmd::new(Kd::Symtab, 0, 0),
        Cmd::new(Kd::Segment, 1, 0),
        Cmd::new(Kd::Segment, 0, 1),
        Cmd::new(Kd::Segment, 2, 3),
        Cmd::new(Kd::Dysymtab, 0, 0),
        Cmd::new(Kd::Build, 1, 0),
        Cmd::new(Kd::Build, 0, 1),
        Cmd::new(Kd::Build, 2, 3),
        Cmd::new(Kd::Symtab, 1, 0),
        Cmd::new(Kd::Dysymtab, 2, 0),
        Cmd::new(Kd::Segment, 0, 2),
    ];
    let depth = if w.thorough() { 5 } else { 4 };
    let tails: Vec<Vec<u8>> = vec![
        vec![], vec![0; 8], vec![0xff; 100], cmds[0].enc(false)[..20].to_vec(), cmds[3].enc(true)[4..].to_vec(),
    ];
    let mut stack: Vec<usize> = Vec::new();
    fn rec(w: &mut W, rd: &Readers, cmds: &[Cmd], tails: &[Vec<u8>], stack: &mut Vec<usize>, depth: usize) {
        if !stack.is_empty() {
            w.case(
                &format!("{} commands", stack.len()),
                || format!("commands {}", stack.iter().map(|&i| format!("{:?}+{}", cmds[i].kind, cmds[i].sub.len())).collect::<Vec<_>>().join(", ")),
                |w| {
                    let seq: Vec<&Cmd> = stack.iter().map(|&i| &cmds[i]).collect();
                    stream(w, rd, &seq, tails)
                },
            );
        }
        if stack.len() < depth {
            for i in 0..cmds.len() {
                stack.push(i);
                rec(w, rd, cmds, tails, stack, depth);
                stack.pop();
            }
        }
    }
    rec(w, &rd, &cmds, &tails, &mut stack, depth);
    for n in 0..=300u64 {
        w.case("many entries", || format!("{n} sections, {n} tools"), |w| {
            let a = Cmd::new(Kd::Segment, 0, n);
            let b = Cmd::new(Kd::Build, 0, n);
            stream(w, &rd, &[&a, &b, &cmds[0], &b, &a], &tails[..2])
        });
    }
    for n in [511u64, 512, 513, 819, 820, 1023, 1024, 4095, 4096, 8192, 65535, 65536, 65537] {
        w.case("many entries", || format!("{n} sections, {n} tools"), |w| {
            let a = Cmd::new(Kd::Segment, 0, n);
            let b = Cmd::new(Kd::Build, 0, n);
            stream(w, &rd, &[&a, &cmds[0]], &tails[..1])?;
            stream(w, &rd, &[&b, &cmds[0]], &tails[..1])
        });
    }
    for n in [5usize, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000] {
        for step in 1..11 {
            w.case("many commands", || format!("{n} commands, every {step}th of the alphabet"), |w| {
                let seq: Vec<&Cmd> = (0..n).map(|i| &cmds[i * step % 11]).collect();
                stream(w, &rd, &seq, &tails[..2])
            });
        }
        for k in 0..11 {
            w.case("many commands", || format!("{n} times command {k}"), |w| stream(w, &rd, &vec![&cmds[k]; n], &tails[..2]));
        }
    }
}

fn stream(w: &mut W, rd: &Readers, seq: &[&Cmd], tails: &[Vec<u8>]) -> Result<(), String> {
    let mut written = Vec::new();
    for c in seq {
        let lc = c.build();
        let before = written.len();
        sut(|| lc.write_into(&mut written)).map_err(|m| format!("writing panicked: {m}"))?;
        w.transitions += 1;
        if (lc.cmd() as u64, lc.cmd_size() as usize) != (c.vals[0], written.len() - before) {
            return Err(format!(
                "{:?} with {} entries reports type {:#x} and size {}, written were {} bytes",
                c.kind, c.sub.len(), lc.cmd(), lc.cmd_size(), written.len() - before
            ));
        }
    }
    let want: Vec<u8> = seq.iter().flat_map(|c| c.enc(false)).collect();
    if written != want {
        return Err(format!("written [{}], the format is [{}]", hex(&written), hex(&want)));
    }
    for be in [false, true] {
        for tail in tails {
            let mut bytes: Vec<u8> = seq.iter().flat_map(|c| c.enc(be)).collect();
            bytes.extend_from_slice(tail);
            let mut r = &bytes[..];
            for (i, c) in seq.iter().enumerate() {
                let before = r.len();
                let got = sut(|| (rd.lc)(&mut r, be)).map_err(|m| format!("be={be}: reading command {i} panicked: {m}"))?;
                w.transitions += 1;
                let size = c.enc(be).len();
                if before - r.len() != size {
                    return Err(format!("be={be}: command {i} took {} bytes, has {size}", before - r.len()));
                }
                if (got.cmd() as u64, got.cmd_size() as usize) != (c.vals[0], size) {
                    return Err(format!("be={be}: command {i} reports type {:#x} size {}", got.cmd(), got.cmd_size()));
                }
                if Cmd::from(&got) != **c {
                    return Err(format!("be={be}: command {i} reads as {:x?}, should be {c:x?}", Cmd::from(&got)));
                }
                w.state(&(be, hash(&seq[..i]), *c, tail.len()));
            }
            if r != &tail[..] {
                return Err("what follows the commands was consumed".into());
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- refusals

/// Must not return a value. Runs in a process of its own only when asked to.
fn must_fail(w: &mut W, forked: bool, what: &dyn Fn() -> String, f: &dyn Fn() -> String) -> Result<(), String> {
    w.transitions += 1;
    let bad = |v: String| Err(format!("{} was accepted as {}", what(), clip(&v, 300)));
    if forked {
        if let End::Returned(v) = w.forked(|| f().into_bytes()).end {
            return bad(String::from_utf8_lossy(&v).into_owned());
        }
    } else if let Ok(v) = sut(f) {
        return bad(v);
    }
    w.refused += 1;
    Ok(())
}

fn m06(w: &mut W) {
    let rd = match readers() {
        Ok(r) => r,
        Err(e) => return w.case("headers", || "plain headers".into(), |_| Err(e)),
    };
    for be in [false, true] {
        for k in KINDS {
            for which in 0..3 {
                w.case("structure cut off", || format!("{k:?} base {which} be={be}: every proper prefix"), |w| {
                    let b = enc(k, &complete(k, base(k, which)).unwrap(), be);
                    for n in 0..b.len() {
                        w.state(&(k, which, be, n));
                        must_fail(w, false, &|| format!("{k:?} cut to {n} of {} bytes", b.len()), &|| {
                            format!("{:x?}", vals(&(rd.any)(k, &mut &b[..n], be)))
                        })?;
                    }
                    Ok(())
                });
            }
        }
        for k in [Kd::Segment, Kd::Symtab, Kd::Dysymtab, Kd::Build] {
            for n in 0..=3u64 {
                let c = Cmd::new(k, 0, n);
                let b = c.enc(be);
                w.case("command cut off", || format!("{k:?} with {n} entries be={be}: every proper prefix"), |w| {
                    for cut in 0..b.len() {
                        w.state(&(k, n, be, cut, "cut"));
                        must_fail(w, false, &|| format!("{k:?} with {n} entries cut to {cut} of {} bytes", b.len()), &|| {
                            format!("{:x?}", Cmd::from(&(rd.lc)(&mut &b[..cut], be)))
                        })?;
                    }
                    Ok(())
                });
                // a complete command of the declared count, but the size says otherwise, and vice versa
                let put = |b: &mut [u8], at: usize, v: u32| {
                    b[at..at + 4].copy_from_slice(&if be { v.to_be_bytes() } else { v.to_le_bytes() });
                };
                let right = c.vals[1] as u32;
                let mut sizes: Vec<u32> = (0..=700).collect();
                sizes.extend((0..32).map(|i| right ^ (1 << i)));
                sizes.extend([right + 80, right.wrapping_sub(80), right + 8, right.wrapping_sub(8), u32::MAX, 0x80000000]);
                sizes.extend((1..16u32).map(|i| right.wrapping_add(i << 28)));
                sizes.retain(|s| *s != right);
                w.case("wrong size", || format!("{k:?} with {n} entries be={be}: {} sizes other than {right}", sizes.len()), |w| {
                    for &s in &sizes {
                        let mut b = b.clone();
                        put(&mut b, 4, s);
                        b.extend([0u8; 400]);
                        w.state(&(k, n, be, s, "size"));
                        must_fail(w, false, &|| format!("{k:?} with {n} entries and size {s}"), &|| {
                            format!("{:x?}", Cmd::from(&(rd.lc)(&mut &b[..], be)))
                        })?;
                        must_fail(w, false, &|| format!("{k:?} alone with {n} entries and size {s}"), &|| {
                            format!("{:x?}", vals(&(rd.any)(k, &mut &b[..], be)))
                        })?;
                    }
                    Ok(())
                });
                let count_at = match k {
                    Kd::Segment => Some(64),
                    Kd::Build => Some(20),
                    _ => None,
                };
                if let Some(at) = count_at {
                    let mut counts: Vec<u32> = (0..40).collect();
                    counts.extend((0..32).map(|i| 1u32 << i));
                    counts.extend((1..16u32).map(|i| (n as u32).wrapping_add(i << 28)));
                    counts.extend([u32::MAX, u32::MAX - 1]);
                    counts.retain(|c| *c != n as u32);
                    w.case("wrong count", || format!("{k:?} be={be}: {} counts other than {n}", counts.len()), |w| {
                        for &s in &counts {
                            let mut b = b.clone();
                            put(&mut b, at, s);
                            for i in 0..40 {
                                let sub = if k == Kd::Segment { Kd::Section } else { Kd::Tool };
                                b.extend(enc(sub, &base(sub, i % 3), be));
                            }
                            w.state(&(k, n, be, s, "count"));
                            // large counts might make a broken reader allocate: contain it
                            must_fail(w, s > 1000, &|| format!("{k:?} of size {right} claiming {s} entries"), &|| {
                                format!("{:x?}", Cmd::from(&(rd.lc)(&mut &b[..], be)))
                            })?;
                        }
                        Ok(())
                    });
                }
            }
            let c = Cmd::new(k, 0, 1);
            let right = c.vals[0] as u32;
            let mut types: Vec<u32> = (0..=300).collect();
            types.extend((0..32).map(|i| right ^ (1 << i)));
            types.extend([right << 8, right << 16, right << 24, u32::MAX, 0x80000000 | right]);
            types.retain(|t| *t != right);
            w.case("wrong type", || format!("{k:?} be={be}: {} types other than {right:#x}", types.len()), |w| {
                let known = [0x19u32, 2, 0xb, 0x32];
                for &t in &types {
                    let mut b = c.enc(be);
                    b[..4].copy_from_slice(&if be { t.to_be_bytes() } else { t.to_le_bytes() });
                    b.extend([0u8; 200]);
                    w.state(&(k, be, t, "type"));
                    must_fail(w, false, &|| format!("{k:?} carrying type {t:#x}"), &|| {
                        format!("{:x?}", vals(&(rd.any)(k, &mut &b[..], be)))
                    })?;
                    if !known.contains(&t) {
                        must_fail(w, false, &|| format!("a load command of unknown type {t:#x}"), &|| {
                            format!("{:x?}", Cmd::from(&(rd.lc)(&mut &b[..], be)))
                        })?;
                    }
                }
                Ok(())
            });
        }
        // magic numbers
        let good = [0xfeedfacfu32, 0xfeedface, 0xcffaedfe, 0xcefaedfe];
        let mut bad: Vec<u32> = alphabet(32).iter().map(|&x| x as u32).collect();
        for g in [0xfeedfacfu32, 0xfeedface, 0xcffaedfe, 0xcefaedfe, 0xcafebabe, 0xbebafeca, 0xcafebabf, 0xbfbafeca] {
            for i in 0..32 {
                bad.push(g ^ (1 << i));
                for j in 0..i {
                    bad.push(g ^ (1 << i) ^ (1 << j));
                }
            }
            for r in [8, 16, 24] {
                bad.push(g.rotate_left(r));
            }
            for d in 0..8u32 {
                bad.push(g.wrapping_add(d));
                bad.push(g.wrapping_sub(d));
            }
        }
        bad.retain(|m| !good.contains(m));
        bad.sort();
        bad.dedup();
        for chunk in bad.chunks(256) {
            w.case("unknown magic", || format!("{} magic numbers from {:#x}", chunk.len(), chunk[0]), |w| {
                for &m in chunk {
                    let mut b = enc(Kd::Header, &base(Kd::Header, 0), be);
                    b[..4].copy_from_slice(&m.to_le_bytes());
                    w.state(&(be, m, "magic"));
                    must_fail(w, false, &|| format!("a file with magic {m:#x}"), &|| {
                        format!("{:x?}", vals(&Any::Header((rd.header)(&mut &b[..]).0)))
                    })?;
                }
                Ok(())
            });
        }
    }
}

// ---------------------------------------------------------------- packed words

/// `f` gives the word a decoded value encodes back to. Declared words must be accepted.
fn word(w: &mut W, n: u64, declared: bool, what: &str, f: impl FnOnce() -> u64) -> Result<(), String> {
    w.transitions += 1;
    match sut(f) {
        Ok(back) if back == n => Ok(()),
        Ok(back) => Err(format!("{what} {n:#x} decodes to a value that encodes to {back:#x}")),
        Err(_) if !declared => {
            w.refused += 1;
            Ok(())
        }
        Err(m) => Err(format!("{what} {n:#x} consists of declared values but is refused: {m}")),
    }
}

fn m03(w: &mut W) {
    pushed_sets(w);
    let rd = match readers() {
        Ok(r) => r,
        Err(e) => return w.case("headers", || "plain headers".into(), |_| Err(e)),
    };
    let all = full_alphabet(&F::B(&FLAGS));
    let undeclared: Vec<u64> = (0..32).map(|i| 1u64 << i).filter(|b| !FLAGS.contains(b)).collect();
    for chunk in all.chunks(256) {
        w.case("header flags", || format!("subsets of declared flags, 256 from {:#x}", chunk[0]), |w| {
            for (i, &n) in chunk.iter().enumerate() {
                word(w, n, true, "header flags", || Flags::from_u32(n as u32).to_u32() as u64)?;
                w.state(&("flags", n));
                let thin = i != 0 && i != 255;
                if thin && !w.thorough() {
                    continue;
                }
                for (j, &u) in undeclared.iter().enumerate() {
                    word(w, n | u, false, "header flags", || Flags::from_u32((n | u) as u32).to_u32() as u64)?;
                    w.state(&("flags", n | u));
                    if !thin {
                        for &u2 in &undeclared[..j] {
                            let n = n | u | u2;
                            word(w, n, false, "header flags", || Flags::from_u32(n as u32).to_u32() as u64)?;
                            w.state(&("flags", n));
                        }
                    }
                }
            }
            Ok(())
        });
    }
    for b in FLAGS {
        w.case("header flags", || format!("single flag {b:#x}"), |w| {
            word(w, b, true, "header flag", || Flag::from_u32(b as u32).to_u32() as u64)?;
            word(w, b, true, "header flag", || flag(b).to_u32() as u64)
        });
    }
    // section flags, through a section
    let mut sec = |w: &mut W, n: u64, be: bool| -> Result<(), String> {
        let mut v = base(Kd::Section, 0);
        v[8] = n;
        let b = enc(Kd::Section, &v, be);
        let declared = STYPES.contains(&(n & 0xff)) && n & 0xffffff00 & !ATTRS.iter().sum::<u64>() == 0;
        w.state(&("sect", n));
        word(w, n, declared, "section flags", || match (rd.any)(Kd::Section, &mut &b[..], be) {
            Any::Section(s) => s.flags.0.to_u32() as u64 | s.flags.1.to_u32() as u64,
            _ => unreachable!(),
        })
    };
    let attrs: Vec<u64> = full_alphabet(&F::B(&ATTRS));
    let unattr: Vec<u64> = (8..32).map(|i| 1u64 << i).filter(|b| !ATTRS.contains(b)).collect();
    for t in 0..256u64 {
        w.case("section flags", || format!("type byte {t:#x} with all attribute sets"), |w| {
            for (i, a) in attrs.iter().enumerate() {
                sec(w, a | t, i % 2 == 1)?;
            }
            for i in 0..32 {
                let _ = i;
            }
            for (j, u) in unattr.iter().enumerate() {
                sec(w, u | t, false)?;
                if STYPES.contains(&t) {
                    for u2 in &unattr[..j] {
                        sec(w, u | u2 | t, false)?;
                    }
                    for a in attrs.iter().step_by(8) {
                        sec(w, u | a | t, true)?;
                    }
                }
            }
            Ok(())
        });
    }
    w.case("section attributes", || "through SectionAttrs and SectionAttr".into(), |w| {
        for &a in &attrs {
            word(w, a, true, "section attributes", || SectionAttrs::from_u32(a as u32).to_u32() as u64)?;
        }
        for a in ATTRS {
            word(w, a, true, "section attribute", || SectionAttr::from_u32(a as u32).to_u32() as u64)?;
        }
        Ok(())
    });
    // symbol types
    w.case("symbol type byte", || "all 256".into(), |w| {
        for n in 0..=255u64 {
            let declared = NTYPES.contains(&n);
            w.state(&("ntype", n));
            word(w, n, declared, "symbol type", || NTypeField::from_u8(n as u8).to_u8() as u64)?;
            if let Ok(v) = sut(|| NTypeField::from_u8(n as u8)) {
                if ntype_n(&v) != n {
                    return Err(format!("symbol type {n:#x} decodes to {v:?}"));
                }
            }
            let mut v = base(Kd::NList, 0);
            v[1] = n;
            let b = enc(Kd::NList, &v, false);
            word(w, n, declared, "symbol type in an entry", || match (rd.any)(Kd::NList, &mut &b[..], false) {
                Any::NList(s) => s.n_type.to_u8() as u64,
                _ => unreachable!(),
            })?;
            word(w, n, [0, 2, 0xa, 0xc, 0xe].contains(&n), "plain symbol type", || NType::from_u8(n as u8).to_u8() as u64)?;
            word(w, n, n == 0x20, "debug symbol", || DebugSymbol::from_u8(n as u8).to_u8() as u64)?;
            word(w, n, n < 6, "x86 relocation type", || X86RelocType::from_u8(n as u8).to_u8() as u64)?;
            word(w, n, n < 10, "x86-64 relocation type", || X86_64RelocType::from_u8(n as u8).to_u8() as u64)?;
        }
        Ok(())
    });
    // relocation words
    let reloc = |w: &mut W, word: u32, be: bool| -> Result<(), String> {
        let mut b = [0x11, 0x22, 0x33, 0x44, 0, 0, 0, 0];
        let (sym, pc, len, ext, ty) = if be {
            (word >> 8, word >> 7 & 1, word >> 5 & 3, word >> 4 & 1, word & 15)
        } else {
            (word & 0xffffff, word >> 24 & 1, word >> 25 & 3, word >> 27 & 1, word >> 28)
        };
        b[4..].copy_from_slice(&if be { word.to_be_bytes() } else { word.to_le_bytes() });
        let addr = if be { 0x11223344u32 } else { 0x44332211 };
        w.transitions += 1;
        let (got, back) = sut(|| {
            let a = (rd.any)(Kd::Reloc, &mut &b[..], be);
            let mut o = [0u8; 8];
            if let Any::Reloc(r) = &a {
                r.write_into(&mut &mut o[..]);
            }
            (a, o)
        })
        .map_err(|m| format!("relocation word {word:#x} be={be} is refused: {m}"))?;
        let Any::Reloc(r) = got else { unreachable!() };
        let f = (r.r_address as u32, r.r_symbolnum, r.r_pcrel as u32, r.r_length as u32, r.r_extern as u32, r.r_type as u32);
        if f != (addr, sym, pc, len, ext, ty) {
            return Err(format!("relocation word {word:#x} be={be} decodes to {f:x?}, should be {:x?}", (addr, sym, pc, len, ext, ty)));
        }
        let nat = sym | pc << 24 | len << 25 | ext << 27 | ty << 28;
        if back[4..] != nat.to_le_bytes() {
            return Err(format!("relocation word {word:#x} be={be} is written back as [{}]", hex(&back[4..])));
        }
        Ok(())
    };
    if w.thorough() {
        for be in [false, true] {
            for hi in 0..4096u32 {
                w.case("relocation words", || format!("be={be}: 2^20 words from {:#x}", hi << 20), |w| {
                    for lo in 0..1u32 << 20 {
                        reloc(w, hi << 20 | lo, be)?;
                        if lo & 0xffff == 0 {
                            w.beat();
                        }
                    }
                    w.states_dense(1 << 20);
                    Ok(())
                });
            }
        }
    } else {
        for be in [false, true] {
            for hi in 0..256u32 {
                w.case("relocation words", || format!("be={be}: all symbol numbers {:#x}..", hi << 16), |w| {
                    for lo in 0..1u32 << 16 {
                        let sym = hi << 16 | lo;
                        reloc(w, if be { sym << 8 | 0x96 } else { sym | 0x96000000 }, be)?;
                    }
                    w.states_dense(1 << 16);
                    Ok(())
                });
                w.case("relocation words", || format!("be={be}: packed byte {hi:#x}"), |w| {
                    for &sym in &alphabet(24) {
                        let sym = sym as u32;
                        reloc(w, if be { sym << 8 | hi } else { sym | hi << 24 }, be)?;
                        w.state(&("rel", be, hi, sym));
                    }
                    Ok(())
                });
            }
        }
    }
    // enumerated words
    let mut ns: Vec<u64> = alphabet(32);
    for g in [0xfeedfacfu64, 0xfeedface, 0xcffaedfe, 0xcefaedfe, 0xcafebabe, 0xbebafeca] {
        for i in 0..32 {
            ns.push(g ^ 1 << i);
        }
        ns.push(g);
    }
    ns.sort();
    ns.dedup();
    let enumerated = |w: &mut W, n: u64| -> Result<(), String> {
        let u = n as u32;
        let magics = [0xfeedfacfu64, 0xfeedface, 0xcffaedfe, 0xcefaedfe, 0xcafebabe, 0xbebafeca];
        word(w, n, magics.contains(&n), "magic", || Magic::from_u32(u).to_u32() as u64)?;
        word(w, n, magics.contains(&n), "magic", || match Magic::from_u32_checked(u) {
            Some(m) => m.to_u32() as u64,
            None => panic!("refused"),
        })?;
        word(w, n, FILETYPES.contains(&n), "file type", || FileType::from_u32(u).to_u32() as u64)?;
        word(w, n, PLATFORMS.contains(&n), "platform", || Platform::from_u32(u).to_u32() as u64)?;
        word(w, n, TOOLS.contains(&n), "tool", || Tool::from_u32(u).to_u32() as u64)?;
        word(w, n, n < 4, "relocation length", || RelocLength::from_u32(u).to_u32() as u64)?;
        word(w, n, STYPES.contains(&n), "section type", || SectionType::from_u32(u).to_u32() as u64)?;
        word(w, n, FLAGS.contains(&n), "header flag", || Flag::from_u32(u).to_u32() as u64)?;
        word(w, n, ATTRS.contains(&n), "section attribute", || SectionAttr::from_u32(u).to_u32() as u64)?;
        for (ct, cs) in [(u, 3), (7, u), (0x01000007, u), (u, 0), (u, u)] {
            let declared = CPUS.contains(&(ct, cs));
            let want = (ct as u64) << 32 | cs as u64;
            word(w, want, declared, "cpu type", || {
                let (a, b) = CpuType::from_i32_i32(ct as i32, cs as i32).to_i32_i32();
                (a as u32 as u64) << 32 | b as u32 as u64
            })?;
        }
        w.state(&("enum", n));
        Ok(())
    };
    for chunk in ns.chunks(128) {
        w.case("enumerated words", || format!("{} values from {:#x}", chunk.len(), chunk[0]), |w| {
            chunk.iter().try_for_each(|&n| enumerated(w, n))
        });
    }
    let dense: u64 = if w.thorough() { 1 << 24 } else { 70000 };
    for blk in 0..dense / 1000 + 1 {
        w.case("enumerated words, dense", || format!("1000 values from {}", blk * 1000), |w| {
            (blk * 1000..blk * 1000 + 1000).try_for_each(|n| enumerated(w, n))
        });
    }
    let ver = |w: &mut W, n: u64| -> Result<(), String> {
        word(w, n, true, "version", || Version::from_u32(n as u32).to_u32() as u64)?;
        let v = sut(|| Version::from_u32(n as u32))?;
        if version_n(&v) != n {
            return Err(format!("version {n:#x} decodes to {v:?}"));
        }
        Ok(())
    };
    if w.thorough() {
        for hi in 0..4096u64 {
            w.case("versions", || format!("2^20 versions from {:#x}", hi << 20), |w| {
                for lo in 0..1u64 << 20 {
                    ver(w, hi << 20 | lo)?;
                    if lo & 0xffff == 0 {
                        w.beat();
                    }
                }
                w.states_dense(1 << 20);
                Ok(())
            });
        }
    } else {
        for hi in 0..256u64 {
            w.case("versions", || format!("halves {:#x}..", hi << 8), |w| {
                for lo in 0..256u64 {
                    ver(w, hi << 8 | lo)?;
                    ver(w, (hi << 8 | lo) << 16)?;
                    ver(w, (hi << 8 | lo) << 8)?;
                    ver(w, !(hi << 8 | lo) & 0xffffffff)?;
                }
                w.states_dense(1024 - 4);
                Ok(())
            });
        }
    }
    // fields that do not fit their bits
    let mut nums: Vec<u32> = vec![];
    for b in 24..32 {
        for low in [0u32, 1, 0x123456, 0xffffff] {
            nums.push(1 << b | low);
            for c in 24..b {
                nums.push(1 << b | 1 << c | low);
            }
        }
    }
    nums.extend([0x1000001, 0xff000000, u32::MAX]);
    let wr = |num: u32, ty: u8, bits: u32| {
        hex(&write(&Any::Reloc(RelocationInfo {
            r_address: 5, r_symbolnum: num, r_pcrel: bits & 1 == 1,
            r_length: [RelocLength::Byte, RelocLength::Word, RelocLength::Long, RelocLength::Quad][bits as usize >> 1 & 3],
            r_extern: bits >> 3 == 1, r_type: ty,
        })))
    };
    for bits in 0..16 {
        w.case("relocation fields that do not fit", || format!("symbol numbers of 25 bits and more, types of 5 bits and more, flags {bits:#x}"), |w| {
            for &n in &nums {
                w.state(&("reloc", n, bits));
                must_fail(w, false, &|| format!("symbol number {n:#x}"), &|| wr(n, 0, bits))?;
                must_fail(w, false, &|| format!("symbol number {n:#x}"), &|| wr(n, 15, bits))?;
            }
            for t in 16..=255 {
                w.state(&("reloc type", t, bits));
                must_fail(w, false, &|| format!("type {t}"), &|| wr(0xffffff, t, bits))?;
                must_fail(w, false, &|| format!("type {t}"), &|| wr(0, t, bits))?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- the string table

fn table_ok(w: &mut W, t: &StringTable, bytes: &[u8], strings: Option<&[&str]>) -> Result<(), String> {
    let got = sut(|| t.as_ref().to_vec())?;
    if got != bytes {
        return Err(format!("bytes are [{}], should be [{}]", hex(&got), hex(bytes)));
    }
    if sut(|| t.len())? != bytes.len() {
        return Err("len is not the number of bytes".into());
    }
    for i in 0..bytes.len() {
        let end = bytes[i..].iter().position(|&b| b == 0).unwrap() + i;
        let g = sut(|| t.get(i).to_string()).map_err(|m| format!("lookup of offset {i} panicked: {m}"))?;
        w.transitions += 1;
        if g.as_bytes() != &bytes[i..end] {
            return Err(format!("offset {i} of [{}] looks up {g:?}", clip(&hex(bytes), 200)));
        }
    }
    let it: Vec<String> = sut(|| t.iter().map(|s| s.to_string()).collect()).map_err(|m| format!("iterating panicked: {m}"))?;
    let derived: Vec<&str>;
    let want: &[&str] = match strings {
        Some(s) => s,
        None => {
            let n = bytes.len();
            derived = if n < 2 { vec![] } else { bytes[1..n - 1].split(|b| *b == 0).map(|b| std::str::from_utf8(b).unwrap()).collect() };
            &derived
        }
    };
    if it.len() < want.len() || it.len() > want.len() + 1 || it.iter().zip(want).any(|(a, b)| a != b) || it[want.len()..].iter().any(|s| !s.is_empty()) {
        return Err(format!("iterating gives {it:?}, pushed were {want:?}"));
    }
    Ok(())
}

fn pushes(w: &mut W, seq: &[&str]) -> Result<(), String> {
    let mut t = sut(StringTable::with_null)?;
    let mut bytes = vec![0u8];
    table_ok(w, &t, &bytes, Some(&[]))?;
    for (i, s) in seq.iter().enumerate() {
        let off = bytes.len();
        sut(|| t.push_with_null(s)).map_err(|m| format!("pushing {s:?} panicked: {m}"))?;
        bytes.extend_from_slice(s.as_bytes());
        bytes.push(0);
        w.transitions += 1;
        w.state(&bytes);
        if sut(|| t.get(off).to_string())? != *s {
            return Err(format!("{s:?} is not found at offset {off} where it was pushed"));
        }
        if i + 1 == seq.len() {
            table_ok(w, &t, &bytes, Some(seq))?;
            let t2 = sut(|| StringTable::from(t.as_ref().to_vec())).map_err(|m| format!("rebuilding panicked: {m}"))?;
            table_ok(w, &t2, &bytes, Some(seq))?;
            let mut t2 = t2;
            sut(|| t2.push_with_null("more")).map_err(|m| format!("pushing to a rebuilt table panicked: {m}"))?;
            let mut b2 = bytes.clone();
            b2.extend_from_slice(b"more\0");
            table_ok(w, &t2, &b2, None)?;
        }
    }
    Ok(())
}

fn m04(w: &mut W) {
    let long = "L".repeat(300);
    let strs: Vec<&str> = vec!["a", "", "b", "ab", "ba", "main", "_main", "aa", &long];
    let depth = if w.thorough() { 7 } else { 5 };
    w.case("pushes", || "no push".into(), |w| pushes(w, &[]));
    fn rec<'a>(w: &mut W, strs: &[&'a str], st: &mut Vec<&'a str>, depth: usize) {
        if !st.is_empty() {
            w.case("pushes", || clip(&format!("{st:?}"), 300), |w| pushes(w, st));
        }
        if st.len() < depth {
            for s in strs {
                if s.len() == 300 && st.len() > 2 {
                    continue;
                }
                st.push(s);
                rec(w, strs, st, depth);
                st.pop();
            }
        }
    }
    rec(w, &strs, &mut Vec::new(), depth);
    for c in 1..128u8 {
        w.case("every character", || format!("{:?}", c as char), |w| {
            let s = format!("x{}y", c as char);
            pushes(w, &["q", &s, &s, "z"])
        });
    }
    for n in (0..=130usize).chain([254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 4097, 8192, 65534, 65535, 65536, 70000]) {
        w.case("string lengths", || format!("strings of {n} and {} characters around others", n / 2), |w| {
            let l: String = (0..n).map(|i| (b'a' + (i % 23) as u8) as char).collect();
            let ss = [&l[..], "q", &l[..n / 2], "", &l[n / 2..], "z"];
            let mut t = StringTable::with_null();
            let mut bytes = vec![0u8];
            let mut at = vec![];
            for s in ss {
                sut(|| t.push_with_null(s))?;
                at.push((bytes.len(), s));
                bytes.extend_from_slice(s.as_bytes());
                bytes.push(0);
                if sut(|| t.len())? != bytes.len() {
                    return Err(format!("the table's length is not {}", bytes.len()));
                }
            }
            for (o, s) in at {
                for cut in [0, 1, s.len() / 2, s.len()] {
                    let cut = cut.min(s.len());
                    w.transitions += 1;
                    if sut(|| t.get(o + cut).to_string())? != s[cut..] {
                        return Err(format!("offset {} does not give the last {} characters of the string of {}", o + cut, s.len() - cut, s.len()));
                    }
                }
            }
            w.executed(1);
            let got: Vec<String> = sut(|| t.iter().map(|s| s.to_string()).collect())?;
            if got.len() < ss.len() || got.iter().zip(&ss).any(|(a, b)| a != b) || sut(|| t.as_ref().to_vec())? != bytes {
                return Err("iteration or bytes differ".into());
            }
            let u = sut(|| StringTable::from(bytes.clone()))?;
            if sut(|| u.as_ref().to_vec())? != bytes || sut(|| u.get(1).to_string())? != l {
                return Err("the table rebuilt from its bytes differs".into());
            }
            Ok(())
        });
    }
    // tables larger than 16 and 24 bit offsets
    for (size, total) in [(0usize, 70_000usize), (1, 140_000), (40, 1 << 20), (1000, (1 << 24) + 5000), (70_000, (1 << 24) + 200_000)] {
        w.case("large tables", || format!("strings of about {size} characters, {total} bytes together"), |w| {
            let mut t = StringTable::with_null();
            let mut bytes = vec![0u8];
            let mut ss: Vec<(usize, String)> = vec![];
            while bytes.len() < total {
                let i = ss.len();
                let s: String = (0..if size > 1 { size + i % 7 } else { size }).map(|k| (b'a' + ((i + k * 7) % 26) as u8) as char).collect();
                if i % 4096 == 0 {
                    w.beat();
                }
                sut(|| t.push_with_null(&s))?;
                ss.push((bytes.len(), s));
                bytes.extend_from_slice(ss[i].1.as_bytes());
                bytes.push(0);
            }
            w.transitions += ss.len() as u64;
            w.executed(1);
            w.state(&(size, total));
            if sut(|| t.as_ref() == &bytes[..])? == false || sut(|| t.len())? != bytes.len() {
                return Err("the bytes of the table differ".into());
            }
            let u = sut(|| StringTable::from(bytes.clone()))?;
            for (i, (o, s)) in ss.iter().enumerate() {
                // all near the boundaries, some elsewhere
                let near = (8..25).any(|b| o.abs_diff(1 << b) < 3000) || i % 97 == 0 || ss.len() - i < 100;
                if !near {
                    continue;
                }
                for cut in [0, s.len() / 2, s.len()] {
                    w.transitions += 2;
                    if sut(|| t.get(o + cut) == &s[cut..] && u.get(o + cut) == &s[cut..])? == false {
                        return Err(format!("offset {:#x} does not give the end of string {i}", o + cut));
                    }
                }
            }
            let mut k = 0;
            for x in sut(|| t.iter().map(|s| s.to_string()).collect::<Vec<_>>())? {
                if k < ss.len() && x != ss[k].1 {
                    return Err(format!("iteration gives another string {k}"));
                }
                k += 1;
            }
            if k < ss.len() {
                return Err(format!("iteration ends after {k} of {} strings", ss.len()));
            }
            Ok(())
        });
    }
    w.case("many pushes", || "5000 pushes".into(), |w| {
        let mut t = StringTable::with_null();
        let mut bytes = vec![0u8];
        let mut all = Vec::new();
        let ss: Vec<String> = (0..5000).map(|i| format!("sym{}{}", i, "_".repeat(i % 40))).collect();
        for s in &ss {
            sut(|| t.push_with_null(s))?;
            all.push((bytes.len(), s));
            bytes.extend_from_slice(s.as_bytes());
            bytes.push(0);
        }
        for (o, s) in all {
            if sut(|| t.get(o).to_string())? != *s {
                return Err(format!("offset {o} does not give {s:?}"));
            }
            w.transitions += 1;
        }
        let r: Vec<&str> = ss.iter().map(|s| s.as_str()).collect();
        table_ok(w, &t, &bytes, Some(&r))
    });
    // rebuilding from bytes
    let al = [0u8, b'a', b'b', 0x80];
    let n = if w.thorough() { 9 } else { 7 };
    fn bytes_rec(w: &mut W, al: &[u8], st: &mut Vec<u8>, n: usize) {
        w.case("from bytes", || format!("[{}]", hex(st)), |w| {
            let ok = st.first() == Some(&0) && st.last() == Some(&0) && st.iter().all(|b| *b < 128);
            w.state(&(1, &st));
            w.transitions += 1;
            match (ok, sut(|| StringTable::from(st.clone()))) {
                (true, Ok(t)) => table_ok(w, &t, st, None),
                (true, Err(m)) => Err(format!("refused: {m}")),
                (false, Ok(_)) => Err("accepted, although not enclosed in NULs or not ASCII".into()),
                (false, Err(_)) => {
                    w.refused += 1;
                    Ok(())
                }
            }
        });
        if st.len() < n {
            for a in al {
                st.push(*a);
                bytes_rec(w, al, st, n);
                st.pop();
            }
        }
    }
    bytes_rec(w, &al, &mut Vec::new(), n);
    for b in 128..=255u8 {
        w.case("non-ASCII bytes", || format!("{b:#x}"), |w| {
            for v in [vec![0, b, 0], vec![0, b'a', b, 0], vec![0, b, b'a', 0], vec![0, b'a', 0, b, 0], vec![0, b'a', 0, 0, b'c', b, 0]] {
                must_fail(w, false, &|| format!("table [{}]", hex(&v)), &|| format!("{:?}", StringTable::from(v.clone())))?;
                w.state(&v);
            }
            Ok(())
        });
    }
    // far behind the beginning of a table or a string
    for n in [7usize, 15, 16, 31, 63, 64, 127, 255, 256, 511, 1000, 1023, 1024, 4095, 4096, 8192, 65535, 65536, 70000, 1 << 20] {
        w.case("non-ASCII far behind", || format!("in the last 40 of {n} bytes, the first ones and in the middle"), |w| {
            for at in (1..n).filter(|i| *i < 20 || *i + 40 > n || i.abs_diff(n / 2) < 4) {
                for (c, kind) in [('\u{80}', 0usize), ('\u{ff}', 1), ('\u{3042}', 2), ('\0', 3)] {
                    w.state(&(n, at, kind));
                    let mut v = vec![b'a'; n];
                    (v[0], v[n - 1]) = (0, 0);
                    v[n / 3 + 1] = 0;
                    if kind < 2 && at != n - 1 {
                        v[at] = c as u32 as u8;
                        must_fail(w, false, &|| format!("a table of {n} bytes with {:#x} at {at}", v[at]), &|| format!("{}", StringTable::from(v.clone()).len()))?;
                    }
                    if n < 1 << 20 {
                        let s: String = (0..n).map(|i| if i == at { c } else { 'a' }).collect();
                        must_fail(w, false, &|| format!("a string of {n} characters with {c:?} at {at}"), &|| {
                            let mut t = StringTable::with_null();
                            t.push_with_null("first");
                            t.push_with_null(&s);
                            format!("{}", t.len())
                        })?;
                    }
                }
            }
            Ok(())
        });
    }
    for c in ['\0', '\u{80}', '\u{a0}', '\u{e9}', '\u{ff}', '\u{100}', '\u{141}', '\u{3b1}', '\u{7ff}', '\u{800}', '\u{3042}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}'] {
        for pos in 0..6usize {
            for len in pos..6 {
                w.case("NUL and non-ASCII text", || format!("{c:?} at {pos} of {}", len + 1), |w| {
                    let s: String = (0..=len).map(|i| if i == pos { c } else { 'a' }).collect();
                    w.state(&s);
                    must_fail(w, false, &|| format!("{s:?}"), &|| {
                        let mut t = StringTable::with_null();
                        t.push_with_null("first");
                        t.push_with_null(&s);
                        hex(t.as_ref())
                    })
                });
            }
        }
    }
}
