//! An independent reader of x86-64 Mach-O relocatable objects, written from Apple's
//! loader.h / nlist.h / reloc.h layouts. It shares nothing with the code under test.
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Rel {
    pub addr: i32,
    pub symnum: u32,
    pub pcrel: bool,
    pub len: u8,
    pub ext: bool,
    pub ty: u8,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Sect {
    pub sectname: String,
    pub segname: String,
    pub addr: u64,
    pub size: u64,
    pub offset: u32,
    pub align: u32,
    pub reloff: u32,
    pub nreloc: u32,
    pub flags: u32,
    pub relocs: Vec<Rel>,
    /// the bytes in the file (empty for zero-fill)
    pub data: Vec<u8>,
}
impl Sect {
    pub fn zerofill(&self) -> bool {
        self.flags & 0xff == 1
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Sym {
    pub strx: u32,
    pub name: String,
    pub ntype: u8,
    pub sect: u8,
    pub desc: u16,
    pub value: u64,
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Obj {
    pub magic: u32,
    pub cputype: u32,
    pub cpusubtype: u32,
    pub filetype: u32,
    pub ncmds: u32,
    pub sizeofcmds: u32,
    pub hflags: u32,
    pub hreserved: u32,
    pub segname: String,
    pub vmaddr: u64,
    pub vmsize: u64,
    pub fileoff: u64,
    pub filesize: u64,
    pub maxprot: u32,
    pub initprot: u32,
    pub segflags: u32,
    pub sects: Vec<Sect>,
    pub symoff: u32,
    pub stroff: u32,
    pub strsize: u32,
    pub syms: Vec<Sym>,
    pub file_len: u64,
}

struct C<'a>(&'a [u8], usize);
impl<'a> C<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        let r = self.0.get(self.1..self.1 + n).ok_or_else(|| format!("file ends inside a structure at {}", self.1))?;
        self.1 += n;
        Ok(r)
    }
    fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn name16(&mut self) -> Result<String, String> {
        let b = self.take(16)?;
        let n = b.iter().position(|&c| c == 0).unwrap_or(16);
        if b[n..].iter().any(|&c| c != 0) {
            return Err("name field has bytes after its NUL".into());
        }
        String::from_utf8(b[..n].to_vec()).map_err(|_| "name is not ASCII".into())
    }
}

/// Reads the file; checks only what is needed to make sense of it.
pub fn parse(b: &[u8]) -> Result<Obj, String> {
    let mut c = C(b, 0);
    let magic = c.u32()?;
    if magic != 0xfeedfacf {
        return Err(format!("magic is {magic:#x}, not MH_MAGIC_64"));
    }
    let (cputype, cpusubtype, filetype, ncmds, sizeofcmds, hflags, hreserved) =
        (c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?);
    let mut o = Obj {
        magic, cputype, cpusubtype, filetype, ncmds, sizeofcmds, hflags, hreserved,
        segname: String::new(), vmaddr: 0, vmsize: 0, fileoff: 0, filesize: 0, maxprot: 0, initprot: 0, segflags: 0,
        sects: vec![], symoff: 0, stroff: 0, strsize: 0, syms: vec![], file_len: b.len() as u64,
    };
    let (mut have_seg, mut have_sym) = (false, false);
    let mut nsyms = 0;
    for i in 0..ncmds {
        let start = c.1;
        let cmd = c.u32()?;
        let size = c.u32()? as usize;
        match cmd {
            0x19 => {
                if have_seg {
                    return Err("more than one segment command".into());
                }
                have_seg = true;
                o.segname = c.name16()?;
                o.vmaddr = c.u64()?;
                o.vmsize = c.u64()?;
                o.fileoff = c.u64()?;
                o.filesize = c.u64()?;
                o.maxprot = c.u32()?;
                o.initprot = c.u32()?;
                let nsects = c.u32()?;
                o.segflags = c.u32()?;
                if size as u64 != 72 + 80 * nsects as u64 {
                    return Err(format!("segment cmdsize {size} does not fit {nsects} sections"));
                }
                for _ in 0..nsects {
                    let sectname = c.name16()?;
                    let segname = c.name16()?;
                    let (addr, ssize) = (c.u64()?, c.u64()?);
                    let (offset, align, reloff, nreloc, flags) = (c.u32()?, c.u32()?, c.u32()?, c.u32()?, c.u32()?);
                    let (r1, r2, r3) = (c.u32()?, c.u32()?, c.u32()?);
                    if (r1, r2, r3) != (0, 0, 0) {
                        return Err("section reserved fields are not 0".into());
                    }
                    o.sects.push(Sect {
                        sectname, segname, addr, size: ssize, offset, align, reloff, nreloc, flags,
                        relocs: vec![], data: vec![],
                    });
                }
            }
            0x2 => {
                if have_sym {
                    return Err("more than one symtab command".into());
                }
                have_sym = true;
                if size != 24 {
                    return Err(format!("symtab cmdsize is {size}"));
                }
                o.symoff = c.u32()?;
                nsyms = c.u32()?;
                o.stroff = c.u32()?;
                o.strsize = c.u32()?;
            }
            _ => return Err(format!("unexpected load command {cmd:#x}")),
        }
        if c.1 - start != size {
            return Err(format!("load command {i} has cmdsize {size} but takes {} bytes", c.1 - start));
        }
    }
    if !have_seg || !have_sym {
        return Err("segment or symtab command is missing".into());
    }
    if c.1 as u64 != 32 + sizeofcmds as u64 {
        return Err(format!("sizeofcmds is {sizeofcmds}, the commands take {} bytes", c.1 - 32));
    }
    let sub = |off: u64, len: u64, what: &str| -> Result<&[u8], String> {
        let end = off.checked_add(len).ok_or_else(|| format!("{what} range overflows"))?;
        if end > b.len() as u64 {
            return Err(format!("{what} range {off}..{end} is outside the file of {} bytes", b.len()));
        }
        Ok(&b[off as usize..end as usize])
    };
    for s in &mut o.sects {
        if !s.zerofill() {
            s.data = sub(s.offset as u64, s.size, &s.sectname)?.to_vec();
        }
        let mut r = C(sub(s.reloff as u64, 8 * s.nreloc as u64, "relocation table")?, 0);
        for _ in 0..s.nreloc {
            let addr = r.u32()? as i32;
            let w = r.u32()?;
            s.relocs.push(Rel {
                addr,
                symnum: w & 0xffffff,
                pcrel: w >> 24 & 1 == 1,
                len: (w >> 25 & 3) as u8,
                ext: w >> 27 & 1 == 1,
                ty: (w >> 28) as u8,
            });
        }
    }
    let strtab = sub(o.stroff as u64, o.strsize as u64, "string table")?;
    let mut sy = C(sub(o.symoff as u64, 16 * nsyms as u64, "symbol table")?, 0);
    for i in 0..nsyms {
        let strx = sy.u32()?;
        let (ntype, sect) = (sy.u8()?, sy.u8()?);
        let desc = sy.u16()?;
        let value = sy.u64()?;
        let rest = strtab.get(strx as usize..).ok_or_else(|| format!("symbol {i}: name offset {strx} is outside"))?;
        let n = rest.iter().position(|&c| c == 0).ok_or_else(|| format!("symbol {i}: name has no end"))?;
        let name = String::from_utf8(rest[..n].to_vec()).map_err(|_| format!("symbol {i}: name is not ASCII"))?;
        o.syms.push(Sym { strx, name, ntype, sect, desc, value });
    }
    Ok(o)
}

/// O01: everything the file says about itself is consistent.
pub fn well_formed(b: &[u8], o: &Obj) -> Result<(), String> {
    let err = |m: String| -> Result<(), String> { Err(m) };
    if (o.cputype, o.cpusubtype, o.filetype) != (0x01000007, 3, 1) {
        return err(format!("cpu {:#x}/{} filetype {}", o.cputype, o.cpusubtype, o.filetype));
    }
    if o.hreserved != 0 {
        return err("header reserved field is not 0".into());
    }
    if o.hflags != 0 {
        return err(format!("header flags {:#x}", o.hflags));
    }
    if (o.maxprot, o.initprot, o.segflags) != (7, 7, 0) || !o.segname.is_empty() {
        return err(format!("segment {:?} has protections {} and {} and flags {:#x}", o.segname, o.maxprot, o.initprot, o.segflags));
    }
    let mut ranges: Vec<(u64, u64, String)> = vec![(0, 32 + o.sizeofcmds as u64, "header and commands".into())];
    let (mut vmend, mut fstart, mut fend): (u64, u64, u64) = (o.vmaddr, u64::MAX, 0);
    for s in &o.sects {
        if s.addr != vmend {
            return err(format!("{} starts at {:#x}, the memory before it ends at {:#x}", s.sectname, s.addr, vmend));
        }
        vmend = s.addr.checked_add(s.size).ok_or("section wraps the address space")?;
        if !s.zerofill() && s.size > 0 {
            ranges.push((s.offset as u64, s.size, s.sectname.clone()));
            fstart = fstart.min(s.offset as u64);
            fend = fend.max(s.offset as u64 + s.size);
        }
        if s.nreloc > 0 {
            if s.reloff % 8 != 0 {
                return err(format!("relocations of {} are at {}, not 8-byte aligned", s.sectname, s.reloff));
            }
            ranges.push((s.reloff as u64, 8 * s.nreloc as u64, format!("relocations of {}", s.sectname)));
        }
    }
    if o.vmsize != vmend - o.vmaddr {
        return err(format!("segment vmsize is {}, its sections take {}", o.vmsize, vmend - o.vmaddr));
    }
    if o.filesize > o.vmsize {
        return err(format!("segment filesize {} exceeds vmsize {}", o.filesize, o.vmsize));
    }
    if fstart == u64::MAX {
        if o.filesize != 0 {
            return err(format!("segment filesize is {} without file-backed sections", o.filesize));
        }
    } else if (o.fileoff, o.filesize) != (fstart, fend - fstart) {
        return err(format!(
            "segment covers file {}+{}, its sections cover {}+{}",
            o.fileoff, o.filesize, fstart, fend - fstart
        ));
    }
    if o.fileoff + o.filesize > o.file_len {
        return err("segment reaches beyond the file".into());
    }
    if o.symoff % 8 != 0 {
        return err(format!("symbol table at {} is not 8-byte aligned", o.symoff));
    }
    if !o.syms.is_empty() {
        ranges.push((o.symoff as u64, 16 * o.syms.len() as u64, "symbol table".into()));
    }
    ranges.push((o.stroff as u64, o.strsize as u64, "string table".into()));
    if o.stroff as u64 + o.strsize as u64 != b.len() as u64 {
        return err(format!("the string table ends at {}, the file at {}", o.stroff + o.strsize, b.len()));
    }
    let st = &b[o.stroff as usize..];
    if st.first() != Some(&0) || st.last() != Some(&0) {
        return err("the string table is not enclosed in NULs".into());
    }
    ranges.sort();
    for w in ranges.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return err(format!("{} and {} overlap in the file", w[0].2, w[1].2));
        }
    }
    for (i, s) in o.syms.iter().enumerate() {
        if s.sect as usize > o.sects.len() {
            return err(format!("symbol {i} is in section {} of {}", s.sect, o.sects.len()));
        }
    }
    for s in &o.sects {
        for r in &s.relocs {
            if r.ext && r.symnum as usize >= o.syms.len() {
                return err(format!("relocation of {} names symbol {} of {}", s.sectname, r.symnum, o.syms.len()));
            }
        }
    }
    Ok(())
}

/// Parses and checks O01 in one go.
pub fn read(b: &[u8]) -> Result<Obj, String> {
    let o = parse(b)?;
    well_formed(b, &o)?;
    Ok(o)
}
