//! ELF and `ar` writers (little endian, 32 and 64 bit).

#[derive(Clone, Debug)]
pub struct Section {
    pub name: String,
    pub ty: u32,
    pub flags: u64,
    pub addr: u64,
    pub data: Vec<u8>,
    pub link: u32,
    pub info: u32,
    pub entsize: u64,
}

pub const PROGBITS: u32 = 1;
pub const SYMTAB: u32 = 2;
pub const STRTAB: u32 = 3;
pub const RELA: u32 = 4;
pub const NOBITS: u32 = 8;
pub const REL: u32 = 9;

pub const NOTYPE: u8 = 0;
pub const OBJECT: u8 = 1;
pub const FUNC: u8 = 2;
pub const SECTION: u8 = 3;
pub const FILE: u8 = 4;
pub const LOCAL: u8 = 0;
pub const GLOBAL: u8 = 1;

#[derive(Clone, Debug)]
pub struct Symbol {
    pub name: Vec<u8>,
    pub value: u64,
    pub size: u64,
    pub ty: u8,
    pub bind: u8,
    pub shndx: u16,
}

impl Symbol {
    pub fn new(name: &str, ty: u8, value: u64, size: u64, shndx: u16) -> Self {
        Symbol { name: name.as_bytes().to_vec(), value, size, ty, bind: GLOBAL, shndx }
    }
}

#[derive(Clone, Debug)]
pub struct Elf {
    pub is64: bool,
    pub machine: u16,
    pub etype: u16, // 1 = REL, 2 = EXEC
    pub sections: Vec<Section>,
    pub symbols: Vec<Symbol>,
    pub symtab: bool,
}

struct W {
    b: Vec<u8>,
    is64: bool,
}

impl W {
    fn u16(&mut self, v: u16) {
        self.b.extend(v.to_le_bytes())
    }
    fn u32(&mut self, v: u32) {
        self.b.extend(v.to_le_bytes())
    }
    fn u64(&mut self, v: u64) {
        self.b.extend(v.to_le_bytes())
    }
    fn word(&mut self, v: u64) {
        if self.is64 {
            self.u64(v)
        } else {
            self.u32(v as u32)
        }
    }
    fn align(&mut self, n: usize) {
        while self.b.len() % n != 0 {
            self.b.push(0)
        }
    }
}

impl Elf {
    pub fn new(is64: bool, machine: u16, etype: u16) -> Self {
        Elf { is64, machine, etype, sections: vec![], symbols: vec![], symtab: true }
    }

    /// Adds a section, returns its index (section 0 is the null section).
    pub fn section(&mut self, name: &str, ty: u32, flags: u64, addr: u64, data: Vec<u8>) -> u16 {
        self.sections.push(Section {
            name: name.to_string(),
            ty,
            flags,
            addr,
            data,
            link: 0,
            info: 0,
            entsize: 0,
        });
        self.sections.len() as u16
    }

    pub fn symtab_index(&self) -> u32 {
        self.sections.len() as u32 + 1
    }

    pub fn write(&self) -> Vec<u8> {
        let is64 = self.is64;
        let mut secs = self.sections.clone();
        let nuser = secs.len();
        if self.symtab {
            let mut strtab = vec![0u8];
            let mut w = W { b: vec![], is64 };
            let esz = if is64 { 24 } else { 16 };
            w.b.resize(esz, 0);
            for s in &self.symbols {
                let off = if s.name.is_empty() {
                    0
                } else {
                    let o = strtab.len() as u32;
                    strtab.extend(&s.name);
                    strtab.push(0);
                    o
                };
                let info = (s.bind << 4) | s.ty;
                w.u32(off);
                if is64 {
                    w.b.push(info);
                    w.b.push(0);
                    w.u16(s.shndx);
                    w.u64(s.value);
                    w.u64(s.size);
                } else {
                    w.u32(s.value as u32);
                    w.u32(s.size as u32);
                    w.b.push(info);
                    w.b.push(0);
                    w.u16(s.shndx);
                }
            }
            secs.push(Section {
                name: ".symtab".into(),
                ty: SYMTAB,
                flags: 0,
                addr: 0,
                data: w.b,
                link: nuser as u32 + 2,
                info: 1,
                entsize: esz as u64,
            });
            secs.push(Section {
                name: ".strtab".into(),
                ty: STRTAB,
                flags: 0,
                addr: 0,
                data: strtab,
                link: 0,
                info: 0,
                entsize: 0,
            });
        }
        let mut shstr = vec![0u8];
        let mut names = vec![];
        for s in &secs {
            names.push(shstr.len() as u32);
            shstr.extend(s.name.as_bytes());
            shstr.push(0);
        }
        names.push(shstr.len() as u32);
        shstr.extend(b".shstrtab\0");
        secs.push(Section {
            name: ".shstrtab".into(),
            ty: STRTAB,
            flags: 0,
            addr: 0,
            data: shstr,
            link: 0,
            info: 0,
            entsize: 0,
        });

        let ehsize = if is64 { 64 } else { 52 };
        let shentsize: u16 = if is64 { 64 } else { 40 };
        let mut w = W { b: vec![0; ehsize], is64 };
        let mut offs = vec![];
        for s in &secs {
            w.align(16);
            offs.push(w.b.len() as u64);
            if s.ty != NOBITS {
                w.b.extend(&s.data);
            }
        }
        w.align(16);
        let shoff = w.b.len() as u64;
        w.b.resize(w.b.len() + shentsize as usize, 0);
        for (i, s) in secs.iter().enumerate() {
            w.u32(names[i]);
            w.u32(s.ty);
            w.word(s.flags);
            w.word(s.addr);
            w.word(offs[i]);
            w.word(s.data.len() as u64);
            w.u32(s.link);
            w.u32(s.info);
            w.word(if s.ty == PROGBITS { 4 } else { 8.min(4 + 4 * is64 as u64) });
            w.word(s.entsize);
        }
        let mut h = W { b: vec![], is64 };
        h.b.extend([0x7f, b'E', b'L', b'F', 1 + is64 as u8, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        h.u16(self.etype);
        h.u16(self.machine);
        h.u32(1);
        h.word(0);
        h.word(0);
        h.word(shoff);
        h.u32(0);
        h.u16(ehsize as u16);
        h.u16(if is64 { 56 } else { 32 });
        h.u16(0);
        h.u16(shentsize);
        h.u16(secs.len() as u16 + 1);
        h.u16(secs.len() as u16);
        assert_eq!(h.b.len(), ehsize);
        w.b[..ehsize].copy_from_slice(&h.b);
        w.b
    }
}

pub fn uleb(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            o.push(b);
            return o;
        }
        o.push(b | 0x80);
    }
}

/// GNU `ar` archive; long names go to the `//` table.
pub fn ar(members: &[(&str, Vec<u8>)]) -> Vec<u8> {
    ar_with(members, Index::None)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Index {
    None,
    /// `/`: with that many symbols
    Gnu(u32),
}

pub fn ar_with(members: &[(&str, Vec<u8>)], index: Index) -> Vec<u8> {
    let mut out = b"!<arch>\n".to_vec();
    let mut table = vec![];
    let mut ids = vec![];
    for (name, _) in members {
        if name.len() > 15 {
            ids.push(format!("/{}", table.len()));
            table.extend(name.as_bytes());
            table.extend(b"/\n");
        } else {
            ids.push(format!("{}/", name));
        }
    }
    let mut put = |id: &str, data: &[u8]| {
        out.extend(format!("{:<16}{:<12}{:<6}{:<6}{:<8}{:<10}`\n", id, 0, 0, 0, 644, data.len()).as_bytes());
        out.extend(data);
        if data.len() % 2 == 1 {
            out.push(b'\n');
        }
    };
    if let Index::Gnu(n) = index {
        let mut d = n.to_be_bytes().to_vec();
        for _ in 0..n {
            d.extend(8u32.to_be_bytes());
        }
        for i in 0..n {
            d.extend(format!("sym{}\0", i).as_bytes());
        }
        put("/", &d);
    }
    if !table.is_empty() {
        put("//", &table);
    }
    for ((_, data), id) in members.iter().zip(&ids) {
        put(id, data);
    }
    out
}
