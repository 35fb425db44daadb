//! Thumb images with full control over addresses, bytes and mapping symbols.
use crate::elf::{self, Elf, Symbol};
use crate::run::{Run, Worker};
use crate::world::{ir_file, object, Arch};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub struct Item {
    pub addr: u64,
    pub name: String,
    pub bytes: Vec<u8>,
    /// size in the symbol table (None: length of the bytes)
    pub size: Option<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Image {
    pub v6: bool,
    pub base: u64,
    /// length of .text at least
    pub len: u64,
    pub items: Vec<Item>,
    /// mapping symbols: address, name
    pub tags: Vec<(u64, String)>,
    /// raw bytes that belong to no symbol
    pub raw: Vec<(u64, Vec<u8>)>,
    /// other executable sections that follow: name, address, bytes
    pub sections: Vec<(String, u64, Vec<u8>)>,
    pub ll: String,
    pub stacks: Vec<(Vec<String>, Option<u64>)>,
    /// undefined symbols
    pub undef: Vec<String>,
    pub target: Option<&'static str>,
}

pub const RET: [u8; 2] = [0x70, 0x47];

impl Image {
    pub fn new(v6: bool, base: u64) -> Self {
        Image { v6, base, ..Default::default() }
    }
    pub fn item(&mut self, addr: u64, name: &str, bytes: &[u8]) -> &mut Self {
        self.items.push(Item { addr, name: name.into(), bytes: bytes.to_vec(), size: None });
        self
    }
    pub fn tag(&mut self, addr: u64, name: &str) -> &mut Self {
        self.tags.push((addr, name.into()));
        self
    }
    pub fn end(&self) -> u64 {
        let a = self.items.iter().map(|i| i.addr + i.bytes.len() as u64).max().unwrap_or(self.base);
        let b = self.raw.iter().map(|i| i.0 + i.1.len() as u64).max().unwrap_or(self.base);
        a.max(b)
    }

    pub fn elf(&self) -> Vec<u8> {
        let len = self.len.max(self.end() - self.base);
        let mut text = vec![0u8; len as usize];
        for (a, b) in self.items.iter().map(|i| (i.addr, &i.bytes)).chain(self.raw.iter().map(|r| (r.0, &r.1))) {
            let o = (a - self.base) as usize;
            text[o..o + b.len()].copy_from_slice(b);
        }
        let mut e = Elf::new(false, 40, 2);
        let t = e.section(".text", elf::PROGBITS, 6, self.base, text);
        for (n, a, b) in &self.sections {
            e.section(n, elf::PROGBITS, 6, *a, b.clone());
        }
        for (a, n) in &self.tags {
            e.symbols.push(Symbol { name: n.clone().into_bytes(), value: *a, size: 0, ty: elf::NOTYPE, bind: elf::LOCAL, shndx: t });
        }
        for i in &self.items {
            e.symbols.push(Symbol::new(&i.name, elf::FUNC, i.addr | 1, i.size.unwrap_or(i.bytes.len() as u64), t));
        }
        for u in &self.undef {
            e.symbols.push(Symbol::new(u, elf::FUNC, 0, 0, 0));
        }
        e.write()
    }

    pub fn run(&self, w: &mut Worker) -> Run {
        let arch = if self.v6 { Arch::V6 } else { Arch::V7 };
        let elf = self.elf();
        // targets of one kind take turns
        let sum = elf.iter().fold(0u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3));
        let ts = arch.targets();
        let t = self.target.unwrap_or(ts[(sum >> 9) as usize % ts.len()]);
        let dir = format!("proj/target/{}/release/examples", t);
        w.put(&format!("{}/app", dir), &elf);
        w.put(&format!("{}/app-0123456789abcdef.o", dir), &object(arch, &self.stacks));
        w.put(&format!("{}/app-0123456789abcdef.ll", dir), ir_file(&self.ll).as_bytes());
        w.put("cb/cb.ll", ir_file("").as_bytes());
        w.put("cb/libcompiler_builtins.rlib", &elf::ar(&[("lib.rmeta", b"meta".to_vec())]));
        w.run(&["--example", "app", "--target", t])
    }
}

/// callees by name
pub fn edges(g: &crate::dot::Graph) -> BTreeMap<String, BTreeSet<String>> {
    let mut m: BTreeMap<String, BTreeSet<String>> = g.nodes.iter().map(|n| (n.name.clone(), BTreeSet::new())).collect();
    for (a, b) in &g.edges {
        m.get_mut(&g.nodes[*a].name).unwrap().insert(g.nodes[*b].name.clone());
    }
    m
}

pub fn hws(hs: &[u16]) -> Vec<u8> {
    hs.iter().flat_map(|h| h.to_le_bytes()).collect()
}
