//! Synthetic programs: what a build leaves behind (executable, object file, LLVM IR, archive).

use crate::elf::{self, Elf, Symbol};
use crate::run::{Run, Worker};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Arch {
    V6,
    V7,
    A64,
    X64,
    /// 32 bits, addresses of functions have the lowest bit set, machine code not analyzed
    V8,
    /// 32 bits, RELA
    Rv,
}

impl Arch {
    pub fn thumb(self) -> bool {
        matches!(self, Arch::V6 | Arch::V7)
    }
    pub fn is64(self) -> bool {
        matches!(self, Arch::A64 | Arch::X64)
    }
    /// the bit that marks the addresses of Thumb functions
    pub fn bit(self) -> u64 {
        matches!(self, Arch::V6 | Arch::V7 | Arch::V8) as u64
    }
    pub fn rela(self) -> bool {
        self.is64() || self == Arch::Rv
    }
    pub fn code_tag(self) -> &'static str {
        if self.bit() == 1 {
            "$t"
        } else {
            "$x"
        }
    }
    pub fn machine(self) -> u16 {
        match self {
            Arch::V6 | Arch::V7 | Arch::V8 => 40,
            Arch::Rv => 243,
            Arch::A64 => 183,
            Arch::X64 => 62,
        }
    }
    pub fn target(self) -> &'static str {
        match self {
            Arch::V6 => "thumbv6m-none-eabi",
            Arch::V7 => "thumbv7m-none-eabi",
            Arch::A64 => "aarch64-unknown-none",
            Arch::X64 => "x86_64-unknown-linux-gnu",
            Arch::V8 => "thumbv8m.main-none-eabi",
            Arch::Rv => "riscv32imac-unknown-none-elf",
        }
    }
    /// all targets the machine code is read alike for
    pub fn targets(self) -> &'static [&'static str] {
        match self {
            Arch::V6 => &["thumbv6m-none-eabi"],
            Arch::V7 => &["thumbv7m-none-eabi", "thumbv7em-none-eabi", "thumbv7em-none-eabihf"],
            Arch::A64 => &["aarch64-unknown-none", "aarch64-unknown-none-softfloat"],
            Arch::X64 => &["x86_64-unknown-linux-gnu"],
            Arch::V8 => &["thumbv8m.main-none-eabi", "thumbv8m.base-none-eabi", "thumbv8m.main-none-eabihf", "thumbv7a-none-eabi"],
            Arch::Rv => &["riscv32imac-unknown-none-elf", "riscv32i-unknown-none-elf", "riscv32imc-unknown-none-elf"],
        }
    }
    /// smallest function body
    pub fn ret(self) -> Vec<u8> {
        match self {
            Arch::V6 | Arch::V7 | Arch::V8 => vec![0x70, 0x47],
            Arch::Rv => vec![0x82, 0x80],
            Arch::A64 => vec![0xc0, 0x03, 0x5f, 0xd6],
            Arch::X64 => vec![0xc3, 0x90, 0x90, 0x90],
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Raw(Vec<u8>),
    /// `bl` to the start of function number n
    Bl(usize),
    /// `b.w` / `b` (tail call) to the start of function number n
    B(usize),
}

#[derive(Clone, Debug)]
pub struct Fun {
    /// symbols at the function's address in the executable: name and symbol type
    pub names: Vec<(String, u8)>,
    /// symbols of the function in the object file
    pub obj_names: Vec<String>,
    pub stack: Option<u64>,
    /// stack size record lives in an archive member instead of the application object
    pub in_rlib: bool,
    pub ops: Vec<Op>,
    pub size: Option<u64>,
    /// false: not in the executable (removed by the linker)
    pub live: bool,
    pub addr: u64,
}

impl Fun {
    pub fn new(arch: Arch, name: &str, stack: Option<u64>) -> Self {
        Fun {
            names: vec![(name.to_string(), elf::FUNC)],
            obj_names: vec![name.to_string()],
            stack,
            in_rlib: false,
            ops: body(arch, stack.unwrap_or(0), &[]),
            size: None,
            live: true,
            addr: 0,
        }
    }
    pub fn calls(mut self, arch: Arch, callees: &[usize]) -> Self {
        self.ops = body(arch, self.stack.unwrap_or(0), callees);
        self
    }
}

fn hw(x: u16) -> Op {
    Op::Raw(x.to_le_bytes().to_vec())
}

/// Straight-line Thumb code that uses exactly `stack` bytes (a multiple of 4) and calls `callees`.
pub fn body(arch: Arch, stack: u64, callees: &[usize]) -> Vec<Op> {
    if !arch.thumb() {
        return vec![Op::Raw(arch.ret())];
    }
    let mut v = vec![];
    let mut left = stack / 4;
    while left > 0 {
        let k = left.min(127) as u16;
        v.push(hw(0xb080 | k)); // sub sp, #4k
        left -= k as u64;
    }
    for &c in callees {
        v.push(Op::Bl(c));
    }
    let mut left = stack / 4;
    while left > 0 {
        let k = left.min(127) as u16;
        v.push(hw(0xb000 | k)); // add sp, #4k
        left -= k as u64;
    }
    v.push(hw(0x4770)); // bx lr
    v
}

/// T1 BL / T4 B.W encoding
pub fn enc_bl(off: i64, link: bool) -> Vec<u8> {
    let o = off as u32;
    let s = (o >> 24) & 1;
    let i1 = (o >> 23) & 1;
    let i2 = (o >> 22) & 1;
    let j1 = (i1 ^ 1) ^ s;
    let j2 = (i2 ^ 1) ^ s;
    let imm10 = (o >> 12) & 0x3ff;
    let imm11 = (o >> 1) & 0x7ff;
    let h1 = (0xf000 | (s << 10) | imm10) as u16;
    let h2 = ((if link { 0xd000 } else { 0x9000 }) | (j1 << 13) | (j2 << 11) | imm11) as u16;
    let mut v = h1.to_le_bytes().to_vec();
    v.extend(h2.to_le_bytes());
    v
}

#[derive(Clone, Debug)]
pub struct Prog {
    pub arch: Arch,
    pub target: Option<&'static str>,
    pub funs: Vec<Fun>,
    pub undef: Vec<String>,
    pub ll: String,
    pub cb_ll: String,
    /// mapping symbol at the start of every function
    pub tags: bool,
    /// further symbols of the executable: name, type, value, size
    pub extra: Vec<(String, u8, u64, u64)>,
    pub base: u64,
    /// order in which function symbols are written (default: as listed)
    pub sym_order: Option<Vec<usize>>,
    pub reverse_extra_first: bool,
    /// a record of the order of stack size entries in the object
    pub obj_order: Option<Vec<usize>>,
}

impl Prog {
    pub fn new(arch: Arch) -> Self {
        Prog {
            arch,
            target: None,
            funs: vec![],
            undef: vec![],
            ll: String::new(),
            cb_ll: String::new(),
            tags: true,
            extra: vec![],
            base: 0x8000,
            sym_order: None,
            reverse_extra_first: false,
            obj_order: None,
        }
    }

    pub fn layout(&mut self) {
        let mut a = self.base;
        for f in &mut self.funs {
            if !f.live {
                continue;
            }
            f.addr = a;
            let len: usize = f
                .ops
                .iter()
                .map(|o| match o {
                    Op::Raw(v) => v.len(),
                    _ => 4,
                })
                .sum();
            a += len as u64;
            let al = if !self.arch.is64() { 4 } else { 16 };
            a = (a + al - 1) / al * al;
        }
    }

    pub fn exe(&mut self) -> Vec<u8> {
        self.exe_elf().write()
    }

    pub fn exe_elf(&mut self) -> Elf {
        self.layout();
        let arch = self.arch;
        let mut text: Vec<u8> = vec![];
        let mut lens = vec![];
        for f in &self.funs {
            if !f.live {
                lens.push(0);
                continue;
            }
            text.resize((f.addr - self.base) as usize, 0);
            let st = text.len();
            for o in &f.ops {
                match o {
                    Op::Raw(v) => text.extend(v),
                    Op::Bl(t) | Op::B(t) => {
                        let pc = self.base + text.len() as u64 + 4;
                        let off = self.funs[*t].addr as i64 - pc as i64;
                        text.extend(enc_bl(off, matches!(o, Op::Bl(_))));
                    }
                }
            }
            lens.push(text.len() - st);
        }
        while text.len() % 4 != 0 {
            text.push(0);
        }
        if text.is_empty() {
            text = vec![0; 4];
        }
        let mut e = Elf::new(arch.is64(), arch.machine(), 2);
        let t = e.section(".text", elf::PROGBITS, 6, self.base, text);
        e.symbols.push(Symbol { name: b"app.c".to_vec(), value: 0, size: 0, ty: elf::FILE, bind: elf::LOCAL, shndx: 0xfff1 });
        let tag = arch.code_tag();
        if self.tags && arch != Arch::X64 {
            for (i, f) in self.funs.iter().enumerate() {
                if f.live {
                    e.symbols.push(Symbol {
                        name: format!("{}.{}", tag, i).into_bytes(),
                        value: f.addr,
                        size: 0,
                        ty: elf::NOTYPE,
                        bind: elf::LOCAL,
                        shndx: t,
                    });
                }
            }
        }
        let order: Vec<usize> = self.sym_order.clone().unwrap_or_else(|| (0..self.funs.len()).collect());
        let mut extra = vec![];
        for (n, ty, v, sz) in &self.extra {
            extra.push(Symbol { name: n.as_bytes().to_vec(), value: *v, size: *sz, ty: *ty, bind: elf::LOCAL, shndx: t });
        }
        if self.reverse_extra_first {
            e.symbols.append(&mut extra);
        }
        for &i in &order {
            let f = &self.funs[i];
            if !f.live {
                continue;
            }
            for (n, ty) in &f.names {
                let bit = arch.bit();
                e.symbols.push(Symbol::new(
                    n,
                    *ty,
                    f.addr | bit,
                    if *ty == elf::FUNC { f.size.unwrap_or(lens[i] as u64) } else { 0 },
                    t,
                ));
            }
        }
        e.symbols.append(&mut extra);
        for u in &self.undef {
            e.symbols.push(Symbol::new(u, elf::FUNC, 0, 0, 0));
        }
        e
    }

    pub fn obj(&self) -> Vec<u8> {
        self.obj_elf().write()
    }

    pub fn obj_elf(&self) -> Elf {
        let order: Vec<usize> = self.obj_order.clone().unwrap_or_else(|| (0..self.funs.len()).collect());
        object_elf(
            self.arch,
            &order
                .iter()
                .map(|&i| &self.funs[i])
                .filter(|f| !f.in_rlib)
                .map(|f| (f.obj_names.clone(), f.stack))
                .collect::<Vec<_>>(),
        )
    }

    pub fn rlib(&self) -> Vec<u8> {
        let fs: Vec<_> = self.funs.iter().filter(|f| f.in_rlib).map(|f| (f.obj_names.clone(), f.stack)).collect();
        elf::ar(&[
            ("lib.rmeta", b"meta".to_vec()),
            ("compiler_builtins-0123456789abcdef.compiler_builtins.0-cgu.0.rcgu.o", object(self.arch, &fs)),
        ])
    }

    /// Writes the artifacts of an example build named `app`, runs the tool on it.
    pub fn install(&mut self, w: &mut Worker) {
        let exe = self.exe();
        let obj = self.obj();
        self.install_as(w, &exe, &obj)
    }

    /// the same with given executable and object file
    pub fn install_as(&mut self, w: &mut Worker, exe: &[u8], obj: &[u8]) {
        let t = self.target.unwrap_or(self.arch.target());
        let dir = format!("proj/target/{}/release/examples", t);
        w.put(&format!("{}/app", dir), exe);
        w.put(&format!("{}/app-0123456789abcdef.o", dir), obj);
        let ll = ir_file(&self.ll);
        w.put(&format!("{}/app-0123456789abcdef.ll", dir), ll.as_bytes());
        w.put("cb/cb.ll", ir_file(&self.cb_ll).as_bytes());
        let rlib = self.rlib();
        w.put("cb/libcompiler_builtins.rlib", &rlib);
    }

    pub fn run(&mut self, w: &mut Worker, extra: &[&str]) -> Run {
        if self.target.is_none() {
            // targets of one kind take turns
            let t = self.arch.targets();
            let sum = self.ll.bytes().chain(self.cb_ll.bytes()).fold(self.funs.len() as u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3));
            let sum = self.funs.iter().fold(sum, |h, f| h.wrapping_mul(31).wrapping_add(f.stack.unwrap_or(1)).wrapping_mul(31).wrapping_add(f.ops.len() as u64));
            self.target = Some(t[(sum >> 7) as usize % t.len()]);
        }
        self.install(w);
        let t = self.target.unwrap_or(self.arch.target());
        let mut a = vec!["--example", "app", "--target", t];
        a.extend(extra);
        w.run(&a)
    }
}

/// Wraps IR text into a plausible module (never empty).
pub fn ir_file(body: &str) -> String {
    format!("; ModuleID = 'app.0'\nsource_filename = \"app.0\"\ntarget triple = \"t\"\n\n{}\nattributes #0 = {{ nounwind }}\n\n!0 = !{{i32 7}}\n", body)
}

/// A relocatable object with one section and one `.stack_sizes` record per function, the way LLVM
/// lays it out with function sections.
pub fn object(arch: Arch, funs: &[(Vec<String>, Option<u64>)]) -> Vec<u8> {
    object_elf(arch, funs).write()
}

pub fn object_elf(arch: Arch, funs: &[(Vec<String>, Option<u64>)]) -> Elf {
    let is64 = arch.is64();
    let mut e = Elf::new(is64, arch.machine(), 1);
    // section indices are known in advance: per function .text.X [.stack_sizes .rel]
    let mut text_idx = vec![];
    let mut pending = vec![]; // (section number of reloc section)
    for (names, stack) in funs {
        let t = e.section(&format!(".text.{}", names.first().map(|s| s.trim_start_matches('\0')).unwrap_or("x")), elf::PROGBITS, 6, 0, arch.ret());
        text_idx.push(t);
        if let Some(s) = stack {
            let mut d = if is64 { vec![0; 8] } else { vec![0; 4] };
            d.extend(elf::uleb(*s));
            let ss = e.section(".stack_sizes", elf::PROGBITS, 0x80, 0, d);
            let r = e.section(if arch.rela() { ".rela.stack_sizes" } else { ".rel.stack_sizes" }, if arch.rela() { elf::RELA } else { elf::REL }, 0x40, 0, vec![]);
            pending.push((r, ss, t));
        }
    }
    // symbols: section symbols first, then mapping symbols, then functions
    let bit = arch.bit();
    let mut secsym = std::collections::HashMap::new();
    for t in &text_idx {
        e.symbols.push(Symbol { name: vec![], value: 0, size: 0, ty: elf::SECTION, bind: elf::LOCAL, shndx: *t });
        secsym.insert(*t, e.symbols.len() as u64); // +1 for the null symbol, -1 for len
    }
    for (i, t) in text_idx.iter().enumerate() {
        if arch == Arch::X64 {
            continue;
        }
        let tag = format!("{}.{}", arch.code_tag(), i);
        e.symbols.push(Symbol { name: tag.into_bytes(), value: 0, size: 0, ty: elf::NOTYPE, bind: elf::LOCAL, shndx: *t });
    }
    for ((names, _), t) in funs.iter().zip(&text_idx) {
        for n in names {
            // a leading NUL asks for a symbol without type (and thus without thumb bit)
            match n.strip_prefix('\0') {
                Some(n) => e.symbols.push(Symbol::new(n, elf::NOTYPE, 0, 0, *t)),
                None => e.symbols.push(Symbol::new(n, elf::FUNC, bit, arch.ret().len() as u64, *t)),
            }
        }
    }
    let symtab = e.symtab_index();
    for (r, ss, t) in pending {
        let sym = secsym[&t];
        let d = if is64 {
            let mut v = 0u64.to_le_bytes().to_vec();
            v.extend(((sym << 32) | 257).to_le_bytes());
            v.extend(0u64.to_le_bytes());
            v
        } else {
            let mut v = 0u32.to_le_bytes().to_vec();
            v.extend((((sym as u32) << 8) | 2).to_le_bytes());
            if arch.rela() {
                v.extend(0u32.to_le_bytes());
            }
            v
        };
        let s = &mut e.sections[r as usize - 1];
        s.data = d;
        s.link = symtab;
        s.info = ss as u32;
        s.entsize = if is64 { 24 } else if arch.rela() { 12 } else { 8 };
    }
    e
}

// ---- IR helpers

/// `define RET @NAME(PARAMS)` with the given statements
pub fn define(ret: &str, name: &str, params: &str, stmts: &[String]) -> String {
    let mut s = format!("; Function Attrs: nounwind\ndefine {} @{}({}) unnamed_addr #0 {{\nstart:\n", ret, name, params);
    for t in stmts {
        s.push_str("  ");
        s.push_str(t);
        s.push('\n');
    }
    s.push_str(if ret == "void" { "  ret void\n" } else { "  unreachable\n" });
    s.push_str("}\n\n");
    s
}

pub fn declare(ret: &str, name: &str, params: &str) -> String {
    format!("declare {} @{}({}) unnamed_addr #0\n\n", ret, name, params)
}

pub fn void_fn(name: &str, callees: &[&str]) -> String {
    let st: Vec<String> = callees.iter().map(|c| format!("call void @{}() #0", c)).collect();
    define("void", name, "", &st)
}

/// a global name as LLVM prints it (without the `@`)
pub fn ir_name(n: &str) -> String {
    let plain = n.bytes().all(|c| c.is_ascii_alphanumeric() || b"_.$-".contains(&c)) && !n.is_empty() && !n.as_bytes()[0].is_ascii_digit();
    if plain {
        return n.to_string();
    }
    let mut o = String::from("\"");
    if n.starts_with('\u{1}') {
        // LLVM drops one leading \01 ("do not mangle")
        o.push_str("\\01");
    }
    for b in n.bytes() {
        if (0x20..0x7f).contains(&b) && b != b'"' && b != b'\\' {
            o.push(b as char)
        } else {
            o.push_str(&format!("\\{:02X}", b))
        }
    }
    o.push('"');
    o
}
