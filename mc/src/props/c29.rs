//! C29: what else executables and object files contain. All sets of up to so many of the sections,
//! symbols and records that real linkers and compilers write beside functions, added to the files of
//! a program: none of them is a function, changes the graph or makes the analysis fail.
use super::expect::Want;
use crate::ctx::Ctx;
use crate::elf::{self, Elf, Symbol};
use crate::explore::Chooser;
use crate::world::*;

const DYNSYM: u32 = 11;
const GROUP: u32 = 17;
const NOTE: u32 = 7;
const INIT_ARRAY: u32 = 14;
const WEAK: u8 = 2;
const UNIQUE: u8 = 10;
const TLS: u8 = 6;
const COMMON: u8 = 5;
const IFUNC: u8 = 10;
const ABS: u16 = 0xfff1;

/// items of the executable
const EXE: &[&str] = &[
    "data symbols",
    "data symbols named like functions",
    "data symbols at the addresses of functions",
    "data symbols inside of functions",
    "section symbols",
    "file symbols named like functions",
    "thread-local symbols",
    "undefined weak symbols",
    "undefined objects",
    "absolute symbols",
    "absolute symbols with the addresses of functions",
    "labels at both ends of the code",
    "labels inside of functions",
    "stack sizes kept",
    "stack sizes kept, other order",
    "debug sections",
    "notes and attributes in front",
    "bss",
    "read-only data in front",
    "dynamic symbols",
    "indirect functions and others",
    "weak functions",
    "local functions",
    "empty sections",
    "sections named like .text",
    "init and fini",
    "symbols without names",
    "relocations kept",
    "vectors",
    "two symbol entries",
    "mapping symbols of debug sections",
    "labels that look like mapping symbols",
];

/// items of the object file
const OBJ: &[&str] = &[
    "undefined symbols",
    "data symbols",
    "debug sections",
    "groups",
    "file symbols named like functions",
    "relocations of code",
    "removed functions",
    "records by function symbol",
    "local functions",
    "weak functions",
    "empty .text",
    "records at the end",
    "thread-local and common symbols",
    "labels inside of functions",
    "mapping symbols of data",
    "init array",
    "data symbols named like functions",
    "absolute symbols",
    "names of other records",
];

#[derive(Clone, Debug)]
struct Case {
    arch: Arch,
    cyclic: bool,
    items: Vec<(bool, &'static str)>,
}

fn gen(c: &mut Chooser, arch: Arch, most: usize, one: bool) -> Option<Case> {
    let cyclic = !one && c.flag();
    let n = EXE.len() + OBJ.len();
    let mut items = vec![];
    let mut from = 0;
    for _ in 0..most {
        // sets, not sequences
        let k = c.pick(n - from + 1);
        if k == 0 {
            break;
        }
        let i = from + k - 1;
        items.push(if i < EXE.len() { (true, EXE[i]) } else { (false, OBJ[i - EXE.len()]) });
        from = i + 1;
        if from == n {
            break;
        }
    }
    Some(Case { arch, cyclic, items })
}

fn in_front(e: &mut Elf, name: &str, ty: u32, flags: u64, addr: u64, data: Vec<u8>) {
    e.section(name, ty, flags, addr, data);
    let s = e.sections.pop().unwrap();
    e.sections.insert(0, s);
    for y in &mut e.symbols {
        if y.shndx > 0 && y.shndx < 0xff00 {
            y.shndx += 1;
        }
    }
    for s in &mut e.sections[1..] {
        if s.link > 0 {
            s.link += 1;
        }
        if s.info > 0 && (s.ty == elf::REL || s.ty == elf::RELA) {
            s.info += 1;
        }
    }
}

/// type and size of a relocation
fn relocations(arch: Arch) -> (u32, usize) {
    match (arch.rela(), arch.is64()) {
        (true, true) => (elf::RELA, 24),
        (true, false) => (elf::RELA, 12),
        _ => (elf::REL, 8),
    }
}

fn sym(name: &str, ty: u8, value: u64, size: u64, shndx: u16, bind: u8) -> Symbol {
    Symbol { bind, ..Symbol::new(name, ty, value, size, shndx) }
}

/// index of the section of the code
fn text(e: &Elf) -> u16 {
    e.sections.iter().position(|s| s.name == ".text").unwrap() as u16 + 1
}

fn to_exe(e: &mut Elf, p: &Prog, item: &str, w: &mut Want) {
    let arch = p.arch;
    let bit = arch.bit();
    let at: Vec<u64> = p.funs.iter().map(|f| f.addr).collect();
    let len = |i: usize| p.funs[i + 1].addr - p.funs[i].addr;
    let end = p.base + e.sections[text(e) as usize - 1].data.len() as u64;
    let t = text(e);
    let words = |n: usize| vec![0x11; n];
    match item {
        "data symbols" => {
            let d = e.section(".data", elf::PROGBITS, 3, 0x2000_0000, words(64));
            e.symbols.insert(0, sym("COUNTER", elf::OBJECT, 0x2000_0000, 4, d, elf::GLOBAL));
            e.symbols.push(sym("_ZN3app5TABLE17h0123456789abcdefE", elf::OBJECT, 0x2000_0010, 48, d, elf::LOCAL));
        }
        "data symbols named like functions" => {
            let d = e.section(".data", elf::PROGBITS, 3, 0x2000_0000, words(64));
            e.symbols.insert(0, sym("b", elf::OBJECT, 0x2000_0000, 4, d, elf::LOCAL));
            e.symbols.push(sym("ext", elf::OBJECT, 0x2000_0004, 4, d, elf::LOCAL));
            e.symbols.push(sym("gone", elf::OBJECT, 0x2000_0008, 4, d, elf::LOCAL));
        }
        "data symbols at the addresses of functions" => {
            e.symbols.insert(0, sym("code_start", elf::OBJECT, at[0], 4, t, elf::GLOBAL));
            e.symbols.push(sym("table_b", elf::OBJECT, at[2], len(2), t, elf::LOCAL));
            e.symbols.push(sym("table_c", elf::OBJECT, at[3] | 1, 0, t, elf::LOCAL));
        }
        "data symbols inside of functions" => {
            e.symbols.insert(0, sym("const_a", elf::OBJECT, at[1] + 2, 2, t, elf::LOCAL));
            e.symbols.push(sym("const_b", elf::OBJECT, at[2] + 1, 1, t, elf::LOCAL));
        }
        "section symbols" => {
            let n = e.sections.len() as u16;
            for i in 1..=n {
                let addr = e.sections[i as usize - 1].addr;
                e.symbols.insert(0, sym("", elf::SECTION, addr, 0, i, elf::LOCAL));
            }
        }
        "file symbols named like functions" => {
            e.symbols.insert(0, sym("main", elf::FILE, 0, 0, ABS, elf::LOCAL));
            e.symbols.push(sym("b", elf::FILE, 0, 0, ABS, elf::LOCAL));
            e.symbols.push(sym("", elf::FILE, 0, 0, ABS, elf::LOCAL));
        }
        "thread-local symbols" => {
            let d = e.section(".tdata", elf::PROGBITS, 0x403, 0x2100_0000, words(16));
            e.symbols.insert(0, sym("KEY", TLS, 0, 8, d, elf::LOCAL));
            e.symbols.push(sym("OTHER_KEY", TLS, 8, 8, d, elf::LOCAL));
            e.symbols.push(sym("b", TLS, at[2], 8, d, elf::LOCAL));
        }
        "undefined weak symbols" => {
            e.symbols.insert(0, sym("__gmon_start__", elf::NOTYPE, 0, 0, 0, WEAK));
            e.symbols.push(sym("_ITM_deregisterTMCloneTable", elf::NOTYPE, 0, 0, 0, WEAK));
        }
        "undefined objects" => {
            e.symbols.push(sym("stdout@GLIBC_2.2.5", elf::OBJECT, 0, 8, 0, elf::GLOBAL));
            e.symbols.push(sym("errno@@GLIBC_PRIVATE", TLS, 0, 0, 0, elf::GLOBAL));
        }
        "absolute symbols" => {
            e.symbols.insert(0, sym("_stack_size", elf::NOTYPE, 0x400, 0, ABS, elf::GLOBAL));
            e.symbols.push(sym("_stack_start", elf::NOTYPE, 0x2000_8000, 0, ABS, elf::GLOBAL));
            e.symbols.push(sym("_heap_size", elf::NOTYPE, 0, 0, ABS, elf::GLOBAL));
        }
        "absolute symbols with the addresses of functions" => {
            e.symbols.insert(0, sym("_flash_used", elf::NOTYPE, at[1], 0, ABS, elf::GLOBAL));
            e.symbols.push(sym("_ram_used", elf::NOTYPE, at[3], 0, ABS, elf::GLOBAL));
            e.symbols.push(sym("_size", elf::OBJECT, at[2], 0, ABS, elf::GLOBAL));
        }
        "labels at both ends of the code" => {
            e.symbols.insert(0, sym("_stext", elf::NOTYPE, at[0], 0, t, elf::GLOBAL));
            e.symbols.push(sym("_etext", elf::NOTYPE, end, 0, t, elf::GLOBAL));
            e.symbols.push(sym("__etext", elf::NOTYPE, end + 4, 0, ABS, elf::GLOBAL));
        }
        "labels inside of functions" => {
            e.symbols.insert(0, sym("loop_a", elf::NOTYPE, at[1] + 2, 0, t, elf::LOCAL));
            e.symbols.push(sym(".Lend_b", elf::NOTYPE, at[2] + 2, 0, t, elf::LOCAL));
        }
        "stack sizes kept" | "stack sizes kept, other order" => {
            let mut v = vec![];
            let mut order: Vec<usize> = (0..p.funs.len()).filter(|&i| p.funs[i].live && p.funs[i].stack.is_some()).collect();
            if item.ends_with("order") {
                order.reverse();
            }
            for i in order {
                let a = at[i] | bit;
                if arch.is64() {
                    v.extend(a.to_le_bytes())
                } else {
                    v.extend((a as u32).to_le_bytes())
                }
                v.extend(elf::uleb(p.funs[i].stack.unwrap()));
            }
            e.section(".stack_sizes", elf::PROGBITS, 0x80, 0, v);
        }
        "debug sections" => {
            e.section(".debug_info", elf::PROGBITS, 0, 0, words(99));
            e.section(".debug_str", elf::PROGBITS, 0x30, 0, b"main\0a\0b\0_ZN1x1yE\0".to_vec());
            e.section(".debug_line", elf::PROGBITS, 0, 0, vec![]);
        }
        "notes and attributes in front" => {
            in_front(e, ".ARM.attributes", 0x7000_0003, 0, 0, b"A\x11\0\0\0aeabi\0\x01\x07\0\0\0\x06\x04".to_vec());
            in_front(e, ".note.gnu.build-id", NOTE, 2, 0x100, vec![4, 0, 0, 0, 4, 0, 0, 0, 3, 0, 0, 0, b'G', b'N', b'U', 0, 1, 2, 3, 4]);
            in_front(e, ".interp", elf::PROGBITS, 2, 0x140, b"/lib/ld.so\0".to_vec());
        }
        "bss" => {
            let d = e.section(".bss", elf::NOBITS, 3, 0x2000_1000, words(4096));
            e.symbols.push(sym("__bss_start", elf::NOTYPE, 0x2000_1000, 0, d, elf::GLOBAL));
            e.symbols.push(sym("HEAP", elf::OBJECT, 0x2000_1000, 4096, d, elf::LOCAL));
        }
        "read-only data in front" => {
            in_front(e, ".rodata", elf::PROGBITS, 0x32, 0x4000, words(33));
            in_front(e, ".eh_frame", elf::PROGBITS, 2, 0x5000, vec![0x14, 0, 0, 0, 0, 0, 0, 0]);
        }
        "dynamic symbols" => {
            let esz = if arch.is64() { 24 } else { 16 };
            let mut v = vec![0; esz];
            // `late`, undefined, a function, and `main`
            for (name, shndx, value) in [(1u32, 0u16, 0u64), (6, t, at[0] | bit)] {
                if arch.is64() {
                    v.extend(name.to_le_bytes());
                    v.extend([0x12, 0]);
                    v.extend(shndx.to_le_bytes());
                    v.extend(value.to_le_bytes());
                    v.extend(0u64.to_le_bytes());
                } else {
                    v.extend(name.to_le_bytes());
                    v.extend((value as u32).to_le_bytes());
                    v.extend(0u32.to_le_bytes());
                    v.extend([0x12, 0]);
                    v.extend(shndx.to_le_bytes());
                }
            }
            let d = e.section(".dynsym", DYNSYM, 2, 0x6000, v);
            let s = e.section(".dynstr", elf::STRTAB, 2, 0x6100, b"\0late\0main\0".to_vec());
            e.sections[d as usize - 1].link = s as u32;
            e.sections[d as usize - 1].info = 1;
            e.sections[d as usize - 1].entsize = esz as u64;
        }
        "indirect functions and others" => {
            e.symbols.insert(0, sym("resolver", IFUNC, end + 16, 4, t, elf::GLOBAL));
            e.symbols.push(sym("arm_code", 13, end + 32, 4, t, elf::LOCAL));
            e.symbols.push(sym("blank", COMMON, 4, 4, 0xfff2, elf::GLOBAL));
        }
        "weak functions" | "local functions" | "two symbol entries" => {
            let mut again = vec![];
            for (i, y) in e.symbols.iter_mut().filter(|y| y.ty == elf::FUNC).enumerate() {
                match item {
                    "weak functions" => y.bind = if i % 2 == 0 { WEAK } else { UNIQUE },
                    "local functions" => y.bind = elf::LOCAL,
                    _ if y.shndx != 0 && i % 2 == 0 => again.push(y.clone()),
                    _ => {}
                }
            }
            e.symbols.extend(again);
        }
        "empty sections" => {
            in_front(e, ".empty", elf::PROGBITS, 6, p.base, vec![]);
            e.section(".empty", elf::PROGBITS, 6, p.base, vec![]);
            e.section("", elf::PROGBITS, 0, 0, vec![]);
        }
        "sections named like .text" => {
            e.section(".text.unlikely", elf::PROGBITS, 6, end + 0x1000, words(8));
            e.section(".text1", elf::PROGBITS, 6, end + 0x2000, words(8));
            in_front(e, ".textual", elf::PROGBITS, 2, 0x7000, words(8));
            in_front(e, ".tex", elf::PROGBITS, 6, 0x7100, words(8));
        }
        "init and fini" if !arch.thumb() => {
            for (name, s, a) in [("_init", ".init", 0x3000u64), ("_fini", ".fini", 0x3800)] {
                in_front(e, s, elf::PROGBITS, 6, a, arch.ret());
                let y = sym(name, elf::FUNC, a, arch.ret().len() as u64, 1, elf::GLOBAL);
                e.symbols.push(y);
                w.node(name, None);
            }
            w.edge("void(i32)*", "?");
        }
        "symbols without names" => {
            e.symbols.insert(0, sym("", elf::NOTYPE, at[1], 0, t, elf::LOCAL));
            e.symbols.push(sym("", elf::NOTYPE, 0, 0, 0, elf::LOCAL));
            e.symbols.push(sym("", elf::OBJECT, at[2], 0, t, elf::LOCAL));
        }
        "relocations kept" => {
            let (ty, sz) = relocations(arch);
            let mut v = vec![0; sz];
            v[0] = at[1] as u8;
            let r = e.section(if arch.rela() { ".rela.text" } else { ".rel.text" }, ty, 0x40, 0, v);
            e.sections[r as usize - 1].info = t as u32;
            e.sections[r as usize - 1].entsize = sz as u64;
        }
        "mapping symbols of debug sections" => {
            // what assemblers put into `.debug_frame`; the values are offsets
            let d = e.section(".debug_frame", elf::PROGBITS, 0, 0, words(16));
            let (data, code) = if arch.bit() == 1 { ("$d", "$t.9") } else { ("$d.8", "$x.9") };
            e.symbols.insert(0, sym(data, elf::NOTYPE, at[1], 0, d, elf::LOCAL));
            e.symbols.push(sym(data, elf::NOTYPE, at[2] + 2, 0, d, elf::LOCAL));
            e.symbols.push(sym(code, elf::NOTYPE, at[3] + 2, 0, d, elf::LOCAL));
        }
        "labels that look like mapping symbols" => {
            e.symbols.insert(0, sym("$done", elf::NOTYPE, at[1] + 2, 0, t, elf::LOCAL));
            e.symbols.push(sym("$tmp", elf::NOTYPE, at[2] + 2, 0, t, elf::LOCAL));
            e.symbols.push(sym("$data", elf::OBJECT, at[2], 0, t, elf::LOCAL));
        }
        "vectors" => {
            let mut v = vec![];
            for a in &at {
                v.extend(((a | bit) as u32).to_le_bytes());
            }
            in_front(e, ".vector_table", elf::PROGBITS, 2, 0x400, v);
            e.symbols.push(sym("__RESET_VECTOR", elf::OBJECT, 0x404, 4, 1, elf::GLOBAL));
            e.symbols.push(sym("__vector_table", elf::NOTYPE, 0x400, 0, 1, elf::GLOBAL));
        }
        _ => {}
    }
}

fn to_obj(e: &mut Elf, p: &Prog, item: &str) {
    let arch = p.arch;
    let bit = arch.bit();
    let words = |n: usize| vec![0x11; n];
    // sections of code, by name
    let code = |e: &Elf, n: &str| e.sections.iter().position(|s| s.name == format!(".text.{}", n)).map(|i| i as u16 + 1);
    // where symbols are added the indices in relocations must stay valid: at the end only
    match item {
        "undefined symbols" => {
            for n in ["ext", "memcpy", "__aeabi_idiv", "nothing"] {
                e.symbols.push(sym(n, elf::NOTYPE, 0, 0, 0, elf::GLOBAL));
            }
            e.symbols.push(sym("KEY", TLS, 0, 0, 0, elf::GLOBAL));
        }
        "data symbols" => {
            let d = e.section(".rodata.TABLE", elf::PROGBITS, 2, 0, words(16));
            e.symbols.push(sym("TABLE", elf::OBJECT, 0, 16, d, elf::LOCAL));
            let d = e.section(".bss.COUNTER", elf::NOBITS, 3, 0, words(4));
            e.symbols.push(sym("COUNTER", elf::OBJECT, 0, 4, d, elf::GLOBAL));
        }
        "debug sections" => {
            e.section(".debug_info", elf::PROGBITS, 0, 0, words(77));
            let (ty, n) = if arch.rela() { (elf::RELA, ".rela.debug_info") } else { (elf::REL, ".rel.debug_info") };
            let r = e.section(n, ty, 0x40, 0, vec![0; relocations(arch).1]);
            e.sections[r as usize - 1].entsize = relocations(arch).1 as u64;
            e.section(".comment", elf::PROGBITS, 0x30, 0, b"\0rustc\0".to_vec());
            e.section(".note.GNU-stack", elf::PROGBITS, 0, 0, vec![]);
        }
        "groups" => in_front(e, ".group", GROUP, 0, 0, vec![1, 0, 0, 0, 2, 0, 0, 0]),
        "file symbols named like functions" => {
            e.symbols.push(sym("b", elf::FILE, 0, 0, ABS, elf::LOCAL));
            e.symbols.push(sym("d", elf::FILE, 0, 0, ABS, elf::LOCAL));
        }
        "relocations of code" => {
            for n in ["main", "a"] {
                if let Some(t) = code(e, n) {
                    let (ty, f) = if arch.rela() { (elf::RELA, ".rela.text.") } else { (elf::REL, ".rel.text.") };
                    let r = e.section(&format!("{}{}", f, n), ty, 0x40, 0, vec![0; relocations(arch).1]);
                    e.sections[r as usize - 1].info = t as u32;
                    e.sections[r as usize - 1].entsize = relocations(arch).1 as u64;
                }
            }
        }
        "records by function symbol" => {
            let syms: Vec<(u16, usize)> = e.symbols.iter().enumerate().filter(|(_, y)| y.ty == elf::FUNC).map(|(i, y)| (y.shndx, i + 1)).collect();
            let old: Vec<u16> = e.symbols.iter().map(|y| y.shndx).collect();
            for s in &mut e.sections {
                if s.name.ends_with(".stack_sizes") && s.ty == elf::RELA && arch.is64() {
                    let k = u32::from_le_bytes(s.data[12..16].try_into().unwrap()) as usize;
                    if let Some((_, i)) = syms.iter().find(|x| x.0 == old[k - 1]) {
                        s.data[12..16].copy_from_slice(&(*i as u32).to_le_bytes());
                    }
                } else if s.name.ends_with(".stack_sizes") && (s.ty == elf::REL || s.ty == elf::RELA) {
                    let k = (u32::from_le_bytes(s.data[4..8].try_into().unwrap()) >> 8) as usize;
                    if let Some((_, i)) = syms.iter().find(|x| x.0 == old[k - 1]) {
                        s.data[4..8].copy_from_slice(&(((*i as u32) << 8) | 2).to_le_bytes());
                    }
                }
            }
        }
        "local functions" | "weak functions" => {
            for y in e.symbols.iter_mut().filter(|y| y.ty == elf::FUNC) {
                y.bind = if item.starts_with("local") { elf::LOCAL } else { WEAK };
            }
        }
        "empty .text" => in_front(e, ".text", elf::PROGBITS, 6, 0, vec![]),
        "thread-local and common symbols" => {
            let d = e.section(".tbss", elf::NOBITS, 0x403, 0, words(8));
            e.symbols.push(sym("KEY", TLS, 0, 8, d, elf::LOCAL));
            e.symbols.push(sym("blank", COMMON, 4, 4, 0xfff2, elf::GLOBAL));
        }
        "labels inside of functions" => {
            if let Some(t) = code(e, "a") {
                e.symbols.push(sym(".Ltmp0", elf::NOTYPE, 2, 0, t, elf::LOCAL));
                e.symbols.push(sym("inside_a", elf::NOTYPE, 4, 0, t, elf::LOCAL));
            }
        }
        "mapping symbols of data" => {
            let d = e.section(".rodata.cst", elf::PROGBITS, 0x12, 0, words(16));
            e.symbols.push(sym("$d.90", elf::NOTYPE, 0, 0, d, elf::LOCAL));
            if let Some(t) = code(e, "b") {
                e.symbols.push(sym("$d.91", elf::NOTYPE, 2, 0, t, elf::LOCAL));
            }
        }
        "init array" => {
            e.section(".init_array", INIT_ARRAY, 3, 0, words(8));
        }
        "data symbols named like functions" => {
            let d = e.section(".data.b", elf::PROGBITS, 3, 0, words(16));
            e.symbols.push(sym("d", elf::OBJECT, 0, 4, d, elf::LOCAL));
            e.symbols.push(sym("b", elf::OBJECT, 4, 4, d, elf::LOCAL));
        }
        "absolute symbols" => {
            e.symbols.push(sym("_size", elf::NOTYPE, 0, 0, ABS, elf::GLOBAL));
            e.symbols.push(sym("_other", elf::NOTYPE, 1, 0, ABS, elf::GLOBAL));
            e.symbols.push(sym("@feat.00", elf::NOTYPE, bit, 0, ABS, elf::LOCAL));
        }
        _ => {}
    }
}

fn program(k: &Case) -> (Prog, Want) {
    let arch = k.arch;
    let mut p = Prog::new(arch);
    // main, a, b, c, d and, only in the object file, gone
    let sizes = [Some(8), Some(if k.cyclic { 0 } else { 16 }), Some(if k.cyclic { 0 } else { 24 }), Some(32), None];
    let calls: [Vec<usize>; 5] = [vec![1], vec![2, 4], if k.cyclic { vec![1] } else { vec![] }, vec![], vec![]];
    let names = ["main", "a", "b", "c", "d"];
    let mut w = Want::new();
    w.exactness = true;
    for i in 0..5 {
        let mut f = Fun::new(arch, names[i], sizes[i]);
        if arch.thumb() {
            f.ops = body(arch, sizes[i].unwrap_or(4), &calls[i]);
        }
        if k.cyclic && i == 2 {
            f.in_rlib = true;
        }
        p.funs.push(f);
        let local = if i == 4 && arch.thumb() { Some(4) } else { sizes[i] };
        w.node(names[i], local);
    }
    w.node("ext", None).dashed("void(i32)*");
    let has = |s: &str| k.items.contains(&(false, s));
    if has("removed functions") {
        for n in ["gone", "gone_too"] {
            let mut f = Fun::new(arch, n, Some(512));
            f.live = false;
            p.funs.push(f);
        }
        p.ll.push_str(&void_fn("gone", &["main", "gone_too"]));
    }
    if has("names of other records") {
        // a record for another `d`, of a function that is not part of the program
        let mut f = Fun::new(arch, "d_", Some(640));
        f.obj_names = vec!["d_".into(), "dd".into()];
        f.live = false;
        p.funs.push(f);
    }
    for (i, n) in names.iter().enumerate() {
        let mut st: Vec<String> = calls[i].iter().map(|&j| format!("call void @{}()", names[j])).collect();
        for &j in &calls[i] {
            w.edge(n, names[j]);
        }
        if i == 0 {
            st.push("call void %p(i32 1)".into());
            w.edge(n, "void(i32)*");
        }
        if i == 1 {
            st.push("call void @ext()".into());
            w.edge(n, "ext");
        }
        let d = define("void", n, if i == 3 { "i32 %x" } else { "" }, &st);
        if k.cyclic && i == 2 {
            p.cb_ll.push_str(&d);
        } else {
            p.ll.push_str(&d);
        }
    }
    w.edge("void(i32)*", "c");
    p.undef.push("ext".into());
    p.ll.push_str(&declare("void", "ext", ""));
    if k.cyclic {
        p.obj_order = Some((0..p.funs.len()).rev().collect());
    }
    (p, w)
}

/// Moves the sections of records (with their relocations) behind all others.
fn records_last(e: &mut Elf) {
    let is_record = |s: &elf::Section| s.name.ends_with(".stack_sizes");
    let n = e.sections.len();
    let order: Vec<usize> = (0..n).filter(|&i| !is_record(&e.sections[i])).chain((0..n).filter(|&i| is_record(&e.sections[i]))).collect();
    let mut new = vec![0u16; n + 1];
    for (k, &i) in order.iter().enumerate() {
        new[i + 1] = k as u16 + 1;
    }
    let old = std::mem::take(&mut e.sections);
    e.sections = order.iter().map(|&i| old[i].clone()).collect();
    for y in &mut e.symbols {
        if y.shndx > 0 && y.shndx < 0xff00 {
            y.shndx = new[y.shndx as usize];
        }
    }
    for s in &mut e.sections {
        if s.info > 0 && (s.ty == elf::REL || s.ty == elf::RELA) {
            s.info = new[s.info as usize] as u32;
        }
    }
}

fn space(ctx: &Ctx, arch: Arch, most: usize, one: bool) {
    ctx.explore(
        &format!("sets-{}-{:?}", most, arch),
        0,
        |c| gen(c, arch, most, one),
        |wk, k| {
            let (mut p, mut w) = program(k);
            let mut exe = p.exe_elf();
            let mut obj = p.obj_elf();
            for &(in_exe, item) in &k.items {
                if in_exe {
                    to_exe(&mut exe, &p, item, &mut w);
                } else {
                    to_obj(&mut obj, &p, item);
                }
            }
            if k.items.contains(&(false, "records at the end")) {
                records_last(&mut obj);
            }
            // the symbol table is written behind all other sections
            let t = obj.symtab_index();
            for s in obj.sections.iter_mut().filter(|s| s.ty == elf::REL || s.ty == elf::RELA || s.ty == GROUP) {
                s.link = t;
            }
            let t = exe.symtab_index();
            for s in exe.sections.iter_mut().filter(|s| s.ty == elf::REL || s.ty == elf::RELA) {
                s.link = t;
            }
            p.install_as(wk, &exe.write(), &obj.write());
            let r = wk.run(&["--example", "app", "--target", p.target.unwrap_or(arch.target())]);
            w.judge(&r).map_err(|mut f| {
                f.msg = format!("{}; {:?}", f.msg, k);
                f
            })?;
            Ok(r.brief())
        },
    );
}

pub fn check(ctx: &Ctx) {
    for arch in [Arch::V7, Arch::A64, Arch::X64, Arch::V6, Arch::V8, Arch::Rv] {
        space(ctx, arch, 2, false);
    }
    // three items at once
    space(ctx, Arch::V7, 3, !ctx.thorough);
    if ctx.thorough {
        for arch in [Arch::A64, Arch::X64, Arch::V6, Arch::V8, Arch::Rv] {
            space(ctx, arch, 3, false);
        }
        space(ctx, Arch::V7, 4, true);
    }
    ctx.assume("mapping symbols and labels are local; undefined symbols other than functions have size 0 or are objects; a kept `.stack_sizes` section has records of live functions only");
}
