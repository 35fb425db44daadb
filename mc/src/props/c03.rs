//! C03: adjacency x liveness x syntactic and structural deviations, on the real tool.
use super::expect::Want;
use crate::ctx::Ctx;
use crate::elf;
use crate::explore::Chooser;
use crate::world::*;

#[derive(Clone, Debug)]
struct Case {
    arch: Arch,
    n: usize,
    m: u32,
    live: u32,
    /// per edge: text form of the call(s)
    form: Vec<usize>,
    /// per edge on Thumb: 0 both, 1 only machine code, 2 only IR
    mach: Vec<usize>,
    /// per function
    place: Vec<usize>,
    quoted: Vec<usize>,
    typed: Vec<usize>,
    ext: Vec<usize>,
    version: usize,
    unused_undef: bool,
    /// other names for f0, f1 and the undefined function
    special: usize,
    /// per function: a second name that its callers use (1 first, 2 at every other call, 3 only)
    second: Vec<usize>,
}

/// names that could be mistaken for something else
const SPECIAL: &[[&str; 3]] = &[
    ["f0", "f1", "ext"],
    ["memcmp", "f1", "bcmp"],
    ["bcmp", "f1", "memcmp"],
    ["f0", "memcpy", "memset"],
    ["llvm_f", "llvmlike.trap", "llvm"],
    ["OUTLINED_FUNCTION_7", "OUTLINED_FUNCTION_x", "OUTLINED_FUNCTION_1"],
    ["call", "invoke", "asm"],
    ["f", "f.1", "f.2"],
    ["__rust_alloc", "__rg_alloc", "malloc"],
    ["void", "i32", "ptr"],
    ["a$b", "$x1", "$f"],
    ["main", "_start", "__libc_start_main"],
    ["a?", "void ()*x", "x *"],
    ["fmt::Void", "core::fmt::Formatter", "<a as b>::c"],
];

fn gen(c: &mut Chooser, arch: Arch, n: usize) -> Option<Case> {
    let m = c.pick(1 << (n * n)) as u32;
    let live = c.pick(1 << n) as u32;
    if live == 0 {
        return None;
    }
    let mut form = vec![];
    let mut mach = vec![];
    for i in 0..n {
        for j in 0..n {
            if m >> (i * n + j) & 1 == 1 {
                if live >> i & 1 == 1 && live >> j & 1 == 0 {
                    return None; // the linker keeps what live code calls
                }
                form.push(c.dev(6));
                mach.push(if arch.thumb() { c.dev(3) } else { 0 });
            } else {
                form.push(0);
                mach.push(0);
            }
        }
    }
    let place: Vec<usize> = (0..n).map(|_| c.dev(2)).collect();
    let quoted = (0..n).map(|_| c.dev(5)).collect();
    let typed: Vec<usize> = (0..n).map(|_| c.dev(3)).collect();
    let ext: Vec<usize> = (0..n).map(|_| c.dev(4)).collect();
    let version = if ext.iter().any(|&e| e > 0) { c.dev(3) } else { 0 };
    let unused_undef = c.dev(2) == 1;
    let special = c.dev(SPECIAL.len());
    let second: Vec<usize> = (0..n).map(|_| c.dev(4)).collect();
    Some(Case { arch, n, m, live, form, mach, place, quoted, typed, ext, version, unused_undef, special, second })
}

fn build(k: &Case) -> (Prog, Want) {
    let n = k.n;
    let mut p = Prog::new(k.arch);
    let mut w = Want::new();
    let names: Vec<String> = (0..n).map(|i| if i < 2 { SPECIAL[k.special][i].to_string() } else { format!("f{}", i) }).collect();
    let ext = SPECIAL[k.special][2];
    let at = |i: usize, j: usize| k.m >> (i * n + j) & 1 == 1;
    for i in 0..n {
        let stack = Some(8 * (i as u64 + 1));
        let mut f = Fun::new(k.arch, &names[i], stack);
        f.live = k.live >> i & 1 == 1;
        let machine: Vec<usize> = (0..n).filter(|&j| at(i, j) && k.mach[i * n + j] != 2).collect();
        if k.arch.thumb() && f.live {
            f.ops = body(k.arch, stack.unwrap(), &machine);
        }
        if f.live {
            w.node(&names[i], stack);
        }
        f.in_rlib = k.place[i] == 1;
        if k.second[i] > 0 {
            // sorts before or after the first name, in the same place or not
            f.names.push((format!("second{}", i), elf::FUNC));
        }
        p.funs.push(f);
    }
    // the spellings of a name: `f0`, `"f0"`, `"\01f0"` (what `link_name` and renamed symbols of C give);
    // 3 and 4: only the definition or only the calls have the mark
    let q = |s: &str, how: usize, def: bool| match how {
        0 => s.to_string(),
        1 => format!("\"{}\"", s),
        2 => format!("\"\\01{}\"", s),
        3 if def => format!("\"\\01{}\"", s),
        4 if !def => format!("\"\\01{}\"", s),
        _ => s.to_string(),
    };
    let mut ext_called = false;
    for i in 0..n {
        let mut st = vec![];
        for j in 0..n {
            if !at(i, j) || k.mach[i * n + j] == 1 {
                continue;
            }
            let own = if k.special > 0 { ir_name(&names[j]) } else { q(&names[j], k.quoted[j], false) };
            let other = format!("second{}", j);
            let t = if k.second[j] == 1 || k.second[j] == 3 { &other } else { &own };
            let call = format!("call void @{}() #0", t);
            // the second call of a function
            let t = if k.second[j] > 0 { &other } else { &own };
            let inv = format!("invoke void @{}()\n          to label %bb1 unwind label %cleanup", t);
            match k.form[i * n + j] {
                0 => st.push(call),
                1 => st.extend([call.clone(), call, format!("call void @{}() #0", t)]),
                2 => st.push(inv),
                3 => st.extend([inv, call]),
                4 => st.push(format!("tail call fastcc void @{}(), !dbg !7", t)),
                _ => st.extend([call.clone(), "%z = add i32 1, 2".into(), format!("%y = call noundef i32 @{}(i32 1)", t)]),
            }
            if k.second[j] == 1 {
                // and once by its first name, last
                st.push(format!("call void @{}() #0", own));
            }
        }
        if k.ext[i] > 0 {
            match k.ext[i] {
                1 => st.push(format!("call void @{}()", ir_name(ext))),
                2 => st.extend([format!("call void @{}()", ir_name(ext)), format!("%r = tail call i32 @{}(i32 1)", ir_name(ext))]),
                _ => st.push(format!("invoke void @{}()\n          to label %bb1 unwind label %cleanup", ir_name(ext))),
            }
            if k.live >> i & 1 == 1 && k.typed[i] == 0 {
                ext_called = true;
                w.any_local(ext);
            }
        }
        let own = if k.special > 0 { ir_name(&names[i]) } else { q(&names[i], k.quoted[i], true) };
        let text = match k.typed[i] {
            0 => define("void", &own, "", &st),
            1 => declare("void", &own, ""),
            _ => String::new(),
        };
        if k.place[i] == 1 {
            p.cb_ll.push_str(&text);
        } else {
            p.ll.push_str(&text);
        }
    }
    for i in 0..n {
        if k.live >> i & 1 == 0 {
            continue;
        }
        for j in 0..n {
            if !at(i, j) {
                continue;
            }
            let ir = k.typed[i] == 0 && k.mach[i * n + j] != 1;
            let mach = k.arch.thumb() && k.mach[i * n + j] != 2;
            if ir || mach {
                w.edge(&names[i], &names[j]);
            }
        }
        if k.ext[i] > 0 && k.typed[i] == 0 {
            w.edge(&names[i], ext);
        }
    }
    if ext_called {
        w.node_local_unknown(ext);
        p.undef.push(format!("{}{}", ext, ["", "@@GLIBC_2.2.5", "@GLIBC_2.2.5"][k.version]));
        p.ll.push_str(&declare("void", &ir_name(ext), ""));
    }
    if k.unused_undef {
        p.undef.push("never_called".into());
        p.ll.push_str(&declare("void", "never_called", ""));
        p.ll.push_str(&declare("i32", "never_linked", "i32"));
    }
    (p, w)
}

fn space(ctx: &Ctx, name: &str, arch: Arch, n: usize, budget: u32) {
    ctx.explore(
        name,
        budget,
        |c| gen(c, arch, n),
        |wk, k| {
            let (mut p, w) = build(k);
            let r = p.run(wk, &[]);
            w.judge(&r)?;
            Ok(r.brief())
        },
    );
}

pub fn check(ctx: &Ctx) {
    space(ctx, "n2-A64", Arch::A64, 2, 2);
    space(ctx, "n2-X64", Arch::X64, 2, 1);
    space(ctx, "n2-V7", Arch::V7, 2, 2);
    space(ctx, "n2-V6", Arch::V6, 2, 1);
    space(ctx, "n3-A64", Arch::A64, 3, 0);
    space(ctx, "n3-V7", Arch::V7, 3, 0);
    if ctx.thorough {
        space(ctx, "n2-A64-3", Arch::A64, 2, 3);
        space(ctx, "n3-A64-1", Arch::A64, 3, 1);
        space(ctx, "n3-V7-1", Arch::V7, 3, 1);
    }
    super::views::check(ctx, super::views::View::Direct);
}
