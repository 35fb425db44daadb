//! C07: which memory routines are linked, how, and which intrinsics the program uses.
use super::expect::Want;
use crate::ctx::Ctx;
use crate::explore::Chooser;
use crate::world::*;

/// routine, and the intrinsic that may lower to it
const ROUTINES: &[(&str, usize)] = &[
    ("memcpy", 0),
    ("__aeabi_memcpy", 0),
    ("__aeabi_memcpy4", 0),
    ("__aeabi_memcpy8", 0),
    ("memmove", 1),
    ("__aeabi_memmove", 1),
    ("__aeabi_memmove4", 1),
    ("__aeabi_memmove8", 1),
    ("memset", 2),
    ("__aeabi_memset", 2),
    ("__aeabi_memset4", 2),
    ("__aeabi_memset8", 2),
    ("memclr", 2),
    ("__aeabi_memclr", 2),
    ("__aeabi_memclr4", 2),
    ("__aeabi_memclr8", 2),
];

const CALLS: &[(&str, usize)] = &[
    ("call void @llvm.memcpy.p0.p0.i32(ptr align 4 %a, ptr align 4 %b, i32 16, i1 false), !dbg !7", 0),
    ("tail call void @llvm.memcpy.p0i8.p0i8.i64(i8* noundef nonnull align 1 %a, i8* align 1 %b, i64 %n, i1 false) #9", 0),
    ("call void @llvm.memcpy.p0.p0.i16(ptr align 8 %a, ptr align 8 %b, i16 8, i1 true)", 0),
    ("call void @llvm.memmove.p0.p0.i32(ptr align 4 %a, ptr align 4 %b, i32 %n, i1 false)", 1),
    ("tail call void @llvm.memmove.p0i8.p0i8.i64(i8* align 1 %a, i8* align 1 %b, i64 7, i1 false)", 1),
    ("call void @llvm.memset.p0.i32(ptr align 4 %a, i8 0, i32 16, i1 false)", 2),
    ("tail call void @llvm.memset.p0i8.i64(i8* align 1 %a, i8 %x, i64 %n, i1 false), !dbg !7", 2),
];

const HARMLESS: &[&str] = &[
    "call void @llvm.dbg.value(metadata i32 %x, metadata !7, metadata !DIExpression()), !dbg !7",
    "call void @llvm.dbg.declare(metadata ptr %x, metadata !7, metadata !DIExpression()), !dbg !7",
    "tail call void @llvm.assume(i1 %c)",
    "tail call void @llvm.trap()",
    "call void @llvm.lifetime.start.p0(i64 4, ptr nonnull %x)",
    "call void @llvm.lifetime.end.p0(i64 4, ptr nonnull %x)",
    "call void @llvm.lifetime.start.p0i8(i64 4, i8* nonnull %x)",
    "call void @llvm.lifetime.end(i64 4, i8* nonnull %x)",
    "%r = tail call i32 @llvm.abs.i32(i32 %x, i1 false)",
    "%r = tail call i16 @llvm.bswap.i16(i16 %x)",
    "%r = tail call i32 @llvm.ctlz.i32(i32 %x, i1 false)",
    "%r = tail call i64 @llvm.cttz.i64(i64 %x, i1 true)",
    "%r = call { i32, i1 } @llvm.sadd.with.overflow.i32(i32 %x, i32 %y)",
    "%r = call { i64, i1 } @llvm.smul.with.overflow.i64(i64 %x, i64 %y)",
    "%r = call { i8, i1 } @llvm.ssub.with.overflow.i8(i8 %x, i8 %y)",
    "%r = call i32 @llvm.uadd.sat.i32(i32 %x, i32 %y)",
    "%r = call { i32, i1 } @llvm.uadd.with.overflow.i32(i32 %x, i32 %y)",
    "%r = call i32 @llvm.umax.i32(i32 %x, i32 %y)",
    "%r = call i32 @llvm.umin.i32(i32 %x, i32 %y)",
    "%r = call { i32, i1 } @llvm.umul.with.overflow.i32(i32 %x, i32 %y)",
    "%r = call i32 @llvm.usub.sat.i32(i32 %x, i32 %y)",
    "%r = call { i32, i1 } @llvm.usub.with.overflow.i32(i32 %x, i32 %y)",
    "%r = call i1 @llvm.vector.reduce.or.v16i1(<16 x i1> %x)",
    "tail call void @llvm.experimental.noalias.scope.decl(metadata !7)",
    "%r = call i32 @llvm.x86.sse2.pmovmskb.128(<16 x i8> %x)",
    "call void @llvm.x86.sse2.pause()",
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Absent,
    Defined,
    Undefined,
    /// another name at the address of some function which is printed under its own name
    Alias,
    /// only in the IR
    Removed,
    /// in the archive of compiler_builtins, with IR of its own
    Cb,
}
use St::*;

#[derive(Clone, Debug)]
struct Case {
    arch: Arch,
    target: Option<&'static str>,
    st: Vec<St>,
    memcmp: St,
    /// the routines use the intrinsics themselves
    selfuse: bool,
}

fn node_of(name: &str, s: St) -> Option<String> {
    match s {
        Absent | Removed => None,
        Defined | Undefined | Cb => Some(name.into()),
        Alias => Some(format!("impl_{}", name)),
    }
}

fn build(k: &Case) -> (Prog, Want) {
    let a = k.arch;
    let mut p = Prog::new(a);
    p.target = k.target;
    let mut w = Want::new();
    let mut undef_used = vec![];
    let mut all: Vec<(&str, Option<usize>, St)> = ROUTINES.iter().zip(&k.st).map(|(r, s)| (r.0, Some(r.1), *s)).collect();
    all.push(("memcmp", None, k.memcmp));
    // linked functions first: they have nodes anyway
    for (i, (name, kind, s)) in all.iter().enumerate() {
        let stack = Some(8 * (i as u64 + 1));
        let intr = format!("call void @llvm.{}.p0.p0.i32(ptr %a, ptr %b, i32 %n, i1 false)", ["memcpy", "memmove", "memset"][kind.unwrap_or(0)]);
        let stmts: Vec<String> = if k.selfuse && kind.is_some() { vec![intr] } else { vec![] };
        match s {
            Absent => {}
            Removed => p.ll.push_str(&define("void", name, "ptr %a, ptr %b, i32 %n", &stmts)),
            Undefined => {
                // some of them with the version the linker gives them
                p.undef.push(format!("{}{}", name, ["", "@@GLIBC_2.2.5", "@GLIBC_2.14"][i % 3]));
                p.ll.push_str(&declare("void", name, "ptr, ptr, i32"));
            }
            Defined => {
                p.funs.push(Fun::new(a, name, stack));
                p.ll.push_str(&define("void", name, "ptr %a, ptr %b, i32 %n", &stmts));
                w.node(name, stack);
            }
            Cb => {
                let mut f = Fun::new(a, name, stack);
                f.in_rlib = true;
                p.funs.push(f);
                p.cb_ll.push_str(&define("void", name, "ptr %a, ptr %b, i32 %n", &stmts));
                w.node(name, stack);
            }
            Alias => {
                let im = format!("impl_{}", name);
                let mut f = Fun::new(a, &im, stack);
                f.names.insert(0, (name.to_string(), crate::elf::FUNC));
                p.funs.push(f);
                p.ll.push_str(&define("void", &im, "ptr %a, ptr %b, i32 %n", &stmts));
                w.node(&im, stack);
            }
        }
    }
    let lowered = |kind: usize| -> Vec<(String, St, &'static str)> {
        ROUTINES.iter().zip(&k.st).filter(|(r, _)| r.1 == kind).filter_map(|(r, s)| node_of(r.0, *s).map(|n| (n, *s, r.0))).collect()
    };
    let thumb = a.thumb();
    let mut edges: Vec<(String, usize)> = vec![];
    for (i, (text, kind)) in CALLS.iter().enumerate() {
        let n = format!("c{}", i);
        p.funs.push(Fun::new(a, &n, Some(8)));
        p.ll.push_str(&define("void", &n, "", &[text.to_string()]));
        w.node(&n, Some(8));
        edges.push((n, *kind));
    }
    p.funs.push(Fun::new(a, "mixed", Some(8)));
    p.ll.push_str(&define("void", "mixed", "", &[CALLS[0].0.into(), HARMLESS[0].into(), CALLS[5].0.into(), CALLS[0].0.into(), "call void @c0()".into()]));
    w.node("mixed", Some(8));
    edges.push(("mixed".into(), 0));
    edges.push(("mixed".into(), 2));
    if k.selfuse {
        for (r, s) in ROUTINES.iter().zip(&k.st) {
            if matches!(s, Defined | Alias | Cb) {
                edges.push((node_of(r.0, *s).unwrap(), r.1));
            }
        }
    }
    w.edge("mixed", "c0");
    if !thumb {
        for (n, kind) in edges {
            for (t, s, raw) in lowered(kind) {
                if s == Undefined {
                    undef_used.push(raw);
                    w.nodes.entry(t.clone()).or_insert_with(|| super::expect::W { local: Some(None), dashed: false, callees: Default::default() });
                }
                w.edge(&n, &t);
            }
        }
    }
    // machine code decides on Thumb
    if thumb {
        let targets: Vec<usize> = (0..p.funs.len()).filter(|&j| p.funs[j].names.iter().any(|n| n.0.contains("mem"))).collect();
        let t: Vec<String> = targets.iter().map(|&j| p.funs[j].obj_names[0].clone()).collect();
        p.funs.push(Fun::new(a, "mach", Some(8)).calls(a, &targets));
        p.ll.push_str(&define("void", "mach", "", &CALLS.iter().map(|c| c.0.to_string()).collect::<Vec<_>>()));
        w.node("mach", Some(8));
        for t in t {
            w.edge("mach", &t);
        }
    }
    p.funs.push(Fun::new(a, "harmless", Some(8)));
    p.ll.push_str(&define("void", "harmless", "", &HARMLESS.iter().map(|s| s.to_string()).collect::<Vec<_>>()));
    w.node("harmless", Some(8));
    // memcmp can be lowered to instructions
    p.funs.push(Fun::new(a, "cmp", Some(8)));
    p.ll.push_str(&define("void", "cmp", "", &["%r = call i32 @memcmp(ptr %a, ptr %b, i64 3)".into()]));
    w.node("cmp", Some(8));
    if let Some(t) = node_of("memcmp", k.memcmp) {
        if k.memcmp == Undefined {
            w.node("memcmp", None);
        }
        w.edge("cmp", &t);
    }
    (p, w)
}

fn run(ctx: &Ctx, space: &str, budget: u32, gen: impl Fn(&mut Chooser) -> Option<Case> + Sync) {
    ctx.explore(space, budget, gen, |w, k| {
        let (mut p, want) = build(k);
        let r = p.run(w, &[]);
        want.judge(&r)?;
        Ok(r.brief())
    });
}

pub fn check(ctx: &Ctx) {
    let devs = |c: &mut Chooser, base: St, arch: Arch| {
        let alts: Vec<St> = [base].into_iter().chain([Absent, Defined, Undefined, Alias, Removed, Cb].into_iter().filter(|s| *s != base)).collect();
        let st: Vec<St> = ROUTINES.iter().map(|_| *c.dev_of(&alts)).collect();
        let memcmp = *c.dev_of(&[Absent, Defined, Undefined, Alias, Removed, Cb]);
        let target = *c.dev_of(match arch {
            Arch::A64 => &[None, Some("armv7r-none-eabi"), Some("thumbv8m.main-none-eabihf"), Some("riscv32imac-unknown-none-elf")],
            Arch::V7 => &[None, Some("thumbv7em-none-eabi"), Some("thumbv7em-none-eabihf"), None],
            _ => &[None, None, None, None],
        });
        let selfuse = c.dev(2) == 1;
        Some(Case { arch, target, st, memcmp, selfuse })
    };
    for (arch, base, budget) in [
        (Arch::A64, Absent, 2),
        (Arch::A64, Defined, 2),
        (Arch::A64, Undefined, 1),
        (Arch::A64, Alias, 1),
        (Arch::X64, Absent, 1),
        (Arch::X64, Undefined, 1),
        (Arch::V7, Absent, 1),
        (Arch::V7, Defined, 1),
        (Arch::V6, Defined, 1),
        (Arch::V7, Undefined, 1),
    ] {
        run(ctx, &format!("{:?}-{:?}", arch, base), budget, |c| devs(c, base, arch));
    }
    // per family, every combination of the four possible states
    run(ctx, "family", 0, |c| {
        let fam = c.pick(2);
        let mut st = vec![Absent; 16];
        for s in st.iter_mut().skip(4 * fam).take(4) {
            *s = *c.of(&[Absent, Defined, Undefined, Alias]);
        }
        Some(Case { arch: Arch::A64, target: None, st, memcmp: Absent, selfuse: false })
    });
    // routines that share code, and functions that also call routines themselves
    ctx.explore(
        "called-too",
        0,
        |c: &mut Chooser| {
            let fam = c.pick(3);
            let st: Vec<usize> = (0..4).map(|_| c.pick(4)).collect();
            let s1 = c.pick(9);
            let s2 = c.pick(9);
            if fam == 1 && !ctx.thorough || [s1, s2].iter().any(|s| (1..=4).contains(s) && st[s - 1] == 0) {
                return None;
            }
            Some((fam, st, s1, s2))
        },
        |w, (fam, st, s1, s2)| {
            let names: [&str; 4] = [
                ["memcpy", "__aeabi_memcpy", "__aeabi_memcpy4", "__aeabi_memcpy8"],
                ["memmove", "__aeabi_memmove", "__aeabi_memmove4", "__aeabi_memmove8"],
                ["__aeabi_memset4", "memclr", "memset", "__aeabi_memclr8"],
            ][*fam];
            let a = Arch::A64;
            let mut p = Prog::new(a);
            let mut want = Want::new();
            want.exactness = true;
            let mut at: Vec<Option<String>> = vec![];
            let mut shared = Fun::new(a, "shared", Some(64));
            for (i, n) in names.iter().enumerate() {
                at.push(match st[i] {
                    0 => None,
                    1 => {
                        p.funs.push(Fun::new(a, n, Some(16 * i as u64)));
                        p.ll.push_str(&define("void", n, "ptr %a, ptr %b, i32 %n", &[]));
                        want.node(n, Some(16 * i as u64));
                        Some(n.to_string())
                    }
                    2 => {
                        p.undef.push(n.to_string());
                        p.ll.push_str(&declare("void", n, "ptr, ptr, i32"));
                        Some(n.to_string())
                    }
                    _ => {
                        shared.names.push((n.to_string(), crate::elf::FUNC));
                        Some("shared".into())
                    }
                });
            }
            p.funs.push(shared);
            p.ll.push_str(&define("void", "shared", "ptr %a, ptr %b, i32 %n", &[]));
            want.node("shared", Some(64));
            p.funs.push(Fun::new(a, "other", Some(8)));
            p.ll.push_str(&define("void", "other", "", &[]));
            want.node("other", Some(8));
            p.funs.push(Fun::new(a, "caller", Some(8)));
            want.node("caller", Some(8));
            let mut called: Vec<String> = at.iter().flatten().cloned().collect();
            let mut extra = |s: usize| -> Option<String> {
                Some(match s {
                    0 => return None,
                    1..=4 => format!("call void @{}(ptr %a, ptr %b, i32 %n)", names[s - 1]),
                    5 => {
                        called.push("shared".into());
                        "call void @shared(ptr %a, ptr %b, i32 %n)".into()
                    }
                    6 => {
                        called.push("shared".into());
                        "call void bitcast (ptr @shared to ptr)(ptr %a)".into()
                    }
                    7 => {
                        called.push("other".into());
                        "call void @other()".into()
                    }
                    _ => CALLS[0].0.into(),
                })
            };
            let text = format!("call void @llvm.{}.p0.p0.i32(ptr %a, ptr %b, i32 %n, i1 false)", ["memcpy", "memmove", "memset"][*fam]);
            let stmts: Vec<String> = extra(*s1).into_iter().chain([text]).chain(extra(*s2)).collect();
            p.ll.push_str(&define("void", "caller", "", &stmts));
            for c in &called {
                if p.undef.contains(c) {
                    want.node(c, None);
                }
                want.edge("caller", c);
            }
            let r = p.run(w, &[]);
            want.judge(&r)?;
            Ok(r.brief())
        },
    );
    if ctx.thorough {
        run(ctx, "subsets", 0, |c| {
            let m = c.pick(1 << 16);
            let how = *c.of(&[Defined, Undefined]);
            let st = (0..16).map(|i| if m >> i & 1 == 1 { how } else { Absent }).collect();
            Some(Case { arch: Arch::A64, target: None, st, memcmp: Absent, selfuse: false })
        });
    }
    ctx.assume("other intrinsics than the listed ones may make the analysis fail; `element.unordered.atomic` variants do not occur in Rust programs");
    super::views::check(ctx, super::views::View::Memory);
}
