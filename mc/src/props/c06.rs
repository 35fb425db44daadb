//! C06: sources of uncertainty, at every node of every small call graph.
use super::expect::{norm_sig, Want};
use crate::ctx::Ctx;
use crate::elf;
use crate::explore::Chooser;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    None,
    /// calls an undefined symbol
    Undef,
    UndefCast,
    /// its own stack usage is not known
    NoStack,
    /// calls a function pointer of a signature nobody has
    FpNone,
    /// calls a function pointer of a signature somebody has
    FpSome,
    /// Thumb, no IR: machine code with some halfwords
    Raw(&'static [u16]),
    /// Thumb, with IR: the same machine code
    RawTyped(&'static [u16]),
}
use S::*;

const BLX: S = Raw(&[0x4798]);
const OTHER: &[S] = &[None, Undef, UndefCast, NoStack, FpNone, FpSome];
const THUMB: &[S] = &[
    None,
    Undef,
    NoStack,
    FpNone,
    FpSome,
    BLX,
    Raw(&[0x4718]),
    Raw(&[0x4760]),
    Raw(&[0x47f0]),
    Raw(&[0x4780]),
    Raw(&[0x469f]),
    Raw(&[0xbf00, 0x4718, 0xbf00]),
    RawTyped(&[0x4798]),
    RawTyped(&[0x4718]),
    // control: not indirect
    Raw(&[]),
    Raw(&[0x46f7]),
    Raw(&[0x4618]),
];
const V7ONLY: &[S] = &[Raw(&[0xf8d3, 0xf000]), Raw(&[0xf8df, 0xf004]), Raw(&[0xf852, 0xf020]), Raw(&[0xf85d, 0xfb04])];

fn unknown_raw(hs: &[u16]) -> bool {
    !matches!(hs, [] | [0x46f7] | [0x4618] | [0xf85d, 0xfb04])
}

#[derive(Clone, Debug)]
struct Case {
    arch: Arch,
    n: usize,
    m: u32,
    src: Vec<S>,
    local: u64,
    /// further symbols without IR, and what else is linked
    extra: usize,
}

/// name, whether it counts as code of unknown type
const EXTRA: &[(&str, bool)] = &[("", false), ("raw", true), ("OUTLINED_FUNCTION_0", false), ("OUTLINED_FUNCTION_27", false), ("OUTLINED_FUNCTION_x", true), ("MY_OUTLINED_FUNCTION_1", true), ("OUTLINED_FUNCTION_", true), ("OUTLINED_FUNCTION_1x", true), ("OUTLINED_FUNCTION_0.cold", true), ("outlined_function_0", true), ("OUTLINED_FUNCTION_4294967296", false)];

fn build(k: &Case) -> (Prog, Want) {
    let a = k.arch;
    let mut p = Prog::new(a);
    let mut w = Want::new();
    let n = k.n;
    let mut untyped = false;
    for i in 0..n {
        let name = format!("f{}", i);
        let callees: Vec<usize> = (0..n).filter(|j| k.m >> (i * n + j) & 1 == 1).collect();
        let mut f = Fun::new(a, &name, if k.src[i] == NoStack { Option::None } else { Some(k.local * (i as u64 + 1)) }).calls(a, &callees);
        w.node(&name, f.stack);
        let mut st: Vec<String> = callees.iter().map(|j| format!("call void @f{}()", j)).collect();
        let mut ir = true;
        match k.src[i] {
            None => {}
            Undef => {
                st.insert(0, "%x = call i32 @ext(ptr null)".into());
                w.nodes.get_mut(&name).unwrap().callees.insert("ext".into());
            }
            UndefCast => {
                st.insert(0, "call void bitcast (ptr @ext to ptr)()".into());
                w.nodes.get_mut(&name).unwrap().callees.insert("ext".into());
            }
            NoStack => {
                if a.thumb() {
                    // push {r4}; cbz-like branch inside the function; pop {r4}
                    let mut ops = vec![Op::Raw(vec![0x10, 0xb4]), Op::Raw(vec![0x00, 0xd0]), Op::Raw(vec![0x00, 0xbf]), Op::Raw(vec![0x00, 0xbf])];
                    ops.extend(callees.iter().map(|&j| Op::Bl(j)));
                    ops.push(Op::Raw(vec![0x10, 0xbc, 0x70, 0x47]));
                    f.ops = ops;
                }
            }
            FpNone => {
                st.push("call void %f(i77 1)".into());
                let l = norm_sig("void (i77)*");
                w.nodes.get_mut(&name).unwrap().callees.insert(l);
            }
            FpSome => {
                st.push("%y = call i16 %f(i16 1)".into());
                let l = norm_sig("i16 (i16)*");
                w.nodes.get_mut(&name).unwrap().callees.insert(l);
            }
            Raw(hs) | RawTyped(hs) => {
                ir = matches!(k.src[i], RawTyped(_));
                f.stack = Option::None;
                let mut ops: Vec<Op> = callees.iter().map(|&j| Op::Bl(j)).collect();
                ops.extend(hs.iter().map(|h| Op::Raw(h.to_le_bytes().to_vec())));
                ops.push(Op::Raw(vec![0x70, 0x47]));
                f.ops = ops;
                // nothing here lowers SP
                w.nodes.get_mut(&name).unwrap().local = Some(Some(0));
                if !ir {
                    untyped = true;
                    if unknown_raw(hs) {
                        w.nodes.get_mut(&name).unwrap().callees.insert("?".into());
                    }
                }
            }
        }
        for j in &callees {
            w.nodes.get_mut(&name).unwrap().callees.insert(format!("f{}", j));
        }
        p.funs.push(f);
        if ir {
            p.ll.push_str(&define("void", &name, "", &st));
        }
    }
    // a candidate for FpSome and a bystander with stack information
    p.funs.push(Fun::new(a, "cand", Some(k.local)));
    w.node("cand", Some(k.local));
    p.ll.push_str(&define("i16", "cand", "i16 %x", &[]));
    p.ll.push_str(&declare("i32", "ext", "ptr"));
    // defined, but removed by the linker, and calling unknown code
    p.ll.push_str(&define("void", "dead", "", &["call void @ext2()".into(), "call void %f(i78 1)".into()]));
    p.ll.push_str(&declare("void", "ext2", ""));
    p.undef.push("ext2".into());
    let (en, eu) = EXTRA[k.extra];
    if !en.is_empty() {
        let mut f = Fun::new(a, en, Some(0));
        f.names = vec![(en.to_string(), elf::FUNC)];
        p.funs.push(f);
        w.node(en, Some(0));
        untyped |= eu;
    }
    let has = |s: S| k.src.contains(&s);
    if has(Undef) || has(UndefCast) {
        p.undef.push("ext".into());
        w.node("ext", Option::None);
    }
    for (s, l, c) in [(FpNone, "void(i77)*", ""), (FpSome, "i16(i16)*", "cand")] {
        if has(s) {
            w.dashed(l);
            if c.is_empty() || untyped {
                w.edge(l, "?");
            }
            if !c.is_empty() {
                w.edge(l, c);
            }
        }
    }
    w.exactness = true;
    (p, w)
}

fn run(ctx: &Ctx, space: &str, gen: impl Fn(&mut Chooser) -> Option<Case> + Sync) {
    ctx.explore(space, 0, gen, |w, k| {
        let (mut p, want) = build(k);
        let r = p.run(w, &[]);
        want.judge(&r)?;
        Ok(r.brief())
    });
}

fn sources(arch: Arch) -> Vec<S> {
    match arch {
        Arch::V7 => [THUMB, V7ONLY].concat(),
        Arch::V6 => THUMB.to_vec(),
        _ => OTHER.to_vec(),
    }
}

pub fn check(ctx: &Ctx) {
    // one source, every graph (with recursion), no stack used
    for (arch, n) in [(Arch::A64, 3), (Arch::V7, if ctx.thorough { 3 } else { 2 }), (Arch::V6, 2), (Arch::X64, 2)] {
        let ss = sources(arch);
        run(ctx, &format!("one-source-{:?}", arch), |c| {
            let m = c.pick(1 << (n * n)) as u32;
            let s = *c.of(&ss);
            let extra = c.pick(if n == 3 && arch == Arch::A64 { 3 } else { EXTRA.len() });
            let mut src = vec![None; n];
            src[0] = s;
            Some(Case { arch, n, m, src, local: 0, extra })
        });
    }
    // several sources, every acyclic graph, stack in use
    for arch in [Arch::A64, Arch::V7] {
        let ss: Vec<S> = if arch == Arch::A64 { vec![None, Undef, NoStack, FpNone, FpSome] } else { vec![None, Undef, NoStack, FpNone, FpSome, BLX, RawTyped(&[0x4798])] };
        let n = if ctx.thorough { 4 } else { 3 };
        run(ctx, &format!("sources-{:?}", arch), |c| {
            let mut m = 0u32;
            for i in 0..n {
                for j in i + 1..n {
                    if c.flag() {
                        m |= 1 << (i * n + j);
                    }
                }
            }
            let mut budget = 3;
            let src: Vec<S> = (0..n)
                .map(|_| {
                    let s = if budget > 0 { *c.of(&ss) } else { None };
                    if s != None {
                        budget -= 1;
                    }
                    s
                })
                .collect();
            let extra = c.pick(2);
            // RawTyped functions have no stack size of their own here: any is fine
            Some(Case { arch, n, m, src, local: 8, extra })
        });
    }
    ctx.assume("functions produced by LLVM's outliner (OUTLINED_FUNCTION_<n>) are never called through pointers");
    super::views::check(ctx, super::views::View::Unknown);
}
