//! C05: every way of giving functions and function-pointer calls signatures out of an alphabet.
use crate::ctx::Ctx;
use crate::props::expect::{norm_sig, Want};
use crate::run::Worker;
use crate::world::*;
use std::collections::BTreeSet;

/// return type ("" is void) and parameter types
pub type Sig = (&'static str, &'static [&'static str]);

const SIGS: &[Sig] = &[
    ("", &[]),
    ("", &["ptr"]),
    ("", &["i8*"]),
    ("", &["i32*"]),
    ("", &["i32"]),
    ("", &["i8"]),
    ("", &["ptr", "ptr"]),
    ("", &["i8*", "ptr"]),
    ("", &["ptr", "i32*"]),
    ("", &["i32", "i8"]),
    ("", &["i8", "i32"]),
    ("i32", &[]),
    ("ptr", &[]),
    ("i8*", &["i8*"]),
    ("ptr", &["ptr"]),
    ("i1", &["ptr", "ptr"]),
    ("", &["{ i32, ptr }"]),
    ("", &["{ i32, i8* }"]),
    ("", &["<{ i32, ptr }>"]),
    ("", &["[2 x i8]"]),
    ("", &["[3 x i8]"]),
    ("", &["<2 x i8>"]),
    ("float", &["double"]),
    ("double", &["float"]),
    ("", &["%\"m::T\""]),
    ("", &["%\"m::U\""]),
    ("", &["%\"m::T\"*"]),
    ("", &["ptr*"]),
    ("{ i32, ptr }", &["i64"]),
    ("", &["void (i8)*"]),
    ("i32", &["ptr", "..."]),
    ("", &["{ i32, ptr, i8 }"]),
    ("", &["{}"]),
    ("", &["<4 x i8>"]),
    ("", &["<2 x i16>"]),
    ("", &["[2 x i16]"]),
    ("", &["void ()*"]),
    ("", &["i8 (i8)*"]),
    ("", &["i1"]),
    ("{ i32, i8 }", &["i64"]),
    ("[2 x i64]", &["ptr"]),
    ("", &["ptr", "..."]),
];
/// type and value of an argument; whether the tool may refuse to read it
const VALUES: &[(&str, &str)] = &[
    ("i32", "0"),
    ("i32", "-1"),
    ("i32", "%x"),
    ("i32", "undef"),
    ("i32", "signext 5"),
    ("i32", "ptrtoint (ptr @g to i32)"),
    ("i32", "add (i32 ptrtoint (ptr @g to i32), i32 4)"),
    ("i1", "noundef zeroext true"),
    ("float", "1.000000e+00"),
    ("double", "0x3FF0000000000000"),
    ("double", "noundef -1.500000e-05"),
    ("ptr", "%p"),
    ("ptr", "null"),
    ("ptr", "@g"),
    ("ptr", "@\"a, (b\""),
    ("ptr", "noundef nonnull align 8 dereferenceable(4) %\"q q\""),
    ("ptr", "noalias nocapture noundef sret(%\"m::T\") align 4 dereferenceable(8) %r"),
    ("ptr", "sret({ i8, i8 }) align 4 %r"),
    ("ptr", "byval([4 x i8]) align 4 %b"),
    ("ptr", "inttoptr (i32 16 to ptr)"),
    ("ptr", "noundef nonnull inttoptr (i32 4 to ptr)"),
    ("ptr", "getelementptr inbounds (i8, ptr @g, i32 4)"),
    ("ptr", "getelementptr inbounds ({ i8, [2 x i8] }, ptr @g, i32 0, i32 1)"),
    ("ptr", "getelementptr inbounds (<{ i8, [2 x i8] }>, ptr @\"a, (b\", i32 0, i32 1)"),
    ("ptr", "select (i1 icmp eq (ptr @g, ptr null), ptr @g, ptr @h)"),
    ("i8*", "bitcast (i32* @g to i8*)"),
    ("{ i8, i8 }", "zeroinitializer"),
    ("{ i8, i8 }", "{ i8 1, i8 2 }"),
    ("<{ i8, i8 }>", "<{ i8 1, i8 2 }>"),
    ("{ i8, ptr }", "{ i8 1, ptr @\"a, (b\" }"),
    ("[2 x i8]", "c\"a,\""),
    ("[3 x i8]", "c\")()\""),
    ("[4 x i8]", "c\"a(,\\22\""),
    ("[2 x i32]", "[i32 1, i32 2]"),
    ("[1 x i64]", "%c.1"),
    ("<2 x i8>", "<i8 1, i8 2>"),
    ("<2 x i8>", "%v"),
    ("{}", "poison"),
    ("%\"m::T\"", "%v"),
    ("void ()*", "@g"),
];
/// how the definition spells a parameter of the type
const PARAM: &[&str] = &[
    "T %a",
    "T %\"a, b)\"",
    "T",
    "T noundef %0",
    "T noalias noundef readonly align 8 dereferenceable(4) %a.b",
    "T nocapture noundef sret({ i8, i8 }) align 4 dereferenceable(8) %a",
    "T byval([4 x i8]) align 4 %a",
    "T zeroext %_a",
];
const CALL: &[&str] = &["call void", "tail call void", "musttail call void", "invoke void", "call fastcc void", "call cc10 void", "call void FN", "tail call fastcc void FN", "call addrspace(0) void"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ty {
    Define,
    Declare,
    CbDefine,
    /// in the executable, but without IR
    None,
    /// defined in the IR, but removed by the linker
    Dead,
}

#[derive(Clone, Debug)]
struct F {
    name: String,
    sig: Sig,
    ty: Ty,
    calls: Vec<Sig>,
    /// functions that the linker placed at the same address (identical code): signature, kind of
    /// type information, and whether their symbols come before
    folded: Vec<(Sig, Ty, bool)>,
}

impl F {
    /// every signature under which the IR knows the code of this function
    fn sigs(&self) -> Vec<Sig> {
        let mut v = vec![];
        for (s, t) in std::iter::once((self.sig, self.ty)).chain(self.folded.iter().map(|x| (x.0, x.1))) {
            if matches!(t, Ty::Define | Ty::CbDefine | Ty::Declare) {
                v.push(s);
            }
        }
        v
    }
}

fn f(name: &str, sig: Sig, ty: Ty, calls: &[Sig]) -> F {
    F { name: name.into(), sig, ty, calls: calls.to_vec(), folded: vec![] }
}

fn is_ptr(t: &str) -> bool {
    t == "ptr" || t.ends_with('*')
}

fn compatible(a: Sig, b: Sig) -> bool {
    let one = |x: &str, y: &str| x == y || (is_ptr(x) && is_ptr(y) && (x == "ptr" || y == "ptr"));
    one(a.0, b.0) && a.1.len() == b.1.len() && a.1.iter().zip(b.1).all(|(x, y)| one(x, y))
}

fn label(s: Sig) -> String {
    norm_sig(&format!("{} ({})*", if s.0.is_empty() { "void" } else { s.0 }, s.1.join(", ")))
}

fn call_text(s: Sig, k: usize) -> String {
    let args: Vec<String> = s.1.iter().filter(|t| **t != "...").enumerate().map(|(i, t)| format!("{} %a{}", t, i)).collect();
    let variadic = s.1.contains(&"...");
    let ret = if s.0.is_empty() { "void" } else { s.0 };
    let ret = if variadic { format!("{} ({})", ret, s.1.join(", ")) } else { ret.to_string() };
    if s.0.is_empty() {
        format!("call {} %f{}({}) #1", ret, k, args.join(", "))
    } else {
        format!("%r{} = call {} %f{}({}) #1", k, ret, k, args.join(", "))
    }
}

fn build(arch: Arch, fs: &[F]) -> (Prog, Want) {
    build_with(arch, fs, &compatible, &label)
}

fn build_with(arch: Arch, fs: &[F], compatible: &dyn Fn(Sig, Sig) -> bool, label: &dyn Fn(Sig) -> String) -> (Prog, Want) {
    let mut p = Prog::new(arch);
    let mut w = Want::new();
    w.exactness = true;
    for x in fs {
        let stack = 8 + 8 * (p.funs.len() as u64 % 3);
        if x.ty != Ty::Dead {
            let mut fun = Fun::new(arch, &x.name, Some(stack));
            for (k, (_, _, before)) in x.folded.iter().enumerate() {
                let at = if *before { 0 } else { fun.names.len() };
                fun.names.insert(at, (format!("{}_folded{}", x.name, k), crate::elf::FUNC));
            }
            p.funs.push(fun);
            w.node(&x.name, Some(stack));
        }
        let ret = if x.sig.0.is_empty() { "void" } else { x.sig.0 };
        let named: Vec<String> = x.sig.1.iter().enumerate().map(|(i, t)| if *t == "..." { t.to_string() } else { format!("{} %a{}", t, i) }).collect();
        let st: Vec<String> = x.calls.iter().enumerate().map(|(k, s)| call_text(*s, k)).collect();
        for (k, (sig, ty, _)) in x.folded.iter().enumerate() {
            let name = format!("{}_folded{}", x.name, k);
            let ret = if sig.0.is_empty() { "void" } else { sig.0 };
            let named: Vec<String> = sig.1.iter().enumerate().map(|(i, t)| if *t == "..." { t.to_string() } else { format!("{} %a{}", t, i) }).collect();
            match ty {
                Ty::Define | Ty::Dead => p.ll.push_str(&define(ret, &name, &named.join(", "), &st)),
                Ty::CbDefine => p.cb_ll.push_str(&define(ret, &name, &named.join(", "), &st)),
                Ty::Declare => p.ll.push_str(&declare(ret, &name, &sig.1.join(", "))),
                Ty::None => {}
            }
        }
        match x.ty {
            Ty::Define | Ty::Dead => p.ll.push_str(&define(ret, &ir_name(&x.name), &named.join(", "), &st)),
            Ty::CbDefine => p.cb_ll.push_str(&define(ret, &ir_name(&x.name), &named.join(", "), &st)),
            Ty::Declare => p.ll.push_str(&declare(ret, &ir_name(&x.name), &x.sig.1.join(", "))),
            Ty::None => {}
        }
    }
    let untyped = fs.iter().any(|x| x.ty != Ty::Dead && x.sigs().is_empty());
    let called: BTreeSet<Sig> = fs.iter().filter(|x| matches!(x.ty, Ty::Define | Ty::CbDefine)).flat_map(|x| x.calls.iter().copied()).collect();
    for s in called {
        let l = label(s);
        w.dashed(&l);
        let mut n = 0;
        for x in fs {
            if matches!(x.ty, Ty::Define | Ty::CbDefine) && x.calls.contains(&s) {
                w.edge(&x.name, &l);
            }
            if x.ty != Ty::Dead && x.sigs().iter().any(|t| compatible(*t, s)) {
                w.edge(&l, &x.name);
                n += 1;
            }
        }
        if untyped || n == 0 {
            w.edge(&l, "?");
        }
    }
    // recursion through a function pointer makes max values lower bounds although all is known
    w.exactness = !recursive(&w);
    (p, w)
}

fn recursive(w: &Want) -> bool {
    w.nodes.keys().any(|a| {
        let mut seen = BTreeSet::new();
        let mut todo: Vec<&String> = w.nodes[a].callees.iter().collect();
        while let Some(n) = todo.pop() {
            if n == a {
                return true;
            }
            if seen.insert(n) {
                if let Some(x) = w.nodes.get(n) {
                    todo.extend(&x.callees);
                }
            }
        }
        false
    })
}

fn run(ctx: &Ctx, space: &str, gen: impl Fn(&mut crate::explore::Chooser) -> Option<(Arch, Vec<F>)> + Sync) {
    ctx.explore(space, 0, gen, |w: &mut Worker, (arch, fs)| {
        let (mut p, want) = build(*arch, fs);
        let r = p.run(w, &[]);
        want.judge(&r)?;
        Ok(r.brief())
    });
}

const TYS: &[Ty] = &[Ty::Define, Ty::Declare, Ty::CbDefine, Ty::None, Ty::Dead];

pub fn check(ctx: &Ctx) {
    // one signature called in some way, one other function of some signature given in some way
    let pairs = |c: &mut crate::explore::Chooser, arch: Arch, all: bool| {
        let a = *c.of(SIGS);
        let t = *c.of(SIGS);
        let ty = *c.of(TYS);
        let mode = if all { c.pick(7) } else { 0 };
        if !ctx.thorough && mode > 0 && ty != Ty::Define {
            return None;
        }
        let root: Sig = ("i64", &["i64", "i64", "i64"]);
        let mut fs = vec![];
        match mode {
            0 => fs.push(f("caller", root, Ty::Define, &[a])),
            1 => {
                fs.push(f("caller", root, Ty::Define, &[a, a]));
                fs.push(f("caller2", root, Ty::Define, &[a]));
            }
            2 => fs.push(f("caller", root, Ty::Dead, &[a])),
            // the caller may call itself through the pointer
            3 => fs.push(f("caller", a, Ty::Define, &[a])),
            4 => fs.push(f("caller", root, Ty::CbDefine, &[a])),
            // the candidate calls, too
            5 => fs.push(f("caller", root, Ty::Define, &[a, t])),
            _ => {}
        }
        let tc: &[Sig] = if mode == 6 { &[a] } else { &[] };
        fs.push(f("target", t, ty, tc));
        Some((arch, fs))
    };
    run(ctx, "pairs-A64", |c| pairs(c, Arch::A64, true));
    run(ctx, "pairs-V7", |c| pairs(c, Arch::V7, ctx.thorough));
    run(ctx, "all-defined", |c| {
        let a = *c.of(SIGS);
        let b = *c.of(SIGS);
        let second = c.flag();
        let root: Sig = ("i64", &["i64", "i64", "i64"]);
        let mut fs: Vec<F> = SIGS.iter().enumerate().map(|(i, s)| f(&format!("t{}", i), *s, if i % 3 == 2 { Ty::Declare } else { Ty::Define }, &[])).collect();
        if second {
            fs.push(f("c1", root, Ty::Define, &[a]));
            fs.push(f("c2", root, Ty::Define, &[b, a]));
        } else {
            fs.push(f("c1", root, Ty::Define, &[a, b]));
        }
        Some((Arch::A64, fs))
    });
    const SMALL: &[Sig] = &[("", &[]), ("", &["ptr"]), ("", &["i8*"]), ("", &["i32*"]), ("ptr", &["ptr"]), ("i8*", &["ptr"]), ("ptr", &["i8*"])];
    run(ctx, "three-candidates", |c| {
        let n = if ctx.thorough { 7 } else { 5 };
        let a = *c.of(&SMALL[..n]);
        let b = *c.of(&SMALL[..n]);
        let mut fs = vec![f("caller", ("i64", &["i64", "i64", "i64"]), Ty::Define, &[a, b])];
        for k in 0..3 {
            let s = *c.of(SMALL);
            fs.push(f(&format!("t{}", k), s, [Ty::Define, Ty::Declare, Ty::CbDefine][k], &[]));
        }
        Some((Arch::A64, fs))
    });
    // functions of different signatures that the linker folded into one
    run(ctx, "folded", |c| {
        let some: &[Sig] = if ctx.thorough { &SIGS[..16] } else { &SMALL[..4] };
        let a = *c.of(some);
        let s = *c.of(some);
        let t = *c.of(some);
        let tys = &[Ty::Define, Ty::Declare, Ty::CbDefine, Ty::None];
        let (k, l) = (*c.of(tys), *c.of(tys));
        let before = c.flag();
        let arch = if c.flag() { Arch::V7 } else { Arch::A64 };
        let mut fs = vec![f("caller", ("i64", &["i64", "i64", "i64"]), Ty::Define, &[a])];
        let mut x = f("target", s, k, &[]);
        x.folded.push((t, l, before));
        // a further name, in the middle of the table or at its end
        if c.flag() {
            x.folded.push((("", &["i8*"]), Ty::Define, !before));
        }
        fs.push(x);
        Some((arch, fs))
    });
    // defined in one module, declared otherwise in another one: the definition counts
    ctx.explore(
        "declared-otherwise",
        0,
        |c| {
            let some: &[Sig] = if ctx.thorough { SIGS } else { &SIGS[..14] };
            let (a, s, t) = (*c.of(some), *c.of(some), *c.of(some));
            let ty = *c.of(&[Ty::Define, Ty::CbDefine]);
            let arch = if c.flag() { Arch::V7 } else { Arch::A64 };
            if compatible(a, t) && !compatible(a, s) {
                return None; // either
            }
            Some((arch, a, s, t, ty))
        },
        |w: &mut Worker, &(arch, a, s, t, ty)| {
            let fs = vec![f("caller", ("i64", &["i64", "i64", "i64"]), Ty::Define, &[a]), f("target", s, ty, &[])];
            let (mut p, want) = build(arch, &fs);
            let d = declare(if t.0.is_empty() { "void" } else { t.0 }, "target", &t.1.join(", "));
            if ty == Ty::Define {
                p.cb_ll.push_str(&d);
            } else {
                p.ll.push_str(&d);
            }
            let r = p.run(w, &[]);
            want.judge(&r).map_err(|mut e| {
                e.msg = format!("{}; target is {} but declared {}, called {}", e.msg, label(s), label(t), label(a));
                e
            })?;
            Ok(r.brief())
        },
    );
    // what a function is called makes no difference
    const NAMES: &[(&str, &str)] = &[
        ("f.llvm.123", "f"),
        ("xllvm.y", "xllvm.y"),
        ("llvm", "llvm"),
        ("llvm_f", "llvm_f"),
        ("a.llvm.b", "a.llvm.b"),
        ("_ZN3lib1f17h0123456789abcdefE", "lib::f"),
        ("_ZN3lib1f17h0123456789abcdefE.llvm.77", "lib::f"),
        ("a b", "a b"),
        ("void", "void"),
        ("i32", "i32"),
        ("asm", "asm"),
        ("ptr", "ptr"),
        ("define", "define"),
        ("x.0", "x.0"),
        ("$x", ""),
        ("_$f", "_$f"),
        ("-f", "-f"),
        ("memcpy", "memcpy"),
        ("__aeabi_memcpy", "__aeabi_memcpy"),
        ("OUTLINED_FUNCTION_0", "OUTLINED_FUNCTION_0"),
        ("main", "main"),
        ("__rust_alloc", "__rust_alloc"),
        ("0", "0"),
        ("caf\u{e9}", "caf\u{e9}"),
    ];
    ctx.explore(
        "names",
        0,
        |c| {
            let (name, shown) = *c.of(NAMES);
            let ty = *c.of(&[Ty::Define, Ty::Declare, Ty::CbDefine, Ty::None]);
            let s = *c.of(&SIGS[..6]);
            let a = *c.of(&SIGS[..6]);
            let arch = if c.flag() { Arch::V7 } else { Arch::A64 };
            // called directly as well
            let direct = c.flag();
            if shown.is_empty() || (direct && !matches!(ty, Ty::Define | Ty::Declare)) {
                return None;
            }
            Some((arch, name, shown, ty, s, a, direct))
        },
        |w: &mut Worker, &(arch, name, shown, ty, s, a, direct)| {
            let mut fs = vec![f("caller", ("i64", &["i64", "i64", "i64"]), Ty::Define, &[a]), f(name, s, ty, &[])];
            if direct {
                fs.push(f("direct", ("i64", &["i64", "i64"]), Ty::Define, &[]));
            }
            let (mut p, mut want) = build(arch, &fs);
            if direct {
                let call = format!("call void @{}({})", ir_name(name), s.1.iter().enumerate().map(|(i, t)| format!("{} %a{}", t, i)).collect::<Vec<_>>().join(", "));
                let was = define("i64", "direct", "i64 %a0, i64 %a1", &[]);
                assert!(p.ll.contains(&was));
                p.ll = p.ll.replace(&was, &define("i64", "direct", "i64 %a0, i64 %a1", &[call]));
                want.edge("direct", name);
            }
            want.rename(name, shown);
            let r = p.run(w, &[]);
            want.judge(&r)?;
            Ok(r.brief())
        },
    );
    // formatting functions: their first parameter is erased to an opaque type in calls
    const FM: &str = "%\"core::fmt::Formatter\"*";
    const VOIDS: [&str; 5] = ["%\"fmt::Void\"*", "%\"core::fmt::Void\"*", "%\"core::fmt::Void.12\"*", "%\"m::T\"*", "%\"core::fmt::Opaque\"*"];
    const FMT: &[Sig] = &[
        ("i1", &[VOIDS[0], FM]),
        ("i1", &[VOIDS[1], FM]),
        ("i1", &[VOIDS[2], FM]),
        ("i1", &[VOIDS[3], FM]),
        ("i1", &[VOIDS[4], FM]),
        ("i1", &["i8*", FM]),
        ("i1", &["{}*", FM]),
        ("i1", &["[0 x i8]*", FM]),
        // nearly
        ("i8", &[VOIDS[3], FM]),
        ("", &[VOIDS[0], FM]),
        ("i1", &[FM]),
        ("i1", &[VOIDS[0], "i64", FM]),
        ("i1", &[VOIDS[3], FM, "i64"]),
        ("i1", &[VOIDS[3], "%\"core::fmt::Formatter\""]),
        ("i1", &[VOIDS[0], "%\"core::fmt::FormatterX\"*"]),
        ("i1", &["i64", FM]),
        ("i1", &[FM, VOIDS[0]]),
    ];
    ctx.explore(
        "formatter",
        0,
        |c| {
            let arch = if c.flag() { Arch::V7 } else { Arch::A64 };
            // the erased type, if any
            let void = c.pick(VOIDS.len() + 1);
            let other = c.pick(FMT.len() + 1);
            let two: Vec<(usize, Ty)> = (0..2).map(|k| (c.pick(FMT.len()), *c.of(if k == 0 { &TYS[..] } else { &[Ty::Define, Ty::Declare][..] }))).collect();
            // only one type is the erased one, and there are no functions for it; a type of the program's
            // own is it only if it is the only one
            let apart = |k: usize| k != void && k < if void < 3 { 3 } else { 5 };
            if void < VOIDS.len() && (two.iter().any(|x| apart(x.0)) || other < FMT.len() && apart(other)) {
                return None;
            }
            if other < 5 && void != 0 || void == 5 && (other < 8 || other == FMT.len()) || arch == Arch::V7 && (two[1].1 != Ty::Define || other != FMT.len()) {
                return None;
            }
            if !ctx.thorough && (other < 8 && two[0].1 != Ty::Define || other < FMT.len() && two[1] != (5, Ty::Define)) {
                return None;
            }
            Some((arch, void, other, two))
        },
        |w: &mut Worker, (arch, void, other, two)| {
            let mut calls = vec![];
            if *void < VOIDS.len() {
                calls.push(FMT[*void]);
            }
            if *other < FMT.len() {
                calls.push(FMT[*other]);
            }
            let mut fs = vec![f("caller", ("i64", &["i64", "i64", "i64"]), Ty::Define, &calls)];
            for (k, (s, ty)) in two.iter().enumerate() {
                fs.push(f(&format!("t{}", k), FMT[*s], *ty, &[]));
            }
            let erased = if *void < VOIDS.len() { Some(FMT[*void]) } else { None };
            let format = |t: Sig| t.0 == "i1" && t.1.len() == 2 && is_ptr(t.1[0]) && t.1[1] == FM;
            let (mut p, want) = build_with(*arch, &fs, &|t, s| if Some(s) == erased { format(t) } else { compatible(t, s) }, &|s| label(if Some(s) == erased { FMT[0] } else { s }));
            let r = p.run(w, &[]);
            want.judge(&r)?;
            Ok(r.brief())
        },
    );
    // what is passed, how the call is written and how the definitions spell their parameters
    ctx.explore(
        "values",
        if ctx.thorough { 4 } else { 3 },
        |c| {
            let a = c.dev(VALUES.len());
            let b = c.dev(VALUES.len() + 1);
            let call = c.dev(CALL.len());
            let p = c.dev(PARAM.len());
            let q = c.dev(PARAM.len());
            let declared = c.dev(2) == 1;
            let cb = c.dev(2) == 1;
            let arch = if c.dev(2) == 1 { Arch::V7 } else { Arch::A64 };
            if (PARAM[p] == "T" || PARAM[q] == "T") && !declared || (b == 0 && q > 0) {
                return None;
            }
            Some((arch, a, b, call, p, q, declared, cb))
        },
        |w: &mut Worker, &(arch, a, b, call, p, q, declared, cb)| {
            let mut args = vec![VALUES[a]];
            if b > 0 {
                args.push(VALUES[b - 1]);
            }
            let ty: Vec<&str> = args.iter().map(|x| x.0).collect();
            let mut prog = Prog::new(arch);
            let mut want = Want::new();
            want.exactness = true;
            let mut ll = String::new();
            for (k, n) in ["caller", "exact", "less", "more", "other", "swapped"].iter().enumerate() {
                prog.funs.push(Fun::new(arch, n, Some(8 + 8 * k as u64)));
                want.node(n, Some(8 + 8 * k as u64));
            }
            let mut swapped = ty.clone();
            swapped.reverse();
            let sigs: Vec<(&str, Vec<&str>)> =
                vec![("exact", ty.clone()), ("less", ty[1..].to_vec()), ("more", [&ty[..], &["i8"]].concat()), ("other", [&ty[1..], &["i128"]].concat()), ("swapped", swapped)];
            let fn_ty = format!("({})", ty.join(", "));
            let mut text: Vec<String> = vec![];
            text.push(format!("{} %f({})", CALL[call].replace("FN", &fn_ty), args.iter().map(|x| format!("{} {}", x.0, x.1)).collect::<Vec<_>>().join(", ")));
            if CALL[call].starts_with("invoke") {
                text[0].push_str("\n          to label %bb1 unwind label %cleanup");
            }
            let l = norm_sig(&format!("void {}*", fn_ty));
            want.dashed(&l);
            want.edge("caller", &l);
            for (n, sig) in &sigs {
                let ps: Vec<String> = sig
                    .iter()
                    .enumerate()
                    .map(|(k, t)| {
                        let form = PARAM[if k == 0 { p } else { q }];
                        // attributes of pointers say nothing about other types
                        let form = if form.len() > 12 && !is_ptr(t) { PARAM[0] } else { form };
                        form.replace('T', t).replace("%a", &format!("%a{}", k))
                    })
                    .collect();
                if declared && *n == "exact" {
                    let ps: Vec<String> = ps.iter().map(|x| x.split(" %").next().unwrap().to_string()).collect();
                    let ps: Vec<String> = sig.iter().zip(ps).map(|(t, x)| if t.starts_with('%') { t.to_string() } else { x }).collect();
                    ll.push_str(&declare("void", n, &ps.join(", ")));
                } else if cb && *n == "exact" {
                    prog.cb_ll.push_str(&define("void", n, &ps.join(", "), &[]));
                } else {
                    ll.push_str(&define("void", n, &ps.join(", "), &[]));
                }
                let one = |x: &str, y: &str| x == y || (is_ptr(x) && is_ptr(y) && (x == "ptr" || y == "ptr"));
                if sig.len() == ty.len() && sig.iter().zip(&ty).all(|(x, y)| one(x, y)) {
                    want.edge(&l, n);
                }
            }
            ll.push_str(&define("i64", "caller", "i64 %a0, i64 %a1", &text));
            prog.ll = ll;
            let r = prog.run(w, &[]);
            if ["addrspace", "cc10", "musttail"].iter().any(|x| CALL[call].contains(x)) && r.failed() {
                return Ok("fails loudly".into());
            }
            want.judge(&r)?;
            Ok(r.brief())
        },
    );
    if ctx.thorough {
        // candidates that call each other through pointers; every kind of type information
        run(ctx, "candidates-call", |c| {
            let mut fs = vec![];
            for k in 0..3 {
                let s = *c.of(&SMALL[..5]);
                let a = *c.of(&SMALL[..5]);
                let ty = *c.of(&[Ty::Define, Ty::Declare, Ty::None]);
                let calls: &[Sig] = if ty == Ty::Define { &[a] } else { &[] };
                if ty != Ty::Define && a != SMALL[0] {
                    return None;
                }
                fs.push(f(&format!("t{}", k), s, ty, calls));
            }
            Some((Arch::A64, fs))
        });
    }
    ctx.assume("signatures are compared up to 3 parameters; of the types to which callers erase what is formatted (`fmt::Void`, produced by compilers before opaque pointers only) a program has one");
    super::views::check(ctx, super::views::View::Pointers);
}
