//! C23: every distribution of the functions over application and compiler_builtins (IR, stack size
//! records, archive members) and every sequence of reports in the output of the build.
use super::expect::Want;
use crate::ctx::{fail, Ctx, Exec};
use crate::elf::{ar_with, Index};
use crate::ensure;
use crate::world::*;

/// where the IR of a function is
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ir {
    App,
    Cb,
    /// a body in compiler_builtins, a declaration in the application
    CbDeclared,
    /// a declaration in compiler_builtins, a body in the application
    AppDeclared,
    /// the application's own version, and a weak one in compiler_builtins
    Both,
    /// the same, with linkage left to the application's
    BothWeak,
    /// only declared
    Declared,
    DeclaredCb,
    None,
}
const IRS: &[Ir] = &[Ir::App, Ir::Cb, Ir::CbDeclared, Ir::AppDeclared, Ir::Both, Ir::BothWeak, Ir::Declared, Ir::DeclaredCb, Ir::None];

/// where the stack size record of a function is
#[derive(Clone, Copy, Debug, PartialEq)]
enum Rec {
    App,
    Member(usize),
    /// of the application's version, and of the one in compiler_builtins
    Both(usize),
    /// in a member that is no object of compiler_builtins
    Foreign(usize),
    None,
}
const RECS: &[Rec] = &[Rec::App, Rec::Member(0), Rec::Member(1), Rec::Member(2), Rec::Both(0), Rec::Both(2), Rec::Foreign(0), Rec::Foreign(1), Rec::Foreign(2), Rec::None];

/// names of members that belong to compiler_builtins
const OWN: &[&str] = &[
    "compiler_builtins-0123456789abcdef.compiler_builtins.0123456789abcdef-cgu.0.rcgu.o",
    "compiler_builtins-0123456789abcdef.compiler_builtins.0123456789abcdef-cgu.1.rcgu.o",
    "compiler_builtins-0123456789abcdef.2abc.rcgu.o",
    "compiler_builtins.o",
    "libcompiler_builtins-0123456789abcdef.a.o",
    "compiler_builtins-0123456789abcdef.compiler_builtins.0123456789abcdef-cgu.123.rcgu.o",
];
/// and of others
const FOREIGN: &[&str] = &["lib.rmeta", "compiler_builtins-0123456789abcdef.rcgu.obj", "builtins-0.o", "x.o", "compiler_builtins-0123456789abcdef.bc", "compiler_builtins.rmeta", "compiler_builtins.o.bc", "45c91108d938afe8-compiler-builtins.o"];

#[derive(Clone, Debug)]
struct Place {
    arch: Arch,
    ir: [Ir; 3],
    rec: [Rec; 3],
    /// main's IR: in the application, or in compiler_builtins
    main_in_cb: bool,
    live: bool,
    reverse: bool,
    index: bool,
    own: usize,
    foreign: usize,
    /// one more function of the same record in both
    callee_style: usize,
    names: usize,
}

/// symbols, and how they are shown
const NAMES: [[(&str, &str); 3]; 3] = [
    [("a", "a"), ("b", "b"), ("c", "c")],
    [("_ZN17compiler_builtins3mem6memcpy17h00000000000000a1E", "compiler_builtins::mem::memcpy"), ("__aeabi_b", "__aeabi_b"), ("memcpy", "memcpy")],
    [("memset", "memset"), ("_ZN17compiler_builtins3int4mul_17h00000000000000b2E", "compiler_builtins::int::mul_"), ("_ZN3app1c17h00000000000000c3E", "app::c")],
];

/// main -> a -> b -> c, and main calls a function pointer `void (i32)`, which b is
fn run_place(w: &mut crate::run::Worker, k: &Place) -> Exec {
    let a = k.arch;
    let sym = |i: usize| NAMES[k.names][i].0;
    let shown = |i: usize| NAMES[k.names][i].1;
    let mut p = Prog::new(a);
    for i in 0..3 {
        let mut f = Fun::new(a, sym(i), Some(8 << i));
        f.in_rlib = true; // placed by hand
        f.live = k.live || i < 2;
        p.funs.push(f);
    }
    for i in 0..2 {
        if p.funs[i + 1].live {
            p.funs[i] = p.funs[i].clone().calls(a, &[i + 1]);
        }
    }
    let mut m = Fun::new(a, "main", Some(4)).calls(a, &[0]);
    m.in_rlib = k.main_in_cb;
    p.funs.push(m);
    // IR
    let params = ["", "i32 %x", ""];
    let call = |n: usize| match (n, k.callee_style) {
        (1, 0) => format!("call void @{}(i32 0)", sym(1)),
        (1, 1) => format!("tail call fastcc void @{}(i32 noundef 7) #1, !dbg !7", sym(1)),
        (1, _) => format!("%z = tail call i32 @{}(i32 0), !dbg !7", sym(1)),
        (n, _) => format!("call void @{}()", sym(n)),
    };
    let ret = |n: usize| if n == 1 && k.callee_style == 2 { "i32" } else { "void" };
    let mut app = vec![];
    let mut cb = vec![];
    for i in 0..3 {
        let body = define(ret(i), sym(i), params[i], &if i < 2 && p.funs[i + 1].live { vec![call(i + 1)] } else { vec![] });
        let decl = declare(ret(i), sym(i), if params[i].is_empty() { "" } else { "i32" });
        match k.ir[i] {
            Ir::App => app.push(body),
            Ir::Cb => cb.push(body),
            Ir::CbDeclared => {
                cb.push(body);
                app.push(decl)
            }
            Ir::AppDeclared => {
                app.push(body);
                cb.push(decl)
            }
            Ir::Both | Ir::BothWeak => {
                // the linker takes the application's; what the other one calls may be gone
                let other = define(ret(i), sym(i), params[i], &["call void @gone()".into(), "call void %p(i64 0)".into(), "call void @main()".into()]);
                cb.push(other.replacen("define", if k.ir[i] == Ir::Both { "define weak hidden" } else { "define weak" }, 1));
                cb.push(if i == 0 { declare("void", "gone", "") } else { String::new() });
                app.push(if k.ir[i] == Ir::Both { body } else { body.replacen("define", "define weak", 1) });
            }
            Ir::Declared => app.push(decl),
            Ir::DeclaredCb => cb.push(decl),
            Ir::None => {}
        }
    }
    let main = define("void", "main", "", &[format!("call {} %p(i32 1)", ret(1)), format!("call void @{}()", sym(0))]);
    if k.main_in_cb {
        cb.push(main)
    } else {
        app.push(main)
    }
    if k.reverse {
        app.reverse();
        cb.reverse()
    }
    p.ll = app.concat();
    p.cb_ll = cb.concat();
    p.install(w);
    // records
    let entry = |f: &Fun| (f.obj_names.clone(), f.stack);
    let mut in_app = vec![];
    let mut own: Vec<Vec<_>> = vec![vec![]; 3];
    let mut foreign: Vec<Vec<_>> = vec![vec![]; 3];
    for i in 0..3 {
        match k.rec[i] {
            Rec::App => in_app.push(entry(&p.funs[i])),
            Rec::Member(j) => own[j].push(entry(&p.funs[i])),
            Rec::Both(j) => {
                in_app.push(entry(&p.funs[i]));
                own[j].push((p.funs[i].obj_names.clone(), Some(1000 + i as u64)));
            }
            Rec::Foreign(j) => foreign[j].push(entry(&p.funs[i])),
            Rec::None => {}
        }
    }
    (if k.main_in_cb { &mut own[1] } else { &mut in_app }).push(entry(&p.funs[3]));
    let mut members: Vec<(&str, Vec<u8>)> = vec![];
    for j in 0..3 {
        members.push((FOREIGN[(k.foreign + j) % FOREIGN.len()], object(a, &foreign[j])));
        // two members can have the same name
        let n = if k.own == OWN.len() { 0 } else { (k.own + j) % OWN.len() };
        members.push((OWN[n], object(a, &own[j])));
    }
    if k.reverse {
        members.reverse();
    }
    // of odd length, empty and no object at all
    members.push(("lib.rmeta", vec![7; 13]));
    members.push(("empty", vec![]));
    let d = format!("proj/target/{}/release/examples/app-0123456789abcdef.o", a.target());
    w.put(&d, &object(a, &in_app));
    w.put("cb/libcompiler_builtins.rlib", &ar_with(&members, if k.index { Index::Gnu(3) } else { Index::None }));
    let r = w.run(&["--example", "app", "--target", a.target()]);
    // expected
    let mut want = Want::new();
    want.exactness = true;
    let sig = format!("{}(i32)*", ret(1));
    want.node("main", Some(4)).dashed(&sig);
    for i in 0..3 {
        if p.funs[i].live {
            let known = a.thumb() || !matches!(k.rec[i], Rec::None | Rec::Foreign(_));
            want.node(shown(i), if known { Some(8 << i) } else { None });
        }
    }
    want.edge("main", shown(0));
    want.edge("main", &sig);
    for i in 0..2 {
        let body = !matches!(k.ir[i], Ir::Declared | Ir::DeclaredCb | Ir::None);
        if (body || a.thumb()) && p.funs[i + 1].live {
            want.edge(shown(i), shown(i + 1));
        }
    }
    if k.ir[1] != Ir::None {
        want.edge(&sig, shown(1));
    }
    if (0..3).any(|i| p.funs[i].live && k.ir[i] == Ir::None) {
        want.edge(&sig, "?");
    }
    let g = match r.graph() {
        Some(g) => g.clone(),
        None => return fail("no-graph", format!("{}; {:?}", r.brief(), k)),
    };
    if k.ir[1] == Ir::None && want.nodes[&sig].callees.is_empty() {
        return fail("engine", "a signature without candidates");
    }
    want.check(&g).map_err(|mut f| {
        f.msg = format!("{}; {}; {:?}", f.msg, r.brief(), k);
        f
    })?;
    Ok(r.brief())
}

/// lines of the build's output
const LINES: &[&str] = &[
    "@RLIB@A/lib.rlib",
    "@RLIB@B/lib.rlib",
    "@LL@A/cb.ll",
    "@LL@B/cb.ll",
    "   Compiling compiler_builtins v0.1.100",
    // reported by crates that are compiled before the library is complete
    "@RLIB@A/lib.rmeta",
    " @LL@B/cb.ll",
    "warning: @RLIB@B/lib.rlib",
    "",
];
/// the first six are the main alphabet
const MAIN: usize = 6;

pub fn check(ctx: &Ctx) {
    let archs: &[Arch] = &[Arch::V7, Arch::A64, Arch::X64, Arch::V6];
    let dev = |c: &mut crate::explore::Chooser, arch: Arch| {
        let mut k = Place {
            arch,
            ir: [Ir::Cb; 3],
            rec: [Rec::Member(0); 3],
            main_in_cb: false,
            live: true,
            reverse: c.dev(2) == 1,
            index: c.dev(2) == 1,
            own: c.dev(OWN.len() + 1),
            foreign: c.dev(FOREIGN.len()),
            callee_style: c.dev(3),
            names: c.dev(3),
        };
        k.main_in_cb = c.dev(2) == 1;
        k.live = c.dev(2) == 0;
        k
    };
    // where the IR is
    ctx.explore(
        "ir",
        if ctx.thorough { 3 } else { 1 },
        |c| {
            let a = if ctx.thorough { *c.of(archs) } else { *c.of(&archs[..2]) };
            let mut k = dev(c, a);
            k.ir = [*c.of(IRS), *c.of(IRS), *c.of(IRS)];
            for i in 0..3 {
                k.rec[i] = Rec::Member(i)
            }
            Some(k)
        },
        run_place,
    );
    // where the records are
    ctx.explore(
        "records",
        if ctx.thorough { 3 } else { 1 },
        |c| {
            let a = if ctx.thorough { *c.of(archs) } else { *c.of(&archs[1..3]) };
            let mut k = dev(c, a);
            k.rec = [*c.of(RECS), *c.of(RECS), *c.of(RECS)];
            Some(k)
        },
        run_place,
    );
    // reports
    let n = if ctx.thorough { 5 } else { 3 };
    ctx.explore(
        "reports",
        if ctx.thorough { 3 } else { 1 },
        |c| {
            let k = c.pick(n + 1);
            let v: Vec<usize> = (0..k)
                .map(|_| {
                    let i = c.pick(MAIN + 1);
                    if i < MAIN {
                        i
                    } else {
                        MAIN + c.pick(LINES.len() - MAIN)
                    }
                })
                .collect();
            // departures: no line feed at the end, the build fails, an old file is still there
            Some((v, *c.dev_of(archs), c.dev(2) == 1, c.dev(2) == 1, c.dev(2) == 1))
        },
        |w, (v, arch, open, bad, fails)| {
            let a = *arch;
            w.put("cargo.rc", if *fails { b"101" } else { b"0" });
            let mut p = Prog::new(a);
            for (n, s) in [("x", 8), ("y", 16)] {
                p.funs.push(Fun::new(a, n, Some(s)));
            }
            // called according to compiler_builtins' IR, sized according to its library
            let mut m = Fun::new(a, "main", Some(4));
            if a.thumb() {
                // with a loop: the machine code does not tell the size
                m.ops = vec![Op::Raw(vec![0xfe, 0xd1, 0x70, 0x47])];
            }
            p.funs.push(m);
            p.ll = format!("{}{}", void_fn("x", &[]), void_fn("y", &[]));
            p.install(w);
            let d = format!("proj/target/{}/release/examples/app-0123456789abcdef.o", a.target());
            w.put(&d, &object(a, &[(vec!["x".into()], Some(8)), (vec!["y".into()], Some(16))]));
            for (f, s, callee) in [("A", 32u64, "x"), ("B", 64, "y")] {
                w.put(&format!("cb{}/lib.rlib", f), &ar_with(&[(OWN[0], object(a, &[(vec!["main".into()], Some(if a.thumb() { 0 } else { s }))]))], Index::None));
                w.put(&format!("cb{}/cb.ll", f), ir_file(&void_fn("main", &[callee])).as_bytes());
                w.put(&format!("cb{}/lib.rmeta", f), b"metadata");
            }
            if *bad {
                w.put("cbB/lib.rlib", b"no archive");
                w.put("cbB/cb.ll", b"no IR");
            }
            let root = w.root.display().to_string();
            let mut text: String = v
                .iter()
                .map(|i| LINES[*i].replace("@RLIB@", &format!("@CARGO_CALL_STACK:compiler_builtins_rlib_path@{}/cb", root)).replace("@LL@", &format!("@CARGO_CALL_STACK:compiler_builtins_ll_path@{}/cb", root)) + "\n")
                .collect();
            if *open {
                text.pop();
            }
            w.put("cargo.err", text.as_bytes());
            // files of an earlier build: not reported
            w.put("cb/cb.ll", ir_file(&void_fn("main", &["x", "y"])).as_bytes());
            let r = w.run(&["--example", "app", "--target", a.target()]);
            let rlib = v.iter().rev().find(|i| [0, 1, 5].contains(*i));
            let ll = v.iter().rev().find(|i| [2, 3].contains(*i));
            w.put("cargo.rc", b"0");
            let ok = !fails && matches!(rlib, Some(0) | Some(1)) && ll.is_some() && !(*bad && (rlib == Some(&1) || ll == Some(&3)));
            if !ok {
                ensure!(r.failed() && r.stdout.is_empty(), "accepted", "reports {:?} (bad: {}, build fails: {}): {}", v, bad, fails, r.brief());
                return Ok(r.brief());
            }
            let mut want = Want::new();
            want.node("x", Some(8)).node("y", Some(16));
            want.node("main", Some(if a.thumb() { 0 } else if rlib == Some(&0) { 32 } else { 64 }));
            want.edge("main", if ll == Some(&2) { "x" } else { "y" });
            want.judge(&r).map_err(|mut f| {
                f.msg = format!("{}; reports {:?}: {}", f.msg, v, r.brief());
                f
            })?;
            // what is no report is shown to the user
            for i in v {
                if ![0, 1, 2, 3, 5].contains(i) {
                    ensure!(LINES[*i].is_empty() || r.stderr.contains(LINES[*i].split('@').next().unwrap()), "stderr", "{:?} is missing: {:?}", LINES[*i], r.stderr);
                }
            }
            Ok(r.brief())
        },
    );
    super::views::check(ctx, super::views::View::Builtins);
}
