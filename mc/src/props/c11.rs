//! C11: every combination of the size reported by the compiler, what the machine code does, inline
//! assembly and outlining, for one and two functions.
use super::expect::Want;
use crate::ctx::{fail, Ctx, Exec};
use crate::run::{Run, Worker};
use crate::world::*;

/// machine code: bytes it uses if it is straight-line code, whether it moves SP at all
#[derive(Clone, Copy, Debug, PartialEq)]
struct Code {
    name: &'static str,
    /// Some: straight-line, exactly this many bytes
    stack: Option<u64>,
    modifies: bool,
    hws: &'static [u16],
    v7: bool,
}

const CODES: &[Code] = &[
    Code { name: "nothing", stack: Some(0), modifies: false, hws: &[0x4770], v7: false },
    Code { name: "some work", stack: Some(0), modifies: false, hws: &[0x2001, 0x4770], v7: false },
    Code { name: "push 4", stack: Some(4), modifies: true, hws: &[0xb410, 0xbc10, 0x4770], v7: false },
    Code { name: "push 8", stack: Some(8), modifies: true, hws: &[0xb410, 0xb081, 0xb001, 0xbc10, 0x4770], v7: false },
    Code { name: "sub 16", stack: Some(16), modifies: true, hws: &[0xb084, 0xb004, 0x4770], v7: false },
    Code { name: "sub 512", stack: Some(512), modifies: true, hws: &[0xb0ff, 0xb081, 0x4770], v7: false },
    Code { name: "wide push 24", stack: Some(24), modifies: true, hws: &[0xe92d, 0x41f0, 0xe8bd, 0x81f0], v7: true },
    Code { name: "loop", stack: None, modifies: false, hws: &[0xd1fe, 0x4770], v7: false },
    Code { name: "loop with frame", stack: None, modifies: true, hws: &[0xb082, 0xd1fe, 0xb002, 0x4770], v7: false },
    Code { name: "dynamic", stack: None, modifies: true, hws: &[0xb580, 0x4685, 0x46bd, 0xbd80], v7: false },
    Code { name: "wide loop", stack: None, modifies: false, hws: &[0xf47f, 0xaffe, 0x4770], v7: true },
    Code { name: "table", stack: None, modifies: true, hws: &[0xb410, 0xe8df, 0xf000, 0x0201, 0xbc10, 0x4770], v7: true },
];

const LLVM: &[Option<u64>] = &[None, Some(0), Some(4), Some(8), Some(16), Some(24), Some(512)];

/// symbol, is it one of the outliner's
const NAMES: &[(&str, bool)] = &[
    ("f", false),
    ("OUTLINED_FUNCTION_0", true),
    ("OUTLINED_FUNCTION_12", true),
    ("OUTLINED_FUNCTION_", false),
    ("OUTLINED_FUNCTION_x", false),
    ("OUTLINED_FUNCTION_1x", false),
    ("MY_OUTLINED_FUNCTION_0", false),
    ("_ZN4core3fmt1f17h0123456789abcdefE", false),
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Asm {
    /// IR without inline assembly
    No,
    Yes,
    /// result-producing form, after another statement
    Value,
    /// in another function only
    Elsewhere,
    /// the IR body is given under an alias of the function
    UnderAlias,
    /// the IR body is compiler_builtins'
    InCb,
    /// no IR
    NoIr,
}
const ASMS: &[Asm] = &[Asm::No, Asm::Yes, Asm::Value, Asm::Elsewhere, Asm::UnderAlias, Asm::InCb, Asm::NoIr];

#[derive(Clone, Copy, Debug)]
struct Case {
    arch: Arch,
    target: Option<&'static str>,
    code: usize,
    llvm: Option<u64>,
    name: usize,
    asm: Asm,
    /// how the function gets called
    by_asm_caller: bool,
    /// the record lives in compiler_builtins' library
    in_rlib: bool,
    start: bool,
    top: bool,
}

/// None: the analysis has to fail
fn verdict(arch: Arch, code: &Code, llvm: Option<u64>, asm: bool, outlined: bool) -> Option<Option<u64>> {
    if !arch.thumb() {
        return Some(llvm);
    }
    match (llvm, code.stack) {
        (None, Some(s)) => Some(Some(s)),
        (None, None) => Some(if code.modifies { None } else { Some(0) }),
        (Some(l), Some(s)) if l == s => Some(Some(l)),
        (Some(_), Some(s)) if asm => Some(Some(s)),
        (Some(0), Some(s)) if outlined => Some(Some(s)),
        (Some(_), Some(_)) => None,
        (Some(l), None) if (l != 0) == code.modifies => Some(Some(l)),
        (Some(_), None) => None,
    }
}

const ASM: &str = "call void asm sideeffect \"push {r4}\", \"~{memory}\"() #5, !srcloc !3";
const ASMV: &str = "%r = tail call i32 asm sideeffect alignstack \"mov $0, sp\", \"=r\"() #5";

fn judge(r: &Run, want: &Want, v: &[(String, Option<Option<u64>>)], top: bool, d: &str) -> Exec {
    let contradiction = v.iter().find(|x| x.1.is_none());
    match contradiction {
        Some(c) => {
            if r.failed() && !String::from_utf8_lossy(&r.stdout).contains("digraph") && !String::from_utf8_lossy(&r.stdout).contains("Usage") {
                Ok(format!("fails {:?}", v))
            } else {
                fail("contradiction", format!("{} contradicts the machine code, but: {}; {}", c.0, r.brief(), d))
            }
        }
        None if top => {
            if r.failed() || r.graph().is_some() {
                return fail("no-answer", format!("{}; {}", r.brief(), d));
            }
            let out = String::from_utf8_lossy(&r.stdout).into_owned();
            for (n, l) in v {
                let line = format!("{} {}", l.unwrap().unwrap_or(0), n);
                if !out.lines().any(|x| x == line) {
                    return fail("local", format!("no line {:?} in {:?}; {}", line, out, d));
                }
            }
            Ok(format!("top {:?}", v))
        }
        None => {
            want.judge(r).map_err(|mut f| {
                f.msg = format!("{}; {}", f.msg, d);
                f
            })?;
            Ok(format!("{:?}", v))
        }
    }
}

fn label(name: &str) -> &str {
    if name.starts_with("_ZN") {
        "core::fmt::f"
    } else {
        name
    }
}

fn single(w: &mut Worker, k: &Case) -> Exec {
    let a = k.arch;
    let code = CODES[k.code];
    let (name, outlined) = NAMES[k.name];
    let mut p = Prog::new(a);
    p.target = k.target;
    let mut f = Fun::new(a, name, k.llvm);
    if a.thumb() {
        f.ops = code.hws.iter().map(|h| Op::Raw(h.to_le_bytes().to_vec())).collect();
    }
    f.in_rlib = k.in_rlib;
    let mut st = vec!["%x = add i32 1, 2".to_string()];
    match k.asm {
        Asm::Yes | Asm::UnderAlias | Asm::InCb => st.push(ASM.into()),
        Asm::Value => st.push(ASMV.into()),
        _ => {}
    }
    let mut mainst = vec![];
    let callee = if k.asm == Asm::UnderAlias { "g_alias" } else { name };
    if k.asm != Asm::NoIr {
        mainst.push(format!("call void @{}() #0", callee));
    }
    match k.asm {
        Asm::UnderAlias => {
            f.names.push(("g_alias".into(), crate::elf::FUNC));
            p.ll.push_str(&define("void", "g_alias", "", &st));
        }
        Asm::InCb => {
            p.ll.push_str(&declare("void", name, ""));
            p.cb_ll.push_str(&define("void", name, "", &st));
        }
        Asm::NoIr => {}
        _ => p.ll.push_str(&define("void", name, "", &st)),
    }
    let asm = matches!(k.asm, Asm::Yes | Asm::Value | Asm::UnderAlias | Asm::InCb);
    p.funs.push(f);
    let mut m = Fun::new(a, "main", Some(8));
    if a.thumb() {
        m.ops = body(a, 8, &[0]);
    } else {
        m.ops = vec![Op::Raw(a.ret())];
    }
    if k.asm == Asm::Elsewhere || k.by_asm_caller {
        // agrees with the machine code
        mainst.push("call void asm sideeffect \"nop\", \"\"()".into());
    }
    p.ll.push_str(&define("void", "main", "", &mainst));
    p.funs.push(m);
    let v = verdict(a, &code, k.llvm, asm, outlined);
    let mut args = vec![];
    if k.top {
        args.extend(["--format", "top"]);
    }
    if k.start {
        args.push("main");
    }
    let r = p.run(w, &args);
    let d = format!("{:?} {:?}", code.name, k);
    let mut want = Want::new();
    let has_call = a.thumb() || k.asm != Asm::NoIr;
    want.node("main", Some(8));
    if has_call || !k.start {
        want.node(label(name), v.unwrap_or(None));
    }
    if has_call {
        want.edge("main", label(name));
    }
    want.exactness = true;
    let mut vs = vec![("main".to_string(), Some(Some(8)))];
    if has_call || !k.start || v.is_none() {
        vs.push((label(name).to_string(), v));
    }
    judge(&r, &want, &vs, k.top, &d)
}

pub fn check(ctx: &Ctx) {
    let thorough = ctx.thorough;
    ctx.explore(
        "table",
        if thorough { 3 } else { 1 },
        |c| {
            let (arch, target) = *c.of(&[(Arch::V7, None), (Arch::V6, None), (Arch::A64, None), (Arch::X64, None)]);
            let code = c.pick(if arch.thumb() { CODES.len() } else { 2 });
            if arch == Arch::V6 && CODES[code].v7 {
                return None;
            }
            let llvm = *c.of(LLVM);
            let name = c.pick(if thorough { NAMES.len() } else { 4 });
            let asm = *c.of(ASMS);
            let target = if arch == Arch::V7 { *c.dev_of(&[target, Some("thumbv7em-none-eabi"), Some("thumbv7em-none-eabihf")]) } else { target };
            let by_asm_caller = c.dev(2) == 1;
            let in_rlib = c.dev(2) == 1;
            let start = c.dev(2) == 1;
            let top = c.dev(2) == 1;
            Some(Case { arch, target, code, llvm, name, asm, by_asm_caller, in_rlib, start, top })
        },
        |w, k| single(w, k),
    );
    // the remaining names, on their own
    ctx.explore(
        "names",
        0,
        |c| {
            let arch = *c.of(&[Arch::V6, Arch::V7]);
            let code = c.pick(CODES.len());
            if arch == Arch::V6 && CODES[code].v7 {
                return None;
            }
            let llvm = *c.of(LLVM);
            let name = c.pick(NAMES.len());
            let asm = *c.of(&[Asm::No, Asm::Yes, Asm::NoIr]);
            Some(Case { arch, target: None, code, llvm, name, asm, by_asm_caller: false, in_rlib: false, start: false, top: false })
        },
        |w, k| single(w, k),
    );
    // two functions next to each other: what one of them is given must not excuse the other
    ctx.explore(
        "pairs",
        0,
        |c| {
            let arch = *c.of(&[Arch::V6, Arch::V7]);
            let codes = [0usize, 2, 3, 7, 8, 9];
            let llvms = [None, Some(0), Some(4), Some(8)];
            let f = |c: &mut crate::explore::Chooser| (*c.of(&codes), *c.of(&llvms), c.pick(3));
            let x = f(c);
            let y = f(c);
            Some((arch, [x, y], c.flag()))
        },
        |w, &(arch, fs, chain)| {
            let mut p = Prog::new(arch);
            let mut want = Want::new();
            let mut vs = vec![];
            for (i, (code, llvm, kind)) in fs.iter().enumerate() {
                let code = CODES[*code];
                let name = if *kind == 2 { format!("OUTLINED_FUNCTION_{}", i) } else { format!("f{}", i) };
                let mut f = Fun::new(arch, &name, *llvm);
                f.ops = code.hws.iter().map(|h| Op::Raw(h.to_le_bytes().to_vec())).collect();
                p.funs.push(f);
                let mut st = vec![];
                if *kind == 1 {
                    st.push(ASM.to_string());
                }
                if *kind != 2 {
                    p.ll.push_str(&define("void", &name, "", &st));
                }
                let v = verdict(arch, &code, *llvm, *kind == 1, *kind == 2);
                want.node(&name, v.unwrap_or(None));
                vs.push((name, v));
            }
            // somebody whose size is known
            p.funs.push(Fun::new(arch, "main", Some(8)));
            p.funs[2].ops = body(arch, 8, if chain { &[0, 1] } else { &[1] });
            p.ll.push_str(&define("void", "main", "", &[]));
            want.node("main", Some(8));
            let n: Vec<String> = vs.iter().map(|v| v.0.clone()).collect();
            want.edge("main", &n[1]);
            if chain {
                want.edge("main", &n[0]);
            }
            want.exactness = true;
            vs.push(("main".into(), Some(Some(8))));
            let r = p.run(w, &[]);
            judge(&r, &want, &vs, false, &format!("{:?}", fs))
        },
    );
    ctx.assume("code whose deepest stack differs from the sum of its pushes is left to C10");
    super::views::check(ctx, super::views::View::Record);
}
