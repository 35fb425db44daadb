//! C28: programs that combine features. A program is a base of a few functions with deviations, one
//! per feature; all combinations within a deviation budget are analyzed, and the complete graph is
//! compared with that of a reference analysis of the abstract program.
use super::c16::compare_top;
use super::expect::norm_sig;
use crate::ctx::{fail, Ctx, Exec};
use crate::elf;
use crate::ensure;
use crate::explore::Chooser;
use crate::model::stack::{CallGraph, Count};
use crate::run::Worker;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub(super) enum St {
    Call(String),
    Invoke(String),
    Bitcast(String),
    /// through a pointer to a function with this parameter ("" is none)
    Pointer(&'static str),
    Asm,
    Memcpy,
    Hint(&'static str),
}

/// code at one address
#[derive(Clone, Debug, Default)]
pub(super) struct Code {
    pub(super) names: Vec<String>,
    /// record of the compiler
    pub(super) rec: Option<u64>,
    /// what the (Thumb) machine code uses
    pub(super) uses: u64,
    pub(super) branchy: bool,
    pub(super) dead: bool,
    pub(super) no_size: bool,
    /// definitions in the IR: name, parameter, in compiler_builtins
    pub(super) defs: Vec<(String, &'static str, bool)>,
    pub(super) decls: Vec<(String, &'static str)>,
    pub(super) st: Vec<St>,
    /// called by the machine code only
    pub(super) bl: Vec<usize>,
    pub(super) blx: bool,
    pub(super) in_rlib: bool,
}

#[derive(Clone, Debug)]
pub(super) struct Program {
    pub(super) arch: Arch,
    pub(super) code: Vec<Code>,
    pub(super) undef: Vec<String>,
    pub(super) extra_ir: String,
    pub(super) start: Option<String>,
    pub(super) verbose: bool,
    pub(super) top: bool,
    pub(super) reverse_symbols: bool,
    pub(super) reverse_records: bool,
    /// the features that differ from the plain program
    pub(super) features: Vec<&'static str>,
}

fn code(name: &str, bytes: u64, st: &[St]) -> Code {
    Code { names: vec![name.into()], rec: Some(bytes), uses: bytes, defs: vec![(name.into(), "", false)], st: st.to_vec(), ..Default::default() }
}

pub(super) fn bare(sym: &str) -> &str {
    sym.split('@').next().unwrap()
}

const MANGLED: &[(&str, &str, &str)] = &[
    // symbol, full name, short name
    ("_ZN3lib1a17h00000000000000a1E", "lib::a::h00000000000000a1", "lib::a"),
    ("_ZN3lib1b17h00000000000000b2E", "lib::b::h00000000000000b2", "lib::b"),
    ("_ZN3lib1a17h00000000000000b3E", "lib::a::h00000000000000b3", "lib::a"),
    ("_ZN3lib1a17h00000000000000c4E", "lib::a::h00000000000000c4", "lib::a"),
    ("_ZN3lib1b17h00000000000000b2E.llvm.99", "lib::b::h00000000000000b2", "lib::b"),
    ("_ZN17compiler_builtins3mem1a17h00000000000000d5E", "compiler_builtins::mem::a::h00000000000000d5", "compiler_builtins::mem::a"),
];

pub(super) fn forms(sym: &str) -> (String, String) {
    let s = bare(sym);
    MANGLED.iter().find(|m| m.0 == s).map(|m| (m.1.to_string(), m.2.to_string())).unwrap_or((s.to_string(), s.to_string()))
}

pub(super) fn generate(c: &mut Chooser, arch: Arch) -> Option<Program> {
    let mut features: Vec<&'static str> = vec![];
    let mut d = |c: &mut Chooser, feature: &'static str, n: usize| {
        let k = c.dev(n);
        if k > 0 {
            features.push(feature);
        }
        k
    };
    // names
    let names = d(c, "names", 6);
    let a = match names {
        0 | 4 => "a",
        5 => MANGLED[5].0,
        _ => MANGLED[0].0,
    }
    .to_string();
    let b = match names {
        0 => "b",
        1 => MANGLED[1].0,
        2 => MANGLED[2].0,
        3 => "b",
        5 => "__aeabi_b",
        _ => MANGLED[4].0,
    }
    .to_string();
    let ext = if names == 3 { MANGLED[3].0 } else { "ext" }.to_string();
    let (wm, wa, wb, wc) = [(8, 16, 24, 32), (0, 0, 0, 0), (8, 0, 400, 4), (1000, 8, 0, 2000)][d(c, "weights", 4)];

    let mut p = Program { arch, code: vec![], undef: vec![], extra_ir: String::new(), start: None, verbose: false, top: false, reverse_symbols: false, reverse_records: false, features: vec![] };
    p.code.push(code("main", wm, &[]));
    p.code.push(code(&a, wa, &[]));
    p.code.push(code(&b, wb, &[]));
    p.code.push(code("c", wc, &[]));
    p.code[3].defs[0].1 = "i32";

    // how main calls a
    match d(c, "call", 4) {
        1 => p.code[0].st.push(St::Invoke(a.clone())),
        2 => p.code[0].st.push(St::Bitcast(a.clone())),
        3 => p.code[0].st.extend([St::Call(a.clone()), St::Call(a.clone())]),
        _ => p.code[0].st.push(St::Call(a.clone())),
    }
    let alias = d(c, "alias", 6);
    if alias > 0 && alias != 5 && names > 1 {
        return None; // which of the names counts is not part of the result
    }
    p.code[1].st.push(St::Call(if alias == 1 || alias == 2 { "b2".into() } else { b.clone() }));
    match alias {
        1 => p.code[2].names.push("b2".into()),
        2 => p.code[2].names.insert(0, "b2".into()),
        3 => {
            // folded with a function of another signature
            p.code[1].names.push("a_i8".into());
            p.code[1].defs.push(("a_i8".into(), "i8", false));
        }
        4 => {
            p.code[3].names.push("c2".into());
            p.code[3].defs.clear();
            p.code[3].decls.push(("c2".into(), "i32"));
        }
        5 => {
            // an alias that nobody uses, of the function where it starts
            p.code[0].names.push("_start".into());
        }
        _ => {}
    }
    // recursion
    match d(c, "recursion", 6) {
        1 => p.code[2].st.push(St::Call(a.clone())),
        2 => p.code[1].st.push(St::Call(a.clone())),
        3 => p.code[2].st.push(St::Call("main".into())),
        4 => p.code[3].st.push(St::Call("main".into())),
        5 => p.code[2].st.push(St::Call(b.clone())),
        _ => {}
    }
    // function pointers
    match d(c, "pointers", 8) {
        1 => p.code[0].st.push(St::Pointer("i32")),
        2 => p.code[1].st.insert(0, St::Pointer("i32")),
        3 => p.code[2].st.push(St::Pointer("i8")),
        4 => p.code[3].st.push(St::Pointer("i32")),
        5 => {
            p.code[0].st.push(St::Pointer("i32"));
            p.code[2].st.push(St::Pointer("i32"));
        }
        6 => p.code[0].st.push(St::Pointer("")),
        7 => p.code[2].st.extend([St::Pointer(""), St::Pointer("i32"), St::Pointer("i8")]),
        _ => {}
    }
    match d(c, "candidates", 4) {
        1 => {
            let n = p.code[3].names[0].clone();
            p.code[3].defs.clear();
            p.code[3].decls.push((n, "i32"));
            p.code[3].st.clear();
        }
        2 => p.code[3].dead = true,
        3 => {
            let mut e = code("e", 40, &[]);
            e.defs[0].1 = "i32";
            p.code.push(e);
        }
        _ => {}
    }
    if p.code[3].defs.is_empty() {
        p.code[3].st.clear();
    }
    // unknown sizes
    match d(c, "sizes", 9) {
        0 => {}
        k @ 1..=3 => {
            let x = &mut p.code[k];
            x.rec = None;
            x.branchy = true;
            if x.uses == 0 {
                x.uses = 4;
            }
        }
        // no record, but nothing touches the stack
        k @ 4..=6 => {
            let x = &mut p.code[k - 3];
            x.rec = None;
            x.branchy = true;
            x.uses = 0;
        }
        7 => {
            p.code[1].rec = None;
            p.code[3].rec = None;
        }
        _ => {
            // loops everywhere
            for x in &mut p.code {
                x.branchy = true;
            }
        }
    }
    // compiler_builtins
    let cb: &[usize] = [&[][..], &[2], &[3], &[1, 2], &[3, 1]][d(c, "builtins", 5)];
    for &i in cb {
        p.code[i].in_rlib = true;
        for d in &mut p.code[i].defs {
            d.2 = true;
        }
    }
    // code without IR
    match d(c, "blob", 5) {
        0 => {}
        k => {
            let mut x = Code { names: vec!["blob".into()], ..Default::default() };
            match k {
                2 => x.bl = vec![1],
                3 => {
                    x.blx = true;
                    x.decls.push(("blob".into(), ""));
                    p.code[2].st.push(St::Call("blob".into()));
                }
                4 => {
                    x.decls.push(("blob".into(), "i32"));
                    x.bl = vec![0, 2];
                }
                _ => {}
            }
            p.code.push(x);
        }
    }
    // undefined functions
    let undef = d(c, "undefined", 5);
    if names == 3 && undef == 0 {
        return None; // as names == 1
    }
    if undef > 0 {
        p.undef.push(format!("{}{}", ext, ["", "", "@@V1", "@V1.2", ""][undef]));
        p.extra_ir.push_str(&declare("void", &ext, ""));
        match undef {
            3 => {
                p.code[0].st.push(St::Call(ext.clone()));
                p.code[2].st.push(St::Call(ext.clone()));
            }
            4 => p.code[1].st.insert(0, St::Bitcast(ext.clone())),
            _ => p.code[2].st.push(St::Call(ext.clone())),
        }
    }
    // memory routines
    match d(c, "memory", 4) {
        1 => {
            p.code[1].st.insert(0, St::Memcpy);
            let mut m = code("memcpy", 48, &[]);
            m.defs[0].2 = true;
            m.in_rlib = true;
            p.code.push(m);
            let k = p.code.len() - 1;
            p.code[1].bl.push(k);
        }
        2 => {
            p.code[0].st.push(St::Memcpy);
            p.code[2].st.insert(0, St::Memcpy);
            p.undef.push("memcpy".into());
        }
        3 => p.code[2].st.push(St::Memcpy),
        _ => {}
    }
    // what the linker removed
    match d(c, "removed", 3) {
        1 => {
            let mut d = code("dead", 4096, &[St::Call(a.clone()), St::Call("gone".into()), St::Pointer("i64"), St::Pointer("i32")]);
            d.dead = true;
            p.code.push(d);
        }
        2 => {
            let mut d = code("dead", 4096, &[St::Call(b.clone())]);
            d.dead = true;
            d.in_rlib = true;
            d.defs[0].2 = true;
            d.defs[0].1 = "i32";
            p.code.push(d);
        }
        _ => {}
    }
    // inline assembly
    match d(c, "asm", 3) {
        1 => {
            if p.code[1].branchy && p.code[1].rec == Some(0) {
                return None; // a contradiction (C11)
            }
            p.code[1].st.push(St::Asm);
            p.code[1].uses += 8;
        }
        2 => p.code[2].st.insert(0, St::Asm),
        _ => {}
    }
    if d(c, "outlined", 2) == 1 {
        let mut o = Code { names: vec!["OUTLINED_FUNCTION_0".into()], rec: Some(0), uses: 8, ..Default::default() };
        o.st.clear();
        p.code.push(o);
        let k = p.code.len() - 1;
        p.code[1].bl.push(k);
        p.code[2].bl.push(k);
    }
    match d(c, "order", 4) {
        1 => p.reverse_symbols = true,
        2 => p.reverse_records = true,
        3 => {
            p.code.rotate_left(1);
            // (the indices in `bl` move along)
            let n = p.code.len();
            for x in &mut p.code {
                for t in &mut x.bl {
                    *t = (*t + n - 1) % n;
                }
            }
        }
        _ => {}
    }
    match d(c, "symbol-size", 3) {
        1 => {
            if let Some(x) = p.code.iter_mut().find(|x| x.names.contains(&b)) {
                x.no_size = true;
            }
        }
        2 => {
            for x in &mut p.code {
                x.no_size = true;
            }
        }
        _ => {}
    }
    // statements and items that do not matter
    match d(c, "around", 3) {
        1 => {
            for x in &mut p.code {
                if !x.defs.is_empty() {
                    x.st.insert(0, St::Hint("call void @llvm.dbg.value(metadata i32 %x, metadata !1, metadata !DIExpression()), !dbg !2"));
                    x.st.push(St::Hint("call void @llvm.lifetime.end.p0(i64 8, ptr nonnull %y)"));
                }
            }
        }
        2 => p.extra_ir.push_str("@vtable.0 = private unnamed_addr constant <{ ptr, ptr }> <{ ptr @main, ptr @c }>, align 4\n\n@al = alias void (), ptr @main\n\n; a comment\ndeclare void @nothing(i32) #0\n\n"),
        _ => {}
    }
    let short = |s: &str| forms(s).1;
    p.start = match d(c, "start", 9) {
        1 => Some("main".into()),
        2 => Some(short(&a)),
        3 => Some(short(&b)),
        4 => Some("b2".into()),
        5 => Some("nowhere".into()),
        6 => Some("c".into()),
        7 => Some(a.clone()),
        8 => Some("ext".into()),
        _ => None,
    };
    match d(c, "format", 3) {
        1 => p.top = true,
        2 => p.verbose = true,
        _ => {}
    }
    p.features = features;
    Some(p)
}

fn stack_ops(arch: Arch, x: &Code, code: &[Code]) -> Vec<Op> {
    if !arch.thumb() {
        return vec![Op::Raw(arch.ret())];
    }
    let mut calls: Vec<usize> = x.bl.clone();
    for s in &x.st {
        if let St::Call(n) | St::Invoke(n) | St::Bitcast(n) = s {
            if let Some(k) = code.iter().position(|y| !y.dead && y.names.contains(n)) {
                calls.push(k);
            }
        }
    }
    let mut v = body(arch, x.uses, &calls);
    if x.branchy {
        let at = v.len() - 1;
        v.insert(at, Op::Raw(vec![0xfe, 0xd1])); // bne .
    }
    if x.blx {
        let at = v.len() - 1;
        v.insert(at, Op::Raw(vec![0x98, 0x47])); // blx r3
    }
    v
}

fn text(s: &St, k: usize) -> String {
    match s {
        St::Call(n) => format!("call void @{}() #1", ir_name(n)),
        St::Invoke(n) => format!("invoke void @{}()\n          to label %bb{} unwind label %cleanup", ir_name(n), k),
        St::Bitcast(n) => format!("call void bitcast (void ()* @{} to void ()*)()", ir_name(n)),
        St::Pointer(t) => format!("call void %f{}({}) #1", k, if t.is_empty() { String::new() } else { format!("{} 1", t) }),
        St::Asm => "call void asm sideeffect \"nop\", \"~{memory}\"() #1, !srcloc !3".into(),
        St::Memcpy => "call void @llvm.memcpy.p0.p0.i32(ptr align 4 %d, ptr align 4 %s, i32 64, i1 false)".into(),
        St::Hint(t) => t.to_string(),
    }
}

pub(super) fn realize(p: &Program) -> Prog {
    let mut q = Prog::new(p.arch);
    for x in &p.code {
        let mut f = Fun::new(p.arch, &x.names[0], x.rec);
        f.names = x.names.iter().map(|n| (n.clone(), elf::FUNC)).collect();
        f.obj_names = x.names.clone();
        f.in_rlib = x.in_rlib;
        f.live = !x.dead;
        f.ops = stack_ops(p.arch, x, &p.code);
        if x.no_size {
            f.size = Some(0);
        }
        q.funs.push(f);
        let st: Vec<String> = x.st.iter().enumerate().map(|(k, s)| text(s, k)).collect();
        for (n, t, cb) in &x.defs {
            let params = if t.is_empty() { String::new() } else { format!("{} %x", t) };
            let d = define("void", &ir_name(n), &params, &st);
            if *cb {
                q.cb_ll.push_str(&d);
            } else {
                q.ll.push_str(&d);
            }
        }
        for (n, t) in &x.decls {
            q.ll.push_str(&declare("void", &ir_name(n), t));
        }
    }
    q.ll.push_str(&p.extra_ir);
    q.undef = p.undef.clone();
    let n = q.funs.len();
    if p.reverse_symbols {
        q.sym_order = Some((0..n).rev().collect());
    }
    if p.reverse_records {
        q.obj_order = Some((0..n).rev().collect());
    }
    q
}

/// The reference analysis. Nodes are named by the first name of the code, undefined functions by
/// their name, function pointers by their label, unknown code by `?`.
pub(super) struct Expected {
    pub(super) local: BTreeMap<String, Option<u64>>,
    pub(super) succ: BTreeMap<String, BTreeSet<String>>,
    pub(super) dashed: BTreeSet<String>,
}

pub(super) fn analyze(p: &Program) -> Expected {
    let thumb = p.arch.thumb();
    let live: Vec<&Code> = p.code.iter().filter(|x| !x.dead).collect();
    let find = |n: &str| live.iter().find(|x| x.names.iter().any(|m| m == n)).map(|x| x.names[0].clone());
    let undefined = |n: &str| p.undef.iter().any(|u| bare(u) == n);
    let mut e = Expected { local: BTreeMap::new(), succ: BTreeMap::new(), dashed: BTreeSet::new() };
    let untyped = live.iter().any(|x| x.defs.is_empty() && x.decls.is_empty() && x.names[0] != "OUTLINED_FUNCTION_0");
    let mut pointers: BTreeSet<&'static str> = BTreeSet::new();
    for x in &live {
        let asm = x.st.contains(&St::Asm) && !x.defs.is_empty();
        let local = match x.rec {
            _ if !thumb => x.rec,
            None if x.branchy && x.uses > 0 => None,
            None => Some(x.uses),
            Some(0) if x.names[0] == "OUTLINED_FUNCTION_0" => Some(x.uses),
            Some(_) if asm && !x.branchy => Some(x.uses),
            r => r,
        };
        let mut s = BTreeSet::new();
        if !x.defs.is_empty() {
            for st in &x.st {
                match st {
                    St::Call(n) | St::Invoke(n) | St::Bitcast(n) => {
                        let t = find(n).unwrap_or_else(|| n.clone());
                        if find(n).is_none() {
                            e.local.insert(t.clone(), None);
                            e.succ.entry(t.clone()).or_default();
                        }
                        s.insert(t);
                    }
                    St::Pointer(t) => {
                        pointers.insert(t);
                        s.insert(norm_sig(&format!("void ({})*", t)));
                    }
                    St::Memcpy if !thumb => {
                        if let Some(t) = find("memcpy") {
                            s.insert(t);
                        } else if undefined("memcpy") {
                            e.local.insert("memcpy".into(), None);
                            e.succ.entry("memcpy".into()).or_default();
                            s.insert("memcpy".into());
                        }
                    }
                    _ => {}
                }
            }
        }
        if thumb {
            for t in &x.bl {
                s.insert(p.code[*t].names[0].clone());
            }
            if x.blx && x.defs.is_empty() {
                s.insert("?".into());
            }
        }
        e.local.insert(x.names[0].clone(), local);
        e.succ.insert(x.names[0].clone(), s);
    }
    for t in pointers {
        let l = norm_sig(&format!("void ({})*", t));
        let mut s: BTreeSet<String> = live.iter().filter(|x| x.defs.iter().any(|d| d.1 == t) || x.decls.iter().any(|d| d.1 == t)).map(|x| x.names[0].clone()).collect();
        if s.is_empty() || untyped {
            s.insert("?".into());
        }
        e.local.insert(l.clone(), Some(0));
        e.succ.insert(l.clone(), s);
        e.dashed.insert(l);
    }
    if e.succ.values().any(|s| s.contains("?")) {
        e.local.insert("?".into(), None);
        e.succ.insert("?".into(), BTreeSet::new());
    }
    // the part that is asked for
    if let Some(start) = &p.start {
        let by = |f: &dyn Fn(&str) -> bool| -> BTreeSet<String> {
            let mut v: BTreeSet<String> = live.iter().filter(|x| x.names.iter().any(|n| f(n))).map(|x| x.names[0].clone()).collect();
            v.extend(e.local.keys().filter(|k| !e.dashed.contains(*k) && *k != "?" && undefined(k) && f(k)).cloned());
            v
        };
        let mut hits = by(&|n| n == start);
        if hits.is_empty() {
            hits = by(&|n| forms(n).0 != forms(n).1 && forms(n).1 == *start);
        }
        if hits.len() == 1 {
            let mut keep = BTreeSet::new();
            let mut todo: Vec<String> = hits.into_iter().collect();
            while let Some(x) = todo.pop() {
                if keep.insert(x.clone()) {
                    todo.extend(e.succ[&x].iter().cloned());
                }
            }
            e.local.retain(|k, _| keep.contains(k));
            e.succ.retain(|k, _| keep.contains(k));
        }
    }
    e
}

fn judge(p: &Program, e: &Expected, w: &mut Worker, count: &mut Count) -> Exec {
    let mut q = realize(p);
    let mut args: Vec<&str> = vec![];
    if p.verbose {
        args.push("-v");
    }
    if let Some(s) = &p.start {
        args.push(s);
    }
    let r = q.run(w, &args);
    let g = match r.graph() {
        Some(g) => g,
        None => return fail("no-graph", r.brief()),
    };
    // how the nodes are shown
    let live: Vec<&Code> = p.code.iter().filter(|x| !x.dead).collect();
    let mut taken: BTreeMap<String, usize> = BTreeMap::new();
    for n in live.iter().map(|x| &x.names[0][..]).chain(p.undef.iter().map(|u| bare(u))) {
        *taken.entry(forms(n).1).or_default() += 1;
    }
    let mut shown: BTreeMap<String, String> = BTreeMap::new(); // text -> key
    for k in e.local.keys() {
        let names: Vec<String> = live.iter().find(|x| x.names[0] == *k).map(|x| x.names.clone()).unwrap_or_else(|| vec![k.clone()]);
        for n in names {
            let (full, short) = forms(&n);
            let t = if taken.get(&short).copied().unwrap_or(0) <= 1 { short } else { full };
            shown.insert(t, k.clone());
        }
    }
    let key = |i: usize| -> Result<String, String> {
        let n = &g.nodes[i];
        let t = if n.dashed { norm_sig(&n.name) } else { n.name.clone() };
        shown.get(&t).cloned().ok_or(format!("unexpected node {:?} (expected {:?})", n.name, shown))
    };
    let keys: Vec<String> = match (0..g.nodes.len()).map(key).collect() {
        Ok(k) => k,
        Err(m) => return fail("extra-node", format!("{}; {}", m, r.brief())),
    };
    let order: Vec<&String> = e.local.keys().collect();
    let m = CallGraph { local: order.iter().map(|k| e.local[*k]).collect(), succ: order.iter().map(|k| e.succ[*k].iter().map(|t| order.iter().position(|o| *o == t).unwrap()).collect()).collect() };
    let max = m.expected(count);
    for (j, k) in order.iter().enumerate() {
        let at: Vec<usize> = (0..keys.len()).filter(|i| keys[*i] == **k).collect();
        ensure!(!at.is_empty(), "missing-node", "no node for {:?}; {}", k, r.brief());
        ensure!(at.len() == 1 || **k == "?", "duplicate-node", "{} nodes for {:?}; {}", at.len(), k, r.brief());
        for i in at {
            let n = &g.nodes[i];
            ensure!(n.local == e.local[*k], "local", "{:?}: local {:?}, expected {:?}; {}", k, n.local, e.local[*k], r.brief());
            ensure!(n.dashed == e.dashed.contains(*k), "dashed", "{:?}; {}", k, r.brief());
            let c: Vec<String> = g.succ(i).map(|x| keys[x].clone()).collect();
            let set: BTreeSet<String> = c.iter().cloned().collect();
            ensure!(set.len() == c.len(), "duplicate-edge", "{:?} calls {:?}; {}", k, c, r.brief());
            ensure!(set == e.succ[*k], "edges", "{:?} calls {:?}, expected {:?}; {}", k, set, e.succ[*k], r.brief());
            ensure!(n.max == Some(max[j]), "max", "{:?}: max {:?}, expected {:?}; {}", k, n.max, max[j], r.brief());
        }
    }
    let want: BTreeSet<BTreeSet<String>> = m.cycles().into_iter().map(|c| c.into_iter().map(|i| order[i].clone()).collect()).collect();
    let got: BTreeSet<BTreeSet<String>> = g.clusters.iter().map(|c| c.iter().map(|i| keys[*i].clone()).collect()).collect();
    ensure!(want == got && g.clusters.len() == want.len(), "clusters", "{:?}, expected {:?}; {}", got, want, r.brief());
    if p.top {
        args.extend(["--format", "top"]);
        let t = q.run(w, &args);
        compare_top(g, &t)?;
    }
    Ok(r.brief())
}

pub fn check(ctx: &Ctx) {
    let count = std::sync::Mutex::new(Count::default());
    let budgets: &[(Arch, u32)] = if ctx.thorough { &[(Arch::A64, 4), (Arch::V7, 4), (Arch::X64, 3), (Arch::V6, 3), (Arch::V8, 3), (Arch::Rv, 3)] } else { &[(Arch::A64, 3), (Arch::V7, 3), (Arch::X64, 2), (Arch::V6, 2), (Arch::V8, 2), (Arch::Rv, 2)] };
    for &(arch, budget) in budgets {
        ctx.explore(
            &format!("features-{:?}", arch),
            budget,
            |c| generate(c, arch),
            |w, p| {
                let e = analyze(p);
                let mut k = Count::default();
                let r = judge(p, &e, w, &mut k);
                let mut c = count.lock().unwrap();
                c.states += k.states;
                c.transitions += k.transitions;
                r
            },
        );
    }
    let c = count.lock().unwrap();
    ctx.model(c.states, c.transitions);
    ctx.assume("which of several names of one code is displayed is not judged; programs in which the name displayed decides whether another name is ambiguous are left out");
}
