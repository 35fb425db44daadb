//! C12: names of functions. All ways in which up to three symbols of one address can be typed,
//! ordered, and be the name under which IR, calls and stack sizes are given.
use super::expect::Want;
use crate::ctx::{fail, Ctx, Exec};
use crate::dot::Graph;
use crate::elf::{FUNC, NOTYPE};
use crate::ensure;
use crate::run::{Run, Worker};
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ir {
    None,
    Define(usize),
    Declare(usize),
}

#[derive(Clone, Debug)]
struct Case {
    arch: Arch,
    names: Vec<&'static str>,
    types: Vec<u8>,
    /// names the function has in the object file (bit mask; 0: not in the object)
    obj: usize,
    /// no stack size record although in the object
    norecord: bool,
    ir: Ir,
    calls: usize,
    /// symbols with the lowest address bit clear on Thumb (bit mask)
    even: usize,
    /// mapping symbols at the function
    maps: Vec<&'static str>,
    maps_first: bool,
    /// position of the function among the symbols
    late: bool,
    in_rlib: bool,
}

fn judge(r: &Run, k: &Case) -> Exec {
    let g = match r.graph() {
        Some(g) => g,
        None => return fail("no-graph", format!("{}; {:?}", r.brief(), k)),
    };
    let record = k.obj != 0 && !k.norecord;
    let ok: Vec<&str> = (0..k.names.len()).filter(|i| !record || k.obj >> i & 1 == 1).map(|i| k.names[i]).collect();
    let mut g: Graph = g.clone();
    let mut hits = 0;
    for n in &mut g.nodes {
        if ok.contains(&&n.name[..]) {
            n.name = "F".into();
            hits += 1;
        }
    }
    ensure!(hits == 1, "one-node", "{} nodes named one of {:?}; {}; {:?}", hits, ok, r.brief(), k);
    let mut want = Want::new();
    want.exactness = true;
    want.node("F", if record || k.arch.thumb() { Some(24) } else { None });
    want.node("leaf", Some(4)).node("main", Some(8)).dashed("void(i32)*").node("other", Some(16));
    let called = k.arch.thumb() || k.calls != 0;
    if called {
        want.edge("main", "F");
    }
    if k.arch.thumb() || matches!(k.ir, Ir::Define(_)) {
        want.edge("F", "leaf");
    }
    want.edge("main", "void(i32)*");
    want.edge("void(i32)*", "other");
    if k.ir != Ir::None {
        want.edge("void(i32)*", "F");
    } else {
        want.edge("void(i32)*", "?");
    }
    want.check(&g).map_err(|mut f| {
        f.msg = format!("{}; {}; {:?}", f.msg, r.brief(), k);
        f
    })?;
    Ok(format!("{:?} {:?} {}", k.ir, record, k.calls))
}

fn run(w: &mut Worker, k: &Case) -> Exec {
    let a = k.arch;
    let mut p = Prog::new(a);
    let mut f = Fun::new(a, "x", if k.obj != 0 && !k.norecord { Some(24) } else { None });
    f.names = k.names.iter().zip(&k.types).map(|(n, t)| (n.to_string(), *t)).collect();
    f.obj_names = (0..k.names.len()).filter(|i| k.obj >> i & 1 == 1).map(|i| k.names[i].to_string()).collect();
    f.in_rlib = k.in_rlib;
    if a.thumb() {
        f.ops = body(a, 24, &[1]);
    }
    // symbols with bit 0 clear are written separately
    let moved: Vec<(String, u8)> = if a.thumb() { (0..k.names.len()).filter(|i| k.even >> i & 1 == 1).map(|i| (k.names[i].to_string(), k.types[i])).collect() } else { vec![] };
    f.names.retain(|n| !moved.contains(n));
    p.funs.push(f);
    p.funs.push(Fun::new(a, "leaf", Some(4)));
    let mut m = Fun::new(a, "main", Some(8));
    if a.thumb() {
        m.ops = body(a, 8, &[0]);
    }
    p.funs.push(m);
    p.funs.push(Fun::new(a, "other", Some(16)));
    p.layout();
    let (addr, len) = (p.funs[0].addr, p.funs[1].addr - p.funs[0].addr);
    for (n, t) in moved {
        p.extra.push((n, t, addr, if t == FUNC { len } else { 0 }));
    }
    for m in &k.maps {
        p.extra.push((m.to_string(), NOTYPE, addr, 0));
    }
    p.reverse_extra_first = k.maps_first;
    if k.late {
        p.sym_order = Some(vec![3, 2, 1, 0]);
    }
    let mut obj = p.funs[0].obj_names.clone();
    if k.late {
        obj.reverse();
    }
    p.funs[0].obj_names = obj;
    if k.obj == 0 {
        // not in the object at all
        p.obj_order = Some(vec![1, 2, 3]);
    }
    match k.ir {
        Ir::None => {}
        Ir::Define(i) => {
            let d = define("void", k.names[i], "i32 %x", &["call void @leaf()".into()]);
            if k.in_rlib {
                p.cb_ll.push_str(&d)
            } else {
                p.ll.push_str(&d)
            }
        }
        Ir::Declare(i) => p.ll.push_str(&declare("void", k.names[i], "i32")),
    }
    p.ll.push_str(&void_fn("leaf", &[]));
    p.ll.push_str(&define("void", "other", "i32 %y", &[]));
    let mut st = vec!["call void %p(i32 1)".to_string()];
    for i in 0..k.names.len() {
        if k.calls >> i & 1 == 1 {
            st.push(format!("call void @{}(i32 {})", k.names[i], i));
        }
    }
    p.ll.push_str(&define("void", "main", "", &st));
    let r = p.run(w, &[]);
    judge(&r, k)
}

const ABC: [&str; 3] = ["a", "bb", "ccc"];

pub fn check(ctx: &Ctx) {
    let archs = [Arch::V7, Arch::A64, Arch::X64, Arch::V6, Arch::V8, Arch::Rv];
    let irs = |n: usize| {
        let mut v = vec![Ir::None];
        v.extend((0..n).map(Ir::Define));
        v.extend((0..n).map(Ir::Declare));
        v
    };
    for n in 2..=3usize {
        ctx.explore(
            &format!("sets-{}", n),
            if ctx.thorough { 2 } else if n == 2 { 1 } else { 0 },
            |c| {
                let arch = *c.of(&archs[..if ctx.thorough || n == 2 { 6 } else { 2 }]);
                let t = c.pick((1 << n) - 1) + 1;
                let types: Vec<u8> = (0..n).map(|i| if t >> i & 1 == 1 { FUNC } else { NOTYPE }).collect();
                let obj = c.pick(1 << n);
                let irs = irs(n);
                let ir = *c.of(&irs);
                let calls = c.pick(1 << n);
                let late = c.dev(2) == 1;
                let in_rlib = c.dev(2) == 1;
                let norecord = obj != 0 && c.dev(2) == 1;
                if in_rlib && obj == 0 {
                    return None;
                }
                Some(Case { arch, names: ABC[..n].to_vec(), types, obj, norecord, ir, calls, even: 0, maps: vec![], maps_first: false, late, in_rlib })
            },
            |w, k| run(w, k),
        );
    }
    // the lowest address bit on Thumb
    ctx.explore(
        "thumb-bit",
        0,
        |c| {
            let arch = *c.of(&[Arch::V7, Arch::V6]);
            let t = c.pick(7) + 1;
            let types: Vec<u8> = (0..3).map(|i| if t >> i & 1 == 1 { FUNC } else { NOTYPE }).collect();
            let even = c.pick(8);
            let obj = *c.of(&[0usize, 1, 2, 4, 7]);
            let ir = *c.of(&[Ir::None, Ir::Define(0), Ir::Define(1), Ir::Define(2), Ir::Declare(0)]);
            let calls = *c.of(&[0usize, 1, 2, 4, 7]);
            Some(Case { arch, names: ABC.to_vec(), types, obj, norecord: false, ir, calls, even, maps: vec![], maps_first: c.flag(), late: false, in_rlib: false })
        },
        |w, k| run(w, k),
    );
    // mapping symbols
    let thumb_maps = ["$t", "$t.0", "$t.7", "$a", "$a.3", "$t.12345"];
    let rv_maps = ["$x", "$xrv32i2p1_m2p0_c2p0", "$d", "$x.3", "$d.4", "$xrv32e"];
    let a64_maps = ["$x", "$x.0", "$x.99", "$d", "$d.4", "$a.1"];
    ctx.explore(
        "mapping-symbols",
        0,
        |c| {
            let arch = *c.of(&archs);
            let all = if arch.bit() == 1 {
                thumb_maps
            } else if arch == Arch::Rv {
                rv_maps
            } else {
                a64_maps
            };
            let m1 = *c.of(&all);
            let m2 = c.pick(all.len() + 1);
            let mut maps = vec![m1];
            if m2 > 0 {
                maps.push(all[m2 - 1]);
            }
            let n = 1 + c.pick(2);
            let t = c.pick((1 << n) - 1) + 1;
            let types: Vec<u8> = (0..n).map(|i| if t >> i & 1 == 1 { FUNC } else { NOTYPE }).collect();
            let obj = c.pick(1 << n);
            let ir = *c.of(&[Ir::None, Ir::Define(0), Ir::Define(n - 1)]);
            if n == 1 && ir == Ir::Define(0) && false {
                return None;
            }
            Some(Case { arch, names: ABC[..n].to_vec(), types, obj, norecord: false, ir, calls: 1, even: 0, maps, maps_first: c.flag(), late: false, in_rlib: false })
        },
        |w, k| run(w, k),
    );
    // identical code folded: several bodies for one address, whose calls use any of the names
    const FORMS: &[&str] = &[
        "call void @leaf(i32 1)",
        "call void @leaf2(i32 1)",
        "call void bitcast (void (i32)* @leaf2 to void ()*)()",
        "tail call fastcc void bitcast (ptr @leaf to void (i64)*)(i64 1) #1",
        "invoke void @leaf2(i32 1)\n          to label %bb1 unwind label %cleanup",
        "call void @bb()",
        "call void bitcast (void ()* @a to void (i32)*)(i32 1)",
        "call void %p(i32 1)",
        "call void asm sideeffect \"nop\", \"~{memory}\"() #1",
        "call void @llvm.memcpy.p0.p0.i64(ptr %x, ptr %y, i64 8, i1 false)",
    ];
    ctx.explore(
        "folded",
        if ctx.thorough { 3 } else { 1 },
        |c| {
            let arch = *c.of(&archs[..if ctx.thorough { 4 } else { 2 }]);
            let mut bodies = vec![];
            for i in 0..2 {
                let n = c.pick(if i == 0 { 4 } else { 3 });
                // 3: not defined, 0..=2: so many statements
                let st: Option<Vec<usize>> = match (i, n) {
                    (_, 3) => None,
                    (1, 2) => None,
                    (_, n) => Some((0..n).map(|_| c.pick(FORMS.len())).collect()),
                };
                bodies.push(st);
            }
            // how main calls it
            let form = c.dev(6);
            let cb = c.dev(3);
            let obj = [3, 1, 2][c.dev(3)];
            let reverse = c.dev(2) == 1;
            let folded_leaf = c.dev(2) == 1;
            Some((arch, bodies, form, cb, obj, reverse, folded_leaf))
        },
        |w, k| {
            let (arch, bodies, form, cb, obj, reverse, folded_leaf) = k;
            let mut p = Prog::new(*arch);
            let mut f = Fun::new(*arch, "a", Some(24));
            f.names.push(("bb".into(), FUNC));
            f.obj_names = ["a", "bb"].iter().enumerate().filter(|x| obj >> x.0 & 1 == 1).map(|x| x.1.to_string()).collect();
            let mut l = Fun::new(*arch, "leaf", Some(4));
            l.names.push(("leaf2".into(), FUNC));
            l.obj_names = vec!["leaf".into(), "leaf2".into()];
            p.funs = vec![f, l, Fun::new(*arch, "main", Some(8))];
            if !arch.thumb() {
                let mut m = Fun::new(*arch, "memmove", Some(0));
                m.names.push(("memcpy".into(), FUNC));
                m.obj_names = vec!["memmove".into()];
                p.funs.push(m);
                p.ll.push_str(&declare("ptr", "memcpy", "ptr, ptr, i64"));
            }
            let mut want = Want::new();
            want.exactness = true;
            want.node("F", Some(24)).node("L", Some(4)).node("main", Some(8));
            if !arch.thumb() {
                want.node("memmove", Some(0));
            }
            let mut called = false;
            let mut typed = false;
            for (i, b) in bodies.iter().enumerate() {
                let name = ["a", "bb"][i];
                match b {
                    None => {
                        // (without a declaration it is enough that the other one is known)
                        if i == 0 {
                            p.ll.push_str(&declare("void", name, ""));
                            typed = true;
                        }
                    }
                    Some(v) => {
                        typed = true;
                        let st: Vec<String> = v.iter().map(|x| FORMS[*x].to_string()).collect();
                        let d = define("void", name, "", &st);
                        if cb >> i & 1 == 1 {
                            p.cb_ll.push_str(&d)
                        } else {
                            p.ll.push_str(&d)
                        }
                        for x in v {
                            match x {
                                0..=4 => {
                                    want.edge("F", "L");
                                }
                                5 | 6 => {
                                    want.edge("F", "F");
                                    want.exactness = false;
                                }
                                7 => {
                                    want.edge("F", "void(i32)*");
                                    called = true;
                                }
                                9 if !arch.thumb() => {
                                    want.edge("F", "memmove");
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
            if !typed {
                return fail("engine", "a function without IR");
            }
            if called {
                want.dashed("void(i32)*").edge("void(i32)*", "L");
            }
            p.ll.push_str(&define("void", "leaf", "i32 %z", &[]));
            if *folded_leaf {
                p.ll.push_str(&define("void", "leaf2", "i8 %z", &[]));
            }
            let st: Vec<String> = match form {
                0 => vec!["call void @a()".into(), "call void @bb()".into()],
                1 => vec!["call void @bb()".into()],
                2 => vec!["call void bitcast (void ()* @bb to void (i32)*)(i32 0)".into(), "call void @a()".into()],
                3 => vec!["call void bitcast (void ()* @a to void (i32)*)(i32 0)".into()],
                4 => vec!["invoke void @bb()\n          to label %b1 unwind label %cleanup".into(), "tail call void @bb()".into()],
                _ => vec!["%r = call i32 bitcast (void ()* @bb to i32 ()*)()".into()],
            };
            want.edge("main", "F");
            p.ll.push_str(&define("void", "main", "i64 %z", &st));
            if *reverse {
                p.sym_order = Some((0..p.funs.len()).rev().collect());
            }
            let r = p.run(w, &[]);
            let g = match r.graph() {
                Some(g) => g,
                None => return fail("no-graph", format!("{}; {:?}", r.brief(), k)),
            };
            let mut g = g.clone();
            for n in &mut g.nodes {
                match &n.name[..] {
                    "a" | "bb" => n.name = "F".into(),
                    "leaf" | "leaf2" => n.name = "L".into(),
                    "memcpy" => n.name = "memmove".into(),
                    _ => {}
                }
            }
            want.check(&g).map_err(|mut f| {
                f.msg = format!("{}; {}; {:?}", f.msg, r.brief(), k);
                f
            })?;
            Ok(format!("{:?} {}", want.nodes["F"].callees, called))
        },
    );
    // which names the object file has for the code, with and without type (and thumb bit): whichever
    // of them the record is attributed to, it belongs to the code
    ctx.explore(
        "object-names",
        0,
        |c| {
            let arch = *c.of(&archs);
            // per name: 0 absent from the object, 1 function, 2 symbol without type
            let obj: Vec<usize> = (0..3).map(|_| c.pick(3)).collect();
            // per name: absent from the executable, function, symbol without type
            let exe: Vec<usize> = (0..3).map(|_| c.pick(3)).collect();
            let rev = c.flag();
            let seed = c.pick(if ctx.thorough { 8 } else { 3 });
            if obj.iter().all(|x| *x == 0) || !exe.contains(&1) || !(0..3).any(|i| exe[i] > 0 && obj[i] > 0) || (rev && obj.iter().filter(|x| **x > 0).count() < 2) {
                return None;
            }
            Some((arch, obj, exe, rev, seed))
        },
        |w, (arch, obj, exe, rev, seed)| {
            let arch = *arch;
            let names = ["f", "g", "h"];
            let mut p = Prog::new(arch);
            let mut f = Fun::new(arch, "f", Some(24));
            f.names = (0..3).filter(|i| exe[*i] > 0).map(|i| (names[i].to_string(), if exe[i] == 1 { FUNC } else { NOTYPE })).collect();
            f.obj_names = (0..3).filter(|i| obj[*i] > 0).map(|i| format!("{}{}", if obj[i] == 2 { "\0" } else { "" }, names[i])).collect();
            if *rev {
                f.obj_names.reverse();
            }
            let shown: Vec<String> = f.names.iter().map(|n| n.0.clone()).collect();
            p.funs.push(f);
            p.funs.push(Fun::new(arch, "main", Some(8)).calls(arch, &[0]));
            p.ll.push_str(&void_fn("main", &shown.iter().map(|s| &s[..]).collect::<Vec<_>>()));
            p.ll.push_str(&void_fn(&shown[0], &[]));
            p.install(w);
            let a: Vec<String> = ["--example", "app", "--target", arch.target()].iter().map(|s| s.to_string()).collect();
            let mut c = w.base_command(&a);
            c.env("LD_PRELOAD", &w.tools.shim).env("MC_SEED", (*seed + 1).to_string());
            let r = w.exec(c);
            let g = match r.graph() {
                Some(g) => g,
                None => return fail("no-graph", r.brief()),
            };
            ensure!(g.nodes.len() == 2, "nodes", "{} nodes: {}", g.nodes.len(), r.brief());
            let m = g.find("main");
            ensure!(m.is_some(), "main", "no main: {}", r.brief());
            let m = m.unwrap();
            let x = 1 - m;
            ensure!(shown.contains(&g.nodes[x].name), "name", "shown as {:?}: {}", g.nodes[x].name, r.brief());
            ensure!(g.nodes[x].local == Some(24), "local", "local {:?}, expected 24: {}", g.nodes[x].local, r.brief());
            ensure!(g.succ(m).collect::<Vec<_>>() == vec![x], "edges", "{:?}: {}", g.callees(m), r.brief());
            Ok(r.brief())
        },
    );
    // equal names at different addresses
    ctx.explore(
        "equal-names",
        0,
        |c| {
            let arch = *c.of(&archs);
            // which addresses have the name; further names; who calls whom
            let n = 2 + c.pick(2);
            let extra = c.pick(1 << n);
            let first = c.flag();
            let callers = c.pick(n + 1);
            Some((arch, n, extra, first, callers))
        },
        |w, &(arch, n, extra, first, callers)| {
            let mut p = Prog::new(arch);
            // functions 0..n are called `dup`, function i calls leaf i; main calls one of them (all)
            for i in 0..n {
                let mut f = Fun::new(arch, "dup", None);
                let stack = 4 * (i as u64 + 1);
                if extra >> i & 1 == 1 {
                    let e = (format!("own{}", i), if first { FUNC } else { NOTYPE });
                    if first {
                        f.names.insert(0, e);
                    } else {
                        f.names.push(e);
                    }
                }
                f.obj_names = vec![];
                if arch.thumb() {
                    f.ops = body(arch, stack, &[n + i]);
                }
                p.funs.push(f);
            }
            for i in 0..n {
                p.funs.push(Fun::new(arch, &format!("leaf{}", i), Some(4)));
                p.ll.push_str(&void_fn(&format!("leaf{}", i), &[]));
            }
            let targets: Vec<usize> = if callers == n { (0..n).collect() } else { vec![callers] };
            let mut m = Fun::new(arch, "main", Some(8));
            if arch.thumb() {
                m.ops = body(arch, 8, &targets);
            }
            p.funs.push(m);
            p.ll.push_str(&void_fn("main", &[]));
            p.obj_order = Some((n..2 * n + 1).collect());
            let r = p.run(w, &[]);
            let g = match r.graph() {
                Some(g) => g,
                None => return fail("no-graph", r.brief()),
            };
            ensure!(g.nodes.len() == 2 * n + 1, "nodes", "{} nodes, {} functions; {}", g.nodes.len(), 2 * n + 1, r.brief());
            let mut of = vec![None; n];
            let mut unknown = 0;
            for (i, node) in g.nodes.iter().enumerate() {
                let is_dup = node.name == "dup" || node.name.starts_with("own");
                if !is_dup {
                    continue;
                }
                if !arch.thumb() {
                    ensure!(g.callees(i).is_empty() && node.local.is_none(), "edges", "{}", r.brief());
                    unknown += 1;
                    continue;
                }
                let c = g.callees(i);
                ensure!(c.len() == 1 && c[0].starts_with("leaf"), "edges", "{} calls {:?}; {}", node.name, c, r.brief());
                let k: usize = c[0][4..].parse().unwrap();
                ensure!(of[k].is_none(), "edges", "two functions call {}; {}", c[0], r.brief());
                let own = format!("own{}", k);
                ensure!(node.name == "dup" || (node.name == own && extra >> k & 1 == 1), "name", "function {} is called {}; {}", k, node.name, r.brief());
                ensure!(node.local == Some(4 * (k as u64 + 1)), "local", "function {}: {:?}; {}", k, node.local, r.brief());
                of[k] = Some(i);
            }
            ensure!(arch.thumb() || unknown == n, "nodes", "{} of {} functions; {}", unknown, n, r.brief());
            if arch.thumb() {
                let m = g.find("main").ok_or_else(|| crate::ctx::Fail { key: "main".into(), msg: r.brief() })?;
                let mut s: Vec<usize> = g.succ(m).collect();
                s.sort();
                let mut e: Vec<usize> = targets.iter().map(|&t| of[t].unwrap_or(usize::MAX)).collect();
                e.sort();
                ensure!(s == e, "edges", "main calls {:?}, expected {:?}; {}", s, e, r.brief());
            }
            Ok(format!("{} {:?}", n, arch))
        },
    );
    ctx.assume("functions of equal local names share what IR and object say about that name: only machine code and addresses are judged for them");
    super::views::check(ctx, super::views::View::Nodes);
}
