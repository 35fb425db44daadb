//! C27: along every dimension in which programs grow, every size out of a grid around the powers of
//! two is analyzed like a small one.
use super::c16::compare_top;
use super::expect::Want;
use crate::ctx::{fail, Ctx, Exec};
use crate::ensure;
use crate::run::{Run, Worker};
use crate::world::*;

struct Case {
    p: Prog,
    w: Want,
    /// name, exact, value
    max: Vec<(String, bool, u64)>,
    /// number of clusters and of the functions in them
    clusters: (usize, usize),
}

impl Case {
    fn new(arch: Arch) -> Self {
        Case { p: Prog::new(arch), w: Want::new(), max: vec![], clusters: (0, 0) }
    }
    /// a function `void name()` with direct calls
    fn fun(&mut self, name: &str, stack: u64, calls: &[usize], names: &dyn Fn(usize) -> String) {
        let arch = self.p.arch;
        self.p.funs.push(Fun::new(arch, name, Some(stack)).calls(arch, calls));
        let c: Vec<String> = calls.iter().map(|i| names(*i)).collect();
        let refs: Vec<&str> = c.iter().map(|s| &s[..]).collect();
        self.p.ll.push_str(&void_fn(name, &refs));
        self.w.node(name, Some(stack));
        for n in c {
            self.w.edge(name, &n);
        }
    }
    /// a function with arbitrary IR
    fn raw(&mut self, name: &str, stack: u64, ll: String) {
        let arch = self.p.arch;
        self.p.funs.push(Fun::new(arch, name, Some(stack)));
        self.p.ll.push_str(&ll);
        self.w.node(name, Some(stack));
    }
    fn max(&mut self, name: &str, exact: bool, v: u64) {
        self.max.push((name.into(), exact, v));
    }
}

const DIMENSIONS: &[(&str, usize)] = &[
    // name, largest size of the quick tier
    ("chain", 1025),
    ("fan-out", 1025),
    ("fan-in", 1025),
    ("ring", 513),
    ("self-loops", 1025),
    ("same-call", 65537),
    ("statements", 65537),
    ("name", 65537),
    ("names", 1025),
    ("parameters", 1025),
    ("nesting", 129),
    ("fields", 4097),
    ("candidates", 1025),
    ("signatures", 1025),
    ("comments", 65537),
    ("long-line", 65537),
    ("undefined", 2049),
    ("code-size", 65537),
    ("branches", 1025),
    ("stack", usize::MAX),
    ("records", 1025),
    ("dead", 1025),
    ("blocks", 4097),
    ("array", usize::MAX),
    ("unknown", 1025),
    ("layers", 65),
    ("short-names", 1025),
];

fn id(i: usize) -> String {
    format!("f{}", i)
}

fn case(dim: &str, n: usize, arch: Arch) -> Option<Case> {
    let mut c = Case::new(arch);
    match dim {
        "chain" => {
            for i in 0..n {
                let calls: Vec<usize> = if i + 1 < n { vec![i + 1] } else { vec![] };
                c.fun(&id(i), 8, &calls, &id);
            }
            c.max("f0", true, 8 * n as u64);
            c.max(&id(n / 2), true, 8 * (n - n / 2) as u64);
        }
        "fan-out" => {
            let all: Vec<usize> = (1..=n).collect();
            c.fun("f0", 8, &all, &id);
            for i in 1..=n {
                c.fun(&id(i), 4 * (i as u64 % 16), &[], &id);
            }
            c.max("f0", true, 8 + if n >= 15 { 60 } else { 4 * n as u64 });
        }
        "fan-in" => {
            c.fun("f0", 16, &[], &id);
            for i in 1..=n {
                c.fun(&id(i), 8, &[0], &id);
            }
            c.max(&id(n), true, 24);
        }
        "ring" => {
            for i in 0..n {
                c.fun(&id(i), 4 * (1 + (i == n / 2) as u64), &[(i + 1) % n], &id);
            }
            c.max("f0", false, 8);
            c.clusters = (1, n);
        }
        "self-loops" => {
            for i in 0..n {
                let mut calls = vec![i];
                if i + 1 < n {
                    calls.push(i + 1);
                }
                c.fun(&id(i), 4, &calls, &id);
            }
            c.max("f0", false, 4 * n as u64);
            c.clusters = (n, n);
        }
        "same-call" => {
            c.fun("f0", 8, &[1], &id);
            c.fun("f1", 8, &[], &id);
            let one = "  call void @f1() #0\n";
            c.p.ll = c.p.ll.replacen(one, &one.repeat(n), 1);
            c.max("f0", true, 16);
        }
        "statements" => {
            c.fun("f0", 8, &[1], &id);
            c.fun("f1", 8, &[], &id);
            let one = "  call void @f1() #0\n";
            let mut t = String::new();
            for i in 0..n {
                t.push_str(&format!("  %{} = add i32 %x, {}\n", i, i));
            }
            t.push_str(one);
            c.p.ll = c.p.ll.replacen(one, &t, 1);
            c.max("f0", true, 16);
        }
        "name" => {
            let long = "n".repeat(n);
            let l2 = long.clone();
            let names = move |i: usize| if i == 0 { "main".to_string() } else { l2.clone() };
            c.fun("main", 8, &[1], &names);
            c.fun(&long, 8, &[], &names);
            c.max(&long, true, 8);
            c.max("main", true, 16);
        }
        "names" => {
            c.fun("main", 8, &[1], &|i| if i == 0 { "main".into() } else { "a0".into() });
            c.fun("a0", 8, &[], &id);
            for i in 1..n {
                c.p.funs[1].names.push((format!("a{}", i), crate::elf::FUNC));
                c.p.funs[1].obj_names.push(format!("a{}", i));
            }
            // called by its last name
            c.p.ll = c.p.ll.replace("call void @a0()", &format!("call void @a{}()", n - 1));
            c.max("main", true, 16);
        }
        "parameters" => {
            let tys = vec!["i32"; n].join(", ");
            let args: Vec<String> = (0..n).map(|i| format!("i32 %a{}", i)).collect();
            c.raw("main", 8, define("i64", "main", "", &[format!("call void %f({}) #0", args.join(", "))]));
            c.raw("target", 16, define("void", "target", &args.join(", "), &[]));
            c.raw("other", 24, define("void", "other", &args[1..].join(", "), &[]));
            let l = super::expect::norm_sig(&format!("void ({})*", tys));
            c.w.dashed(&l);
            c.w.edge("main", &l);
            c.w.edge(&l, "target");
            c.max("main", true, 24);
        }
        "nesting" => {
            let t = |leaf: &str| format!("{}{}{}", "{ ".repeat(n), leaf, " }".repeat(n));
            c.raw("main", 8, define("i64", "main", "", &[format!("call void %f({} %a) #0", t("i32"))]));
            c.raw("target", 16, define("void", "target", &format!("{} %a", t("i32")), &[]));
            c.raw("other", 24, define("void", "other", &format!("{} %a", t("i64")), &[]));
            let l = super::expect::norm_sig(&format!("void ({})*", t("i32")));
            c.w.dashed(&l);
            c.w.edge("main", &l);
            c.w.edge(&l, "target");
            c.max("main", true, 24);
        }
        "fields" => {
            let t = |leaf: &str| format!("{{ {}{} }}", "i8, ".repeat(n - 1), leaf);
            c.raw("main", 8, define("i64", "main", "", &[format!("call void %f({} %a) #0", t("i32"))]));
            c.raw("target", 16, define("void", "target", &format!("{} %a", t("i32")), &[]));
            c.raw("other", 24, define("void", "other", &format!("{} %a", t("i64")), &[]));
            let l = super::expect::norm_sig(&format!("void ({})*", t("i32")));
            c.w.dashed(&l);
            c.w.edge("main", &l);
            c.w.edge(&l, "target");
            c.max("main", true, 24);
        }
        "array" => {
            c.raw("main", 8, define("i64", "main", "", &[format!("call void %f([{} x i8] %a) #0", n)]));
            c.raw("target", 16, define("void", "target", &format!("[{} x i8] %a", n), &[]));
            c.raw("other", 24, define("void", "other", &format!("[{} x i8] %a", if n == usize::MAX { 1 } else { n + 1 }), &[]));
            let l = super::expect::norm_sig(&format!("void ([{} x i8])*", n));
            c.w.dashed(&l);
            c.w.edge("main", &l);
            c.w.edge(&l, "target");
            c.max("main", true, 24);
        }
        "candidates" => {
            c.raw("main", 8, define("i64", "main", "", &["call void %f(i32 1) #0".into()]));
            c.w.dashed("void(i32)*");
            c.w.edge("main", "void(i32)*");
            for i in 0..n {
                c.raw(&id(i), 4 * (i == n - 1) as u64 + 4, define("void", &id(i), "i32 %a", &[]));
                c.w.edge("void(i32)*", &id(i));
            }
            c.max("main", true, 16);
        }
        "signatures" => {
            let st: Vec<String> = (0..n).map(|i| format!("call void %f([{} x i8] %a) #0", i)).collect();
            c.raw("main", 8, define("i64", "main", "", &st));
            for i in 0..n {
                c.raw(&id(i), 8 * (1 + i as u64 % 2), define("void", &id(i), &format!("[{} x i8] %a", i), &[]));
                let l = format!("void([{}xi8])*", i);
                c.w.dashed(&l);
                c.w.edge("main", &l);
                c.w.edge(&l, &id(i));
            }
            c.max("main", true, if n > 1 { 24 } else { 16 });
        }
        "comments" => {
            c.fun("f0", 8, &[1], &id);
            c.p.ll.push_str(&"; a comment\n".repeat(n));
            c.fun("f1", 8, &[], &id);
            c.max("f0", true, 16);
        }
        "long-line" => {
            c.fun("f0", 8, &[1], &id);
            c.p.ll.push_str(&format!("@g = private constant [{0} x i8] c\"{1}\", align 1\n\n", n, "x".repeat(n)));
            c.fun("f1", 8, &[], &id);
            c.max("f0", true, 16);
        }
        "undefined" => {
            // linked dynamically
            let all: Vec<usize> = (1..=n).collect();
            c.fun("f0", 8, &[], &id);
            c.p.ll = String::new();
            let names: Vec<String> = all.iter().map(|i| id(*i)).collect();
            let refs: Vec<&str> = names.iter().map(|s| &s[..]).collect();
            c.p.ll.push_str(&void_fn("f0", &refs));
            for x in names.iter() {
                c.p.undef.push(x.clone());
                c.p.ll.push_str(&declare("void", x, ""));
                c.w.node(x, None);
                c.w.edge("f0", x);
            }
            c.max("f0", false, 8);
        }
        "code-size" => {
            if !arch.thumb() {
                return None;
            }
            c.fun("f0", 8, &[1], &id);
            c.fun("f1", 8, &[], &id);
            // NOPs before and after the call
            let nops = Op::Raw([0x00, 0xbf].repeat(n));
            c.p.funs[0].ops.insert(1, nops.clone());
            c.p.funs[0].ops.insert(3, nops);
            c.max("f0", true, 16);
        }
        "branches" => {
            if !arch.thumb() {
                return None;
            }
            // BL to every function, which the IR does not know of
            let arch = c.p.arch;
            let all: Vec<usize> = (1..=n).collect();
            c.p.funs.push(Fun::new(arch, "blob", None).calls(arch, &all));
            c.w.node("blob", Some(0));
            for i in 1..=n {
                c.fun(&id(i), 8, &[], &id);
                c.w.edge("blob", &id(i));
            }
            c.max("blob", true, 8);
        }
        "stack" => {
            if arch.thumb() || n as u64 > 1 << 62 {
                return None;
            }
            c.fun("f0", n as u64, &[1], &id);
            c.fun("f1", n as u64, &[], &id);
            c.max("f0", true, 2 * n as u64);
        }
        "records" => {
            // functions that nobody calls, in the archive
            c.fun("f0", 8, &[n], &id);
            for i in 1..=n {
                let a = c.p.arch;
                let mut f = Fun::new(a, &id(i), Some(4 * (i as u64 % 8)));
                f.in_rlib = true;
                c.p.funs.push(f);
                c.p.cb_ll.push_str(&void_fn(&id(i), &[]));
                c.w.node(&id(i), Some(4 * (i as u64 % 8)));
            }
            c.max("f0", true, 8 + 4 * (n as u64 % 8));
        }
        "dead" => {
            c.fun("f0", 8, &[1], &id);
            c.fun("f1", 8, &[], &id);
            for i in 2..n + 2 {
                let a = c.p.arch;
                let mut f = Fun::new(a, &id(i), Some(1024));
                f.live = false;
                c.p.funs.push(f);
                c.p.ll.push_str(&void_fn(&id(i), &["f0", "f1"]));
            }
            c.max("f0", true, 16);
        }
        "blocks" => {
            c.fun("f0", 8, &[1], &id);
            c.fun("f1", 8, &[], &id);
            let one = "  call void @f1() #0\n";
            let mut t = String::new();
            for i in 0..n {
                t.push_str(&format!("  br label %bb{0}\n\nbb{0}:                                    ; preds = %bb{1}\n", i, i + 1));
            }
            t.push_str(one);
            c.p.ll = c.p.ll.replacen(one, &t, 1);
            c.max("f0", true, 16);
        }
        "unknown" => {
            // functions without any information
            if arch.thumb() {
                return None;
            }
            let all: Vec<usize> = (1..=n).collect();
            c.fun("f0", 8, &all, &id);
            for i in 1..=n {
                let a = c.p.arch;
                c.p.funs.push(Fun::new(a, &id(i), None));
                c.p.ll.push_str(&declare("void", &id(i), ""));
                c.w.node(&id(i), None);
            }
            c.max("f0", false, 8);
        }
        "layers" => {
            // layers of 4 functions, each of which calls all of the next layer: 4^n paths
            for l in 0..n {
                for k in 0..4 {
                    let calls: Vec<usize> = if l + 1 < n { (0..4).map(|j| 4 * (l + 1) + j).collect() } else { vec![] };
                    c.fun(&id(4 * l + k), 4 * (1 + k as u64), &calls, &id);
                }
            }
            c.max("f3", true, 16 * n as u64);
            c.max("f0", true, 16 * n as u64 - 12);
        }
        "short-names" => {
            // functions whose names differ in the hash only
            let sym = |i: usize| if i == 0 { "main".to_string() } else { format!("_ZN1a1f17h{:016x}E", i * 0x9e3779b1) };
            let all: Vec<usize> = (1..=n).collect();
            c.fun("main", 8, &all, &sym);
            for i in 1..=n {
                c.fun(&sym(i), 4 * (i % 2) as u64, &[], &sym);
            }
            for i in 1..=n {
                c.w.rename(&sym(i), &if n == 1 { "a::f".to_string() } else { format!("a::f::h{:016x}", i * 0x9e3779b1) });
            }
            c.max("main", true, 12);
        }
        _ => unreachable!(),
    }
    Some(c)
}

fn judge(c: &Case, r: &Run) -> Exec {
    let short = |s: String| s.chars().take(600).collect::<String>();
    let g = match r.graph() {
        Some(g) => g,
        None => return fail("no-graph", short(r.brief())),
    };
    c.w.check(g).map_err(|mut e| {
        e.msg = short(e.msg);
        e
    })?;
    for (n, exact, v) in &c.max {
        let node = g.nodes.iter().find(|x| x.name == *n);
        ensure!(node.map(|x| x.max) == Some(Some((*exact, *v))), "max", "max of {} is {:?}, expected {} {}", short(n.clone()), node.map(|x| x.max), if *exact { "=" } else { ">=" }, v);
    }
    let members: usize = g.clusters.iter().map(|c| c.len()).sum();
    ensure!((g.clusters.len(), members) == c.clusters, "clusters", "{} clusters with {} functions, expected {:?}", g.clusters.len(), members, c.clusters);
    Ok(String::new())
}

fn run(w: &mut Worker, dim: &str, n: usize, arch: Arch, start: bool) -> Exec {
    let mut c = match case(dim, n, arch) {
        Some(c) => c,
        None => return Ok("n/a".into()),
    };
    if start {
        let first = c.p.funs[0].names[0].0.clone();
        let r = c.p.run(w, &[&first]);
        let g = match r.graph() {
            Some(g) => g,
            None => return fail("no-graph", r.brief().chars().take(600).collect::<String>()),
        };
        // what is reachable from it
        let mut keep = std::collections::BTreeSet::new();
        let mut todo = vec![first];
        while let Some(x) = todo.pop() {
            if keep.insert(x.clone()) {
                todo.extend(c.w.nodes[&x].callees.iter().cloned());
            }
        }
        c.w.nodes.retain(|k, _| keep.contains(k));
        c.max.retain(|m| keep.contains(&m.0));
        let _ = g;
        judge(&c, &r)?;
        return Ok(dim.to_string());
    }
    let r = c.p.run(w, &[]);
    judge(&c, &r)?;
    if n <= 600 {
        let t = c.p.run(w, &["--format", "top"]);
        compare_top(r.graph().unwrap(), &t)?;
    }
    Ok(dim.to_string())
}

/// sizes around the powers of two
fn sizes(most: usize) -> Vec<usize> {
    let mut v = vec![];
    for k in 0..64 {
        for d in [-1i64, 0, 1] {
            let n = (1i128 << k) + d as i128;
            if n >= 1 && n <= most as i128 && !v.contains(&(n as usize)) {
                v.push(n as usize);
            }
        }
    }
    v
}

pub fn check(ctx: &Ctx) {
    ctx.explore(
        "sizes",
        0,
        |c| {
            let (d, quick) = *c.of(DIMENSIONS);
            let most = match d {
                _ if !ctx.thorough || quick == usize::MAX => quick,
                "nesting" => 129,
                "ring" => 2049,
                "chain" | "self-loops" | "fan-out" | "fan-in" | "dead" | "records" => 4097,
                _ if quick >= 65537 => 1 << 20,
                _ => quick * 4,
            };
            let n = *c.of(&sizes(most));
            let arch = *c.of(&[Arch::A64, Arch::V7]);
            let start = if ctx.thorough || n <= 257 { c.flag() } else { n % 2 == 1 };
            Some((d, n, arch, start))
        },
        |w, &(d, n, arch, start)| run(w, d, n, arch, start),
    );
    ctx.assume("sizes are those of programs with fewer than 21,000 functions per object file (beyond that ELF needs extended section numbers) and of types nested less than 130 deep; stack sizes are below 2^62");
}
