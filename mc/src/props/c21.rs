//! C21: the same programs under every hash seed of a family, every permutation of what the
//! artifacts list in some order, and again and again.
use crate::ctx::{fail, Ctx, Exec};
use crate::dot::Graph;
use crate::elf::{FUNC, NOTYPE};
use crate::explore::Chooser;
use crate::run::{Out, Run, Worker};
use crate::world::*;
use std::collections::HashMap;
use std::sync::Mutex;

const FEATURES: usize = 10;

struct Built {
    p: Prog,
    /// items of the two IR files
    ir: Vec<String>,
    cb: Vec<String>,
    /// names of one function: any of them may be shown
    aliases: Vec<Vec<&'static str>>,
}

/// Every feature makes the analysis go through another of its tables.
fn build(a: Arch, feats: usize) -> Built {
    let has = |f: usize| feats >> f & 1 == 1;
    let mut b = Built { p: Prog::new(a), ir: vec![], cb: vec![], aliases: vec![] };
    let mut calls: Vec<String> = vec![];
    let mut bl: Vec<usize> = vec![];
    let add = |b: &mut Built, n: &str, s: Option<u64>, callees: &[usize]| -> usize {
        let f = Fun::new(a, n, s);
        let k = b.p.funs.len();
        b.p.funs.push(Fun { ops: body(a, s.unwrap_or(0), callees), ..f });
        k
    };
    if has(0) {
        // one function, three names
        let k = add(&mut b, "al1", Some(24), &[]);
        b.p.funs[k].names = vec![("al1".into(), FUNC), ("al2".into(), NOTYPE), ("al3".into(), FUNC)];
        b.p.funs[k].obj_names = vec!["al3".into(), "al1".into()];
        b.ir.push(void_fn("al2", &[]));
        calls.extend(["call void @al1()".into(), "call void @al3()".into()]);
        bl.push(k);
        b.aliases.push(vec!["al1", "al2", "al3"]);
    }
    if has(1) {
        // function pointers, several of them compatible with each other
        for (n, t, s) in [("p1", "ptr", 8), ("p2", "i8*", 16), ("p3", "i32*", 32), ("p4", "i32", 4), ("p5", "i32, ptr", 12)] {
            add(&mut b, n, Some(s), &[]);
            b.ir.push(define("void", n, t, &if n == "p1" { vec!["call void %q(i32 1)".to_string()] } else { vec![] }));
        }
        for t in ["ptr", "i8*", "i32", "i32, i8*"] {
            calls.push(format!("call void %f({})", t.split(", ").map(|t| format!("{} 0", t)).collect::<Vec<_>>().join(", ")));
        }
    }
    if has(2) {
        // two cycles, one reaching the other, and a self call
        let k = b.p.funs.len();
        for (i, (n, s, c)) in [("u", 8, vec![k + 1]), ("v", 16, vec![k, k + 2]), ("w", 4, vec![k + 3]), ("x", 32, vec![k + 2, k + 4]), ("y", 8, vec![k + 4])].into_iter().enumerate() {
            assert_eq!(add(&mut b, n, Some(s), &c), k + i);
            let names = ["u", "v", "w", "x", "y"];
            b.ir.push(void_fn(n, &c.iter().map(|j| names[j - k]).collect::<Vec<_>>()));
        }
        calls.push("call void @v()".into());
        bl.push(k + 1);
    }
    if has(3) {
        // no type information; on Thumb it calls a register
        let k = add(&mut b, "raw", None, &[]);
        if a.thumb() {
            b.p.funs[k].ops = vec![Op::Raw(vec![0x80, 0x47, 0x70, 0x47])];
        }
        bl.push(k);
        calls.push("call void @raw()".into());
        calls.push("call i64 %g(i64 0)".into());
    }
    if has(4) {
        b.p.undef = vec!["ext1".into(), "ext2".into()];
        b.ir.push(declare("void", "ext1", ""));
        b.ir.push(declare("void", "ext2", ""));
        calls.extend(["call void @ext2()".into(), "call void @ext1()".into(), "call void @ext2()".into()]);
    }
    if has(5) {
        for (n, s) in [("memcpy", 8), ("__aeabi_memcpy", 16), ("__aeabi_memcpy4", 4), ("memset", 12)] {
            let k = add(&mut b, n, Some(s), &[]);
            b.p.funs[k].in_rlib = true;
            b.cb.push(define("ptr", n, "ptr %a, ptr %b, i32 %c", &[]));
        }
        calls.push("call void @llvm.memcpy.p0.p0.i32(ptr %a, ptr %b, i32 4, i1 false)".into());
        calls.push("call void @llvm.memset.p0.i32(ptr %a, i8 0, i32 4, i1 false)".into());
    }
    if has(6) {
        // names that are shortened, and names that cannot be
        for (n, s) in [("_ZN1a1b17h0123456789abcdefE", 8), ("_ZN1a1b17hfedcba9876543210E", 16), ("_ZN1a1c17h0123456789abcdefE", 24)] {
            let k = add(&mut b, n, Some(s), &[]);
            b.ir.push(void_fn(n, &[]));
            calls.push(format!("call void @{}()", n));
            bl.push(k);
        }
        // one more, removed by the linker
        b.ir.push(void_fn("_ZN1a1c17hfedcba9876543210E", &[]));
    }
    if has(7) {
        // sizes from the machine code
        let k = add(&mut b, "asm", Some(0), &[]);
        b.p.funs[k].ops = body(a, 40, &[]);
        b.ir.push(define("void", "asm", "", &["call void asm sideeffect \"nop\", \"\"()".into()]));
        let o = add(&mut b, "OUTLINED_FUNCTION_0", Some(0), &[]);
        b.p.funs[o].ops = body(a, 8, &[]);
        b.ir.push(void_fn("OUTLINED_FUNCTION_0", &[]));
        bl.extend([k, o]);
        calls.push("call void @asm()".into());
    }
    if has(8) {
        // given in both files; dead in one of them; same name at two addresses
        let k = add(&mut b, "both", Some(48), &[]);
        b.p.funs[k].in_rlib = true;
        b.cb.push(void_fn("both", &[]));
        b.ir.push(declare("void", "both", ""));
        b.ir.push(void_fn("gone", &["both"]));
        calls.push("call void @both()".into());
        bl.push(k);
    }
    if has(9) {
        // a ring of four with a chord, all different; it reaches another ring
        let k = b.p.funs.len();
        let ring = [("r0", Some(64), vec![k + 1]), ("r1", Some(8), vec![k + 2]), ("r2", Some(40), vec![k + 3, k + 4]), ("r3", Some(16), vec![k, k + 1]), ("leaf", Some(24), vec![k + 5]), ("s0", Some(8), vec![k + 6]), ("s1", Some(16), vec![k + 7]), ("s2", Some(48), vec![k + 5])];
        let names: Vec<&str> = ring.iter().map(|r| r.0).collect();
        for (i, (n, s, c)) in ring.iter().enumerate() {
            assert_eq!(add(&mut b, n, *s, c), k + i);
            b.ir.push(void_fn(n, &c.iter().map(|j| names[j - k]).collect::<Vec<_>>()));
        }
        calls.push("call void @r1()".into());
        bl.push(k + 1);
    }
    let m = add(&mut b, "main", Some(4), &bl);
    b.ir.push(define("void", "main", "", &calls));
    let _ = m;
    b
}

/// permutations of `0..n`: all of them up to 4, else reversal, rotations and transpositions (`all`, or of neighbours)
fn perms(n: usize, all: bool) -> Vec<Vec<usize>> {
    let id: Vec<usize> = (0..n).collect();
    let mut out = vec![id.clone()];
    if n <= 4 {
        fn rec(cur: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
            if cur.len() == n {
                out.push(cur.clone());
                return;
            }
            for i in 0..n {
                if !cur.contains(&i) {
                    cur.push(i);
                    rec(cur, n, out);
                    cur.pop();
                }
            }
        }
        rec(&mut vec![], n, &mut out);
    } else {
        let mut r = id.clone();
        r.reverse();
        out.push(r);
        for k in 1..n {
            let mut r = id.clone();
            r.rotate_left(k);
            out.push(r);
        }
        for i in 0..n {
            for j in i + 1..if all { n } else { n.min(i + 2) } {
                let mut r = id.clone();
                r.swap(i, j);
                out.push(r);
            }
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|p| seen.insert(p.clone()));
    out
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Program {
    arch: Arch,
    feats: usize,
    top: bool,
    start: usize,
}

#[derive(Clone, Debug, Default)]
struct Variant {
    seed: u64,
    syms: Vec<usize>,
    objs: Vec<usize>,
    ir: Vec<usize>,
    cb: Vec<usize>,
    /// order of the functions in memory
    layout: Vec<usize>,
    names_reversed: bool,
}

const STARTS: &[Option<&str>] = &[None, Some("main"), Some("v"), Some("a::b"), Some("a::c"), Some("al2"), Some("nope")];

fn reorder<T: Clone>(v: &[T], p: &[usize]) -> Vec<T> {
    p.iter().map(|&i| v[i].clone()).collect()
}

fn run(w: &mut Worker, k: &Program, v: &Variant) -> (Run, Vec<Vec<&'static str>>) {
    let mut b = build(k.arch, k.feats);
    if !v.ir.is_empty() {
        b.ir = reorder(&b.ir, &v.ir);
    }
    if !v.cb.is_empty() {
        b.cb = reorder(&b.cb, &v.cb);
    }
    if !v.layout.is_empty() {
        b.p.funs = reorder(&b.p.funs, &v.layout);
        let new: Vec<usize> = (0..v.layout.len()).map(|k| v.layout.iter().position(|&l| l == k).unwrap()).collect();
        for o in b.p.funs.iter_mut().flat_map(|f| &mut f.ops) {
            if let Op::Bl(t) | Op::B(t) = o {
                *t = new[*t];
            }
        }
    }
    b.p.ll = b.ir.concat();
    b.p.cb_ll = b.cb.concat();
    if !v.syms.is_empty() {
        b.p.sym_order = Some(v.syms.clone());
    }
    if !v.objs.is_empty() {
        b.p.obj_order = Some(v.objs.clone());
    }
    if v.names_reversed {
        for f in &mut b.p.funs {
            f.names.reverse();
            f.obj_names.reverse();
        }
        b.p.undef.reverse();
    }
    b.p.install(w);
    let mut a: Vec<String> = ["--example", "app", "--target", k.arch.target()].iter().map(|s| s.to_string()).collect();
    if k.top {
        a.extend(["--format".into(), "top".into()]);
    }
    a.extend(STARTS[k.start].map(String::from));
    let mut c = w.base_command(&a);
    c.env("LD_PRELOAD", &w.tools.shim).env("MC_SEED", v.seed.to_string());
    (w.exec(c), b.aliases)
}

/// the result, regardless of the order in which it is listed
fn canon(r: &Run, aliases: &[Vec<&'static str>]) -> Result<String, String> {
    match &r.out {
        Out::Graph(g) => {
            let mut g: Graph = g.clone();
            for n in &mut g.nodes {
                for a in aliases {
                    if a.contains(&&n.name[..]) {
                        n.name = a[0].into()
                    }
                }
            }
            Ok(format!("{:?}", g.canon()))
        }
        Out::Text(t) => {
            let mut l: Vec<String> = t.lines().map(|l| aliases.iter().flatten().fold(l.to_string(), |l, a| if l.ends_with(&format!(" {}", a)) { l[..l.len() - a.len()].to_string() + "al1" } else { l })).collect();
            let head: Vec<String> = l.drain(..2.min(l.len())).collect();
            l.sort();
            Ok(format!("{:?} {:?}", head, l))
        }
        _ => Err(r.brief()),
    }
}

static BASE: Mutex<Option<HashMap<Program, String>>> = Mutex::new(None);

fn compare(w: &mut Worker, k: &Program, v: &Variant) -> Exec {
    let known = BASE.lock().unwrap().as_ref().and_then(|b| b.get(k).cloned());
    let base = match known {
        Some(b) => b,
        None => {
            let (r, al) = run(w, k, &Variant::default());
            let c = match canon(&r, &al) {
                Ok(c) => c,
                Err(e) => return fail("no-graph", format!("{}; {:?}", e, k)),
            };
            BASE.lock().unwrap().get_or_insert_with(HashMap::new).insert(k.clone(), c.clone());
            c
        }
    };
    let (r, al) = run(w, k, v);
    match canon(&r, &al) {
        Ok(c) if c == base => {
            // how often the listing differs tells how many orders were reached
            let mut h = std::collections::hash_map::DefaultHasher::new();
            use std::hash::{Hash, Hasher};
            r.stdout.hash(&mut h);
            Ok(format!("{:x}", h.finish()))
        }
        Ok(c) => fail("differs", format!("{:?} {:?}: expected {}; got {}", k, v, base, c)),
        Err(e) => fail("differs", format!("{:?} {:?}: expected {}; got {}", k, v, base, e)),
    }
}

fn program(c: &mut Chooser, ctx: &Ctx) -> Option<Program> {
    let arch = *c.of(&[Arch::V7, Arch::A64]);
    // all features, all but one, one, two
    let all = (1 << FEATURES) - 1;
    let feats = match c.pick(4) {
        0 => all,
        1 => all & !(1 << c.pick(FEATURES)),
        2 => 1 << c.pick(FEATURES),
        _ => {
            let (i, j) = (c.pick(FEATURES), c.pick(FEATURES));
            if i >= j || !ctx.thorough {
                return None;
            }
            1 << i | 1 << j
        }
    };
    let top = c.flag();
    let start = c.pick(STARTS.len());
    if !ctx.thorough && (top || start > 2) && feats != all {
        return None;
    }
    Some(Program { arch, feats, top, start })
}

pub fn check(ctx: &Ctx) {
    // hash seeds
    let seeds = if ctx.thorough { 256 } else { 32 };
    ctx.explore(
        "seeds",
        0,
        |c| {
            let p = program(c, ctx)?;
            let seed = c.pick(seeds) as u64;
            Some((p, Variant { seed, ..Default::default() }))
        },
        |w, (p, v)| compare(w, p, v),
    );
    // orders
    ctx.explore(
        "orders",
        0,
        |c| {
            let p = program(c, ctx)?;
            if p.start > 1 && !(ctx.thorough && p.feats == (1 << FEATURES) - 1) {
                return None;
            }
            let b = build(p.arch, p.feats);
            let mut v = Variant { seed: c.pick(2) as u64, names_reversed: c.flag(), ..Default::default() };
            match c.pick(6) {
                5 => v.layout = c.of(&perms(b.p.funs.len(), ctx.thorough)).clone(),
                0 => v.syms = c.of(&perms(b.p.funs.len(), ctx.thorough)).clone(),
                1 => v.objs = c.of(&perms(b.p.funs.len(), ctx.thorough)).clone(),
                2 => v.ir = c.of(&perms(b.ir.len(), ctx.thorough)).clone(),
                3 => v.cb = c.of(&perms(b.cb.len(), ctx.thorough)).clone(),
                _ => {
                    // everything reversed or rotated
                    let k = c.pick(4);
                    let f = |n: usize| {
                        let mut p: Vec<usize> = (0..n).collect();
                        if k & 1 == 1 {
                            p.reverse()
                        }
                        if k & 2 == 2 && n > 0 {
                            p.rotate_left(n / 2)
                        }
                        p
                    };
                    v.syms = f(b.p.funs.len());
                    v.objs = f(b.p.funs.len());
                    v.ir = f(b.ir.len());
                    v.cb = f(b.cb.len());
                }
            }
            Some((p, v))
        },
        |w, (p, v)| compare(w, p, v),
    );
    // one cycle, its functions in every order
    ctx.explore(
        "cycles",
        0,
        |c| {
            let arch = *c.of(&[Arch::V7, Arch::A64]);
            let n = 3 + c.pick(if ctx.thorough { 3 } else { 2 });
            // one of them has a large frame, and one calls out of the cycle
            let big = c.pick(n);
            let exit = c.pick(n);
            let chord = c.pick(n);
            let mut left: Vec<usize> = (0..n).collect();
            let mut order = vec![];
            while !left.is_empty() {
                order.push(left.remove(c.pick(left.len())));
            }
            Some((arch, n, big, exit, chord, order))
        },
        |w, (arch, n, big, exit, chord, order)| {
            let mut p = Prog::new(*arch);
            let pos = |k: usize| order.iter().position(|&o| o == k).unwrap();
            let locals: Vec<u64> = (0..*n).map(|k| if k == *big { 64 } else { 8 + 4 * k as u64 }).collect();
            let mut want = super::expect::Want::new();
            want.node("out", Some(32));
            for &k in order {
                let name = format!("c{}", k);
                want.node(&name, Some(locals[k]));
                let mut cs = vec![(k + 1) % n];
                if k == *exit && *chord != cs[0] && *chord != k {
                    cs.push(*chord);
                }
                let mut names: Vec<String> = cs.iter().map(|c| format!("c{}", c)).collect();
                let mut at: Vec<usize> = cs.iter().map(|&c| pos(c)).collect();
                if k == *exit {
                    names.push("out".into());
                    at.push(*n);
                }
                for m in &names {
                    want.edge(&name, m);
                }
                let names: Vec<&str> = names.iter().map(|n| &n[..]).collect();
                p.ll.push_str(&void_fn(&name, &names));
                p.funs.push(Fun { ops: body(*arch, locals[k], &at), ..Fun::new(*arch, &name, Some(locals[k])) });
            }
            p.funs.push(Fun::new(*arch, "out", Some(32)));
            p.ll.push_str(&void_fn("out", &[]));
            let r = p.run(w, &[]);
            want.judge(&r)?;
            let g = r.graph().unwrap();
            for k in 0..*n {
                let m = g.nodes[g.find(&format!("c{}", k)).unwrap()].max;
                if m != Some((false, 96)) {
                    return fail("cycle", format!("order {:?}, frames {:?}, exit {}: max of c{} is {:?}", order, locals, exit, k, m));
                }
            }
            Ok("96".into())
        },
    );
    ctx.assume("the seeds of the hash maps are the only source of nondeterminism; they come from getrandom(), which the shim answers");
}
