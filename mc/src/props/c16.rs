//! C16: every small program printed in both formats, with and without start point; the numbers and
//! names must be the same.
use super::graphs::*;
use crate::ctx::{fail, Ctx, Exec};
use crate::dot::Graph;
use crate::ensure;
use crate::model::stack::CallGraph;
use crate::run::{Out, Run, Worker};
use crate::world::*;

fn escaped(n: &str) -> String {
    n.replace('\\', "\\\\").replace('"', "\\\"")
}

/// Compares the output of `--format top` with the graph of the DOT format.
pub fn compare_top(g: &Graph, t: &Run) -> Exec {
    let text = match &t.out {
        Out::Text(s) => s.clone(),
        _ => return fail("no-top", format!("no top output: {}", t.brief())),
    };
    ensure!(text.ends_with('\n'), "end", "the output does not end with a line feed: {:?}", text);
    let mut lines: Vec<&str> = text.split('\n').collect();
    lines.pop();
    ensure!(lines.len() == g.nodes.len() + 2, "lines", "{} lines for {} nodes: {:?}", lines.len(), g.nodes.len(), text);
    let max = match lines[0].strip_suffix(" MAX").and_then(|n| n.parse::<u64>().ok()) {
        Some(n) => n,
        None => return fail("max-line", format!("first line {:?}", lines[0])),
    };
    let want = g.nodes.iter().map(|n| n.max.map(|m| m.1).unwrap_or(0)).max().unwrap_or(0);
    ensure!(max == want, "max", "{} MAX printed, the largest max is {}: {:?}", max, want, text);
    ensure!(lines[1].contains("Function"), "header", "no column header: {:?}", text);
    let mut last = u64::MAX;
    let mut got: Vec<(u64, String)> = vec![];
    for l in &lines[2..] {
        let (n, name) = match l.split_once(' ').and_then(|(n, name)| n.parse::<u64>().ok().map(|n| (n, name))) {
            Some(x) => x,
            None => return fail("entry", format!("malformed line {:?}", l)),
        };
        ensure!(n <= last, "order", "not in non-increasing order: {:?}", text);
        last = n;
        got.push((n, name.to_string()));
    }
    got.sort();
    // names may be printed as they are or the way they are written in DOT
    let mut a: Vec<(u64, String)> = g.nodes.iter().map(|n| (n.local.unwrap_or(0), n.name.clone())).collect();
    let mut b: Vec<(u64, String)> = g.nodes.iter().map(|n| (n.local.unwrap_or(0), escaped(&n.name))).collect();
    a.sort();
    b.sort();
    ensure!(got == a || got == b, "entries", "entries {:?}, nodes {:?}", got, a);
    Ok(text)
}

fn both(w: &mut Worker, p: &mut Prog, extra: &[&str]) -> Exec {
    let d = p.run(w, extra);
    let g = match d.graph() {
        Some(g) => g,
        None => return fail("no-graph", format!("no graph: {}", d.brief())),
    };
    let mut e = vec!["--format", "top"];
    e.extend(extra);
    let t = p.run(w, &e);
    compare_top(g, &t).map_err(|mut f| {
        f.msg = format!("{}; {}", f.msg, d.brief());
        f
    })
}

pub fn check(ctx: &Ctx) {
    let graph = |n: usize, mask: u32, local: Vec<Option<u64>>| Component {
        prefix: String::new(),
        g: CallGraph { local, succ: (0..n).map(|i| (0..n).filter(|j| mask >> (i * n + j) & 1 == 1).collect()).collect() },
    };
    const W: [Option<u64>; 5] = [None, Some(0), Some(8), Some(16), Some(100)];
    ctx.explore(
        "pairs",
        0,
        |c| {
            let n = 1 + c.pick(2);
            let mask = c.pick(1 << (n * n)) as u32;
            let local = (0..n).map(|_| *c.of(&W)).collect();
            let arch = *c.of(&[Arch::A64, Arch::V7, Arch::X64]);
            let start = c.pick(n + 1);
            Some((n, mask, local, arch, start))
        },
        |w, (n, mask, local, arch, start): &(usize, u32, Vec<Option<u64>>, Arch, usize)| {
            let mut p = program(*arch, &[graph(*n, *mask, local.clone())]);
            let s = format!("n{}", start.wrapping_sub(1));
            both(w, &mut p, if *start == 0 { &[] } else { std::slice::from_ref(&s).iter().map(|s| &s[..]).collect::<Vec<_>>().leak() })
        },
    );
    let thorough = ctx.thorough;
    ctx.explore(
        "triples",
        0,
        |c| {
            let mask = c.pick(512) as u32;
            let ws: &[Option<u64>] = if thorough { &W } else { &[Some(100), Some(8), None] };
            let local: Vec<Option<u64>> = (0..3).map(|_| *c.of(ws)).collect();
            // without any stack usage information: once
            if !thorough && local.iter().filter(|l| **l == Some(8)).count() > 1 {
                return None;
            }
            let start = if thorough { c.pick(4) } else { (mask as usize + local.iter().filter(|l| l.is_none()).count()) % 4 };
            Some((mask, local, start))
        },
        |w, (mask, local, start)| {
            let mut p = program(Arch::A64, &[graph(3, *mask, local.clone())]);
            match start {
                0 => both(w, &mut p, &[]),
                1 => both(w, &mut p, &["n0"]),
                2 => both(w, &mut p, &["n1"]),
                _ => both(w, &mut p, &["n2"]),
            }
        },
    );
    // many functions: the order of all permutations of weights
    ctx.explore(
        "order",
        0,
        |c| {
            // beyond 32 bits, too
            let mut left: Vec<u64> = match c.pick(3) {
                0 => vec![0, 8, 10, 96, 1000, 8],
                1 => vec![8, 1 << 31, (1 << 32) - 8, 1 << 32, (1 << 32) + 8],
                _ => vec![3 << 32, (2 << 32) + 16, (1 << 32) + 24, 1 << 62, 40],
            };
            let mut v = vec![];
            while !left.is_empty() {
                let i = c.pick(left.len());
                v.push(left.remove(i));
            }
            // one of them unknown
            Some((v, c.pick(2)))
        },
        |w, (v, unknown)| {
            let mut local: Vec<Option<u64>> = v.iter().map(|x| Some(*x)).collect();
            if *unknown == 1 {
                local[0] = None;
            }
            let n = local.len();
            let g = Component { prefix: String::new(), g: CallGraph { local, succ: (0..n).map(|i| if i + 1 < n { vec![i + 1] } else { vec![] }).collect() } };
            both(w, &mut program(Arch::A64, &[g]), &[])
        },
    );
    // labels: mangled, escaped, shared, fictitious, unknown, equal
    let names: &[&str] = &[
        "plain", "_ZN3app3foo17h0123456789abcdefE", "_ZN3app3foo17h1123456789abcdefE", "_RNvC3app3foo", "a\"b", "a\\b", "\\", "a b", "12 x", "caf\u{e9}", "MAX", "Usage", "_ZN3app7_$u22$x",
    ];
    ctx.explore(
        "labels",
        0,
        |c| {
            let a = c.pick(names.len());
            let b = c.pick(names.len());
            let ind = c.pick(3);
            let undef = c.flag();
            let stack = *c.of(&[Some(8u64), None, Some(0)]);
            if b <= a {
                return None;
            }
            Some((a, b, ind, undef, stack))
        },
        |w, (a, b, ind, undef, stack)| {
            let mut p = Prog::new(Arch::A64);
            p.funs.push(Fun::new(Arch::A64, names[*a], *stack));
            p.funs.push(Fun::new(Arch::A64, names[*b], Some(16)));
            p.funs.push(Fun::new(Arch::A64, "main", if *ind == 2 { None } else { *stack }));
            let mut st = vec![format!("call void @{}()", ir_name(names[*a]))];
            if *ind > 0 {
                st.push("call void %p(%\"a b\"* null)".into());
                p.ll.push_str(&define("void", &ir_name(names[*b]), "%\"a b\"* %x", &[]));
            } else {
                st.push(format!("call void @{}()", ir_name(names[*b])));
                p.ll.push_str(&void_fn(&ir_name(names[*b]), &[]));
            }
            if *undef {
                p.undef.push("ext".into());
                st.push("call void @ext()".into());
                p.ll.push_str(&declare("void", "ext", ""));
                // a function without type information
                p.funs.push(Fun::new(Arch::A64, "untyped", Some(48)));
            }
            p.ll.push_str(&void_fn(&ir_name(names[*a]), &[]));
            p.ll.push_str(&define("void", "main", "", &st));
            both(w, &mut p, &[])
        },
    );
    // same label twice, no stack usage information at all
    ctx.explore(
        "corner",
        0,
        |c| Some((c.pick(3), c.flag(), c.flag())),
        |w, (what, cyc, thumb)| {
            let arch = if *thumb { Arch::V7 } else { Arch::A64 };
            let mut p = Prog::new(arch);
            let st = if *what == 0 { None } else { Some(8) };
            for n in ["f", if *what == 2 { "f" } else { "g" }] {
                let mut f = Fun::new(arch, n, st);
                if *what == 2 {
                    f.stack = None;
                    f.obj_names.clear();
                }
                p.funs.push(f);
            }
            p.funs.push(Fun::new(arch, "main", st));
            if *what != 2 {
                p.ll.push_str(&void_fn("f", if *cyc { &["f"] } else { &[] }));
                p.ll.push_str(&void_fn("g", &[]));
            }
            p.ll.push_str(&void_fn("main", &["f"]));
            both(w, &mut p, &[])
        },
    );
    ctx.assume("names that contain line feeds are left out (C15 covers them in the DOT format)");
    ctx.assume("the numbers of the DOT format are judged by C01, C02, C10 and C11");
    super::views::check(ctx, super::views::View::Top);
}
