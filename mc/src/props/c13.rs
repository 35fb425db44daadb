//! C13: every small call graph x naming scheme x start point, against reachability in the
//! unfiltered graph of the same program.
use crate::ctx::{fail, Ctx, Exec};
use crate::dot::Graph;
use crate::elf::{FUNC, NOTYPE};
use crate::ensure;
use crate::run::Worker;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

struct Scheme {
    name: &'static str,
    /// symbols of the three functions (the first FUNC, the others aliases)
    funs: [&'static [&'static str]; 3],
    /// an undefined symbol that the last function calls
    undef: Option<&'static str>,
    starts: &'static [&'static str],
}

/// symbol -> path without hash
const PATHS: &[(&str, &str)] = &[
    ("_ZN3app4main17h0000000000000001E", "app::main"),
    ("_ZN3app3foo17h0000000000000002E", "app::foo"),
    ("_ZN3app3foo17h00000000000000a2E", "app::foo"),
    ("_ZN3app3foo17h00000000000000b2E", "app::foo"),
    ("_ZN3app3bar17h0000000000000003E", "app::bar"),
    ("_ZN3app3baz17h0000000000000004E", "app::baz"),
    ("_ZN3app3foo6helper17h0000000000000005E", "app::foo::helper"),
    ("_ZN3app3foo18handle_interrupts017h0000000000000007E", "app::foo::handle_interrupts0"),
    ("_ZN3foo6helper17h0000000000000008E", "foo::helper"),
    ("_ZN3foo17h0000000000000009E", "foo"),
    ("_ZN3app3ext17h000000000000000aE", "app::ext"),
    ("_ZN4_app3foo17h0000000000000011E", "_app::foo"),
    ("_ZN3app4foo_17h0000000000000012E", "app::foo_"),
    ("_ZN3App3foo17h0000000000000013E", "App::foo"),
    ("_ZN3app3app3foo17h0000000000000014E", "app::app::foo"),
    ("_ZN3app3foo3foo17h0000000000000015E", "app::foo::foo"),
    ("_ZN7app_foo17h0000000000000016E", "app_foo"),
    ("_ZN1a17h0000000000000017E", "a"),
    ("_ZN1b17h0000000000000018E", "b"),
    ("_ZN2ab17h0000000000000019E", "ab"),
    ("_ZN3app3foo17h0123456789abcdef17h000000000000000bE", "app::foo::h0123456789abcdef"),
    ("_ZN59_$LT$app..S$u20$as$u20$core..ops..function..Fn$LT$A$GT$$GT$4call17h000000000000000cE", "<app::S as core::ops::function::Fn<A>>::call"),
];

const M: &str = "_ZN3app4main17h0000000000000001E";
const F: &str = "_ZN3app3foo17h0000000000000002E";
const FA: &str = "_ZN3app3foo17h00000000000000a2E";
const FB: &str = "_ZN3app3foo17h00000000000000b2E";
const B: &str = "_ZN3app3bar17h0000000000000003E";
const Z: &str = "_ZN3app3baz17h0000000000000004E";
const FH: &str = "_ZN3app3foo6helper17h0000000000000005E";
const FI: &str = "_ZN3app3foo18handle_interrupts017h0000000000000007E";
const GH: &str = "_ZN3foo6helper17h0000000000000008E";
const G0: &str = "_ZN3foo17h0000000000000009E";
const X: &str = "_ZN3app3ext17h000000000000000aE";
const HH: &str = "_ZN3app3foo17h0123456789abcdef17h000000000000000bE";
const S: &str = "_ZN59_$LT$app..S$u20$as$u20$core..ops..function..Fn$LT$A$GT$$GT$4call17h000000000000000cE";

const N: [&str; 6] = [
    "_ZN4_app3foo17h0000000000000011E",
    "_ZN3app4foo_17h0000000000000012E",
    "_ZN3App3foo17h0000000000000013E",
    "_ZN3app3app3foo17h0000000000000014E",
    "_ZN3app3foo3foo17h0000000000000015E",
    "_ZN7app_foo17h0000000000000016E",
];
const NEAR: &[&str] = &["app::foo", "_app::foo", "__app::foo", "app::foo_", "app::foo__", "App::foo", "APP::FOO", "app::app::foo", "app::foo::foo", "foo", "app_foo", "app:foo", "app::foo ", "foo::foo", "app foo"];

const SCHEMES: &[Scheme] = &[
    Scheme { name: "near-1", funs: [&[N[0]], &[N[1]], &[N[2]]], undef: None, starts: NEAR },
    Scheme { name: "near-2", funs: [&[N[3]], &[N[4]], &[N[5]]], undef: None, starts: NEAR },
    Scheme { name: "short", funs: [&["_ZN1a17h0000000000000017E"], &["_ZN2ab17h0000000000000019E"], &["_ZN1b17h0000000000000018E"]], undef: None, starts: &["a", "b", "ab", "", "a::", "ba"] },
    Scheme { name: "near-3", funs: [&[F], &[N[0], N[1]], &[N[3]]], undef: Some(N[2]), starts: NEAR },
    Scheme {
        name: "mangled",
        funs: [&[M], &[F], &[B]],
        undef: None,
        starts: &[
            "app::main", "app::foo", "app::bar", M, F, B, "app", "main", "foo", "app::", "app::fo", "app::foo::", "::foo", "app::fooo", "", "?", "App::foo", "void ()*",
            "app::foo::h0000000000000002", "_ZN3app3foo17h0000000000000002", "_ZN3app3foo", "app::foo::h0000000000000003", "nothing", "-", " app::foo",
        ],
    },
    Scheme { name: "plain", funs: [&["main"], &["foo"], &["foo_bar"]], undef: None, starts: &["main", "foo", "foo_bar", "fo", "foo_", "bar", "", "Main", "foo::bar", "main\n"] },
    Scheme { name: "ambiguous", funs: [&[FA], &[F], &[M]], undef: None, starts: &["app::foo", FA, F, "app::main", "app::foo::h00000000000000a2", "foo"] },
    Scheme { name: "all-ambiguous", funs: [&[FA], &[F], &[FB]], undef: None, starts: &["app::foo", FA, F, FB, "foo"] },
    Scheme { name: "prefixes", funs: [&[F], &[FH], &[GH]], undef: None, starts: &["app::foo", "foo", "app::foo::helper", "foo::helper", "helper", "app", FH, GH] },
    Scheme { name: "only-longer", funs: [&[FI], &[FH], &[HH]], undef: None, starts: &["app::foo", "app::foo::handle_interrupts0", "app::foo::h0123456789abcdef", "app::foo::helper", "app"] },
    Scheme { name: "aliases", funs: [&[M, "entry"], &["one", "two", "three"], &["bar"]], undef: None, starts: &["entry", "app::main", M, "one", "two", "three", "bar", "entr"] },
    Scheme { name: "mangled-aliases", funs: [&[F, Z], &["plain", B], &[M, M]], undef: None, starts: &["app::foo", "app::baz", F, Z, "plain", "app::bar", B, "app::main"] },
    Scheme { name: "same-path-aliases", funs: [&[F, FA], &[B], &[M]], undef: None, starts: &["app::foo", F, FA, "app::bar"] },
    Scheme { name: "undefined", funs: [&[M], &["foo"], &[B]], undef: Some("ext"), starts: &["ext", "app::main", "foo", "app::ext", "ex"] },
    Scheme { name: "undefined-mangled", funs: [&[M], &["foo"], &[B]], undef: Some(X), starts: &["app::ext", X, "app::main", "foo", "ext"] },
    Scheme { name: "undefined-ambiguous", funs: [&[M], &[F], &[B]], undef: Some(FA), starts: &["app::foo", FA, F, "app::main"] },
    Scheme { name: "equal-names", funs: [&["dup"], &["dup"], &["main"]], undef: None, starts: &["dup", "main", "du"] },
    Scheme { name: "equal-mangled", funs: [&[F], &[F], &[M]], undef: None, starts: &["app::foo", F, "app::main"] },
    Scheme { name: "equal-alias", funs: [&["one", "dup"], &["dup", "two"], &["main"]], undef: None, starts: &["dup", "one", "two", "main"] },
    Scheme { name: "path-and-symbol", funs: [&["foo"], &[G0], &[M]], undef: None, starts: &["foo", G0, "app::main"] },
    Scheme { name: "impl", funs: [&[S], &[F], &[M]], undef: None, starts: &["<app::S as core::ops::function::Fn<A>>::call", "app::S", "call", "<app::S as core::ops::function::Fn<A>>", S, "app::foo"] },
];

const WEIGHTS: [[u64; 3]; 3] = [[4, 12, 20], [20, 12, 4], [0, 8, 24]];

#[derive(Clone, Debug)]
struct Case {
    arch: Arch,
    scheme: usize,
    mask: u32,
    /// function without known stack usage
    unknown: usize,
    /// function that calls through a pointer
    indirect: usize,
    weights: usize,
    /// restrict to the first n start points
    few: bool,
}

fn build(k: &Case) -> Prog {
    let s = &SCHEMES[k.scheme];
    let equal = s.name.starts_with("equal");
    let mut p = Prog::new(k.arch);
    for i in 0..3 {
        let w = WEIGHTS[k.weights][i];
        // equal local names: sizes come from the machine code
        let stack = if k.unknown == i + 1 || (equal && s.funs[i].contains(&"dup")) || (equal && s.funs[i].contains(&F)) { None } else { Some(w) };
        let mut f = Fun::new(k.arch, s.funs[i][0], stack);
        f.names = s.funs[i].iter().enumerate().map(|(j, n)| (n.to_string(), if j == 2 { NOTYPE } else { FUNC })).collect();
        f.names.dedup();
        f.obj_names = if stack.is_some() { f.names.iter().map(|n| n.0.clone()).collect() } else { vec![] };
        let callees: Vec<usize> = (0..3).filter(|j| k.mask >> (i * 3 + j) & 1 == 1).collect();
        if k.arch.thumb() {
            f.ops = body(k.arch, w, &callees);
            if k.unknown == i + 1 {
                f.ops.insert(0, Op::Raw(vec![0x81, 0xb0])); // sub sp, #4
                let at = f.ops.len() - 1;
                f.ops.insert(at, Op::Raw(vec![0xfe, 0xd1])); // bne .
            }
        }
        p.funs.push(f);
        if equal && i < 2 {
            // the machine code tells
            continue;
        }
        // call under various names
        let mut st: Vec<String> = callees
            .iter()
            .filter(|&&j| !(equal && j < 2))
            .map(|&j| format!("call void @{}() #0", q(s.funs[j][(i + j) % s.funs[j].len()])))
            .collect();
        if i == 2 {
            if let Some(u) = s.undef {
                st.push(format!("call void @{}() #0", q(u)));
            }
        }
        if k.indirect == i + 1 {
            st.push("call void %p() #0".into());
        }
        p.ll.push_str(&define("void", &q(s.funs[i][0]), "", &st));
    }
    if let Some(u) = s.undef {
        p.undef.push(u.into());
        p.ll.push_str(&declare("void", &q(u), ""));
    }
    if equal {
        p.obj_order = Some((0..3).filter(|&i| !p.funs[i].obj_names.is_empty()).collect());
    }
    p
}

/// how LLVM prints a global name
fn q(n: &str) -> String {
    if n.chars().all(|c| c.is_ascii_alphanumeric() || "_.$-".contains(c)) {
        n.to_string()
    } else {
        format!("\"{}\"", n)
    }
}

pub fn restrict(g: &Graph, start: usize) -> Graph {
    let r: BTreeSet<usize> = g.reach(start);
    let map: BTreeMap<usize, usize> = r.iter().enumerate().map(|(a, b)| (*b, a)).collect();
    Graph {
        nodes: r.iter().map(|&i| g.nodes[i].clone()).collect(),
        edges: g.edges.iter().filter(|e| r.contains(&e.0)).map(|e| (map[&e.0], map[&e.1])).collect(),
        clusters: g.clusters.iter().filter(|c| c.iter().all(|i| r.contains(i))).map(|c| c.iter().map(|i| map[i]).collect()).collect(),
    }
}

fn run(w: &mut Worker, k: &Case) -> Exec {
    let s = &SCHEMES[k.scheme];
    let mut p = build(k);
    let full = p.run(w, &[]);
    let g = match full.graph() {
        Some(g) => g.clone(),
        None => return fail("no-graph", format!("{}; {} {:?}", full.brief(), s.name, k)),
    };
    // the node of every function: the set of names it may carry
    let label = |n: &str| -> Vec<String> {
        let mut v = vec![n.to_string()];
        if let Some((_, p)) = PATHS.iter().find(|p| p.0 == n) {
            v.push(p.to_string());
            v.push(format!("{}::h{}", p, &n[n.len() - 17..n.len() - 1]));
        }
        v
    };
    let names_of = |i: usize| -> Vec<&str> { if i < 3 { s.funs[i].to_vec() } else { vec![s.undef.unwrap()] } };
    let total = 3 + s.undef.is_some() as usize;
    let mut node = vec![];
    for i in 0..total {
        let ok: Vec<String> = names_of(i).iter().flat_map(|n| label(n)).collect();
        let equal = s.name.starts_with("equal");
        let weight = if i < 3 { Some(WEIGHTS[k.weights][i]) } else { None };
        // functions of equal names are told apart by their size
        let hits: Vec<usize> = (0..g.nodes.len()).filter(|&x| ok.contains(&g.nodes[x].name) && (!(equal || s.name == "path-and-symbol") || g.nodes[x].local == weight)).collect();
        node.push(hits);
    }
    let mut out = String::new();
    let starts = if k.few { &s.starts[..s.starts.len().min(3)] } else { s.starts };
    for start in starts {
        let exact: Vec<usize> = (0..total).filter(|&i| names_of(i).contains(start)).collect();
        let path: Vec<usize> = (0..total).filter(|&i| names_of(i).iter().any(|n| PATHS.iter().any(|p| p.0 == *n && p.1 == *start))).collect();
        // the possible graphs
        let mut allowed: Vec<Graph> = vec![];
        let only = |v: &[usize]| -> Option<Graph> {
            if v.len() == 1 && node[v[0]].len() == 1 {
                Some(restrict(&g, node[v[0]][0]))
            } else {
                None
            }
        };
        let both: BTreeSet<usize> = exact.iter().chain(&path).copied().collect();
        let both: Vec<usize> = both.into_iter().collect();
        let single = if exact.len() == 1 { exact.clone() } else if both.len() == 1 { both.clone() } else { vec![] };
        if !single.is_empty() {
            match only(&single) {
                Some(x) => allowed.push(x),
                None => return fail("start-node", format!("function {:?} has nodes {:?} in {}; {} {:?}", names_of(single[0]), node[single[0]], full.brief(), s.name, k)),
            }
        }
        if single.is_empty() || both.len() > 1 {
            allowed.push(g.clone());
        }
        let r = p.run(w, &["--", start]);
        let f = match r.graph() {
            Some(f) => f,
            None => return fail("no-graph-filtered", format!("start {:?}: {}; {} {:?}", start, r.brief(), s.name, k)),
        };
        let c = f.canon();
        ensure!(
            allowed.iter().any(|a| a.canon() == c),
            "filter",
            "start {:?} (functions that match: {:?}): {}; unfiltered {}; {} {:?}",
            start,
            both,
            r.brief(),
            full.brief(),
            s.name,
            k
        );
        out.push_str(&format!("{} ", f.nodes.len()));
    }
    Ok(format!("{} {}", s.name, out))
}

pub fn check(ctx: &Ctx) {
    // graphs without self loops x all schemes and start points
    ctx.explore(
        "schemes",
        1,
        |c| {
            let scheme = c.pick(SCHEMES.len());
            let bits = c.pick(64) as u32;
            let pairs = [(0, 1), (0, 2), (1, 0), (1, 2), (2, 0), (2, 1)];
            let mask = pairs.iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).fold(0, |m, (_, (a, b))| m | 1 << (a * 3 + b));
            let equal = SCHEMES[scheme].name.starts_with("equal");
            let arch = if equal { Arch::V7 } else { *c.of(if ctx.thorough { &[Arch::V7, Arch::A64, Arch::X64][..] } else { &[Arch::V7][..] }) };
            let unknown = c.dev(4);
            let indirect = c.dev(4);
            let weights = c.dev(3);
            if (equal && (unknown != 0 || indirect != 0)) || (SCHEMES[scheme].name == "path-and-symbol" && unknown != 0) {
                return None;
            }
            if !ctx.thorough && (unknown | indirect | weights) != 0 && bits % 3 != 1 {
                return None;
            }
            Some(Case { arch, scheme, mask, unknown, indirect, weights, few: unknown + indirect + weights != 0 })
        },
        |w, k| run(w, k),
    );
    // all graphs of three functions, start at each of them
    ctx.explore(
        "graphs",
        if ctx.thorough { 2 } else { 0 },
        |c| {
            let mask = c.pick(512) as u32;
            let arch = *c.of(&[Arch::A64, Arch::V7]);
            let unknown = c.dev(4);
            let indirect = c.dev(4);
            Some(Case { arch, scheme: SCHEMES.iter().position(|s| s.name == "mangled").unwrap(), mask, unknown, indirect, weights: 2, few: true })
        },
        |w, k| run(w, k),
    );
    ctx.assume("a start point that is the symbol of one function and the path of another one may select the former or be ambiguous");
    super::views::check(ctx, super::views::View::Start);
}
