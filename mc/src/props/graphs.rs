//! Programs that realize a given call graph, and the comparison of the printed graph with it.
use crate::ctx::{fail, Ctx, Exec};
use crate::dot::Graph;
use crate::ensure;
use crate::model::stack::{CallGraph, Count};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn is_dag(n: usize, m: u32) -> bool {
    let mut alive: Vec<usize> = (0..n).collect();
    loop {
        let k = alive.len();
        let a2: Vec<usize> = alive.iter().copied().filter(|&i| alive.iter().any(|&j| m >> (i * n + j) & 1 == 1)).collect();
        if a2.is_empty() {
            return true;
        }
        if a2.len() == k {
            return false;
        }
        alive = a2;
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Direct,
    Indirect,
}

pub struct Component {
    pub prefix: String,
    pub g: CallGraph,
}

fn component(n: usize, m: u32, ws: &[Option<u64>], mut wi: usize, prefix: String) -> Component {
    let mut local = vec![];
    for _ in 0..n {
        local.push(ws[wi % ws.len()]);
        wi /= ws.len();
    }
    let succ = (0..n).map(|i| (0..n).filter(|j| m >> (i * n + j) & 1 == 1).collect()).collect();
    Component { prefix, g: CallGraph { local, succ } }
}

/// One program with the given components side by side.
pub fn program(arch: Arch, comps: &[Component]) -> Prog {
    let mut p = Prog::new(arch);
    for c in comps {
        let base = p.funs.len();
        let names: Vec<String> = (0..c.g.local.len()).map(|i| format!("{}n{}", c.prefix, i)).collect();
        for i in 0..names.len() {
            let mut f = Fun::new(arch, &names[i], c.g.local[i]);
            f.ops = body(arch, c.g.w(i), &c.g.succ[i].iter().map(|j| base + j).collect::<Vec<_>>());
            if arch.thumb() && c.g.local[i].is_none() {
                // no size from the compiler, and a loop: machine code cannot tell either
                f.ops.insert(0, Op::Raw(vec![0x81, 0xb0])); // sub sp, #4
                let at = f.ops.len() - 1;
                f.ops.insert(at, Op::Raw(vec![0x01, 0xb0])); // add sp, #4
                f.ops.insert(at, Op::Raw(vec![0xfe, 0xd1])); // bne .
            }
            p.funs.push(f);
            let callees: Vec<&str> = c.g.succ[i].iter().map(|&j| &names[j][..]).collect();
            p.ll.push_str(&void_fn(&names[i], &callees));
        }
    }
    p
}

/// As `program`, for one component, with every edge going through a function pointer whose
/// signature only the callee has.
pub fn program_indirect(arch: Arch, c: &Component) -> Prog {
    let mut p = Prog::new(arch);
    for i in 0..c.g.local.len() {
        let name = format!("{}n{}", c.prefix, i);
        p.funs.push(Fun::new(arch, &name, c.g.local[i]));
        let st: Vec<String> = c.g.succ[i].iter().map(|j| format!("call void %p(i{} 0) #0", 100 + j)).collect();
        p.ll.push_str(&define("void", &name, &format!("i{} %x", 100 + i), &st));
    }
    p
}

/// Checks names, locals, edges, clusters and max of the printed graph against the components.
pub fn compare(g: &Graph, comps: &[Component], indirect: bool, count: &mut Count) -> Exec {
    let mut idx: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, n) in g.nodes.iter().enumerate() {
        ensure!(idx.insert(&n.name, i).is_none(), "dup", "node {:?} printed twice", n.name);
    }
    let mut total = 0;
    let mut outcome = String::new();
    let mut clusters: BTreeSet<BTreeSet<String>> = BTreeSet::new();
    for c in comps {
        let n = c.g.local.len();
        let mut full = c.g.clone();
        let mut names: Vec<String> = (0..n).map(|i| format!("{}n{}", c.prefix, i)).collect();
        if indirect {
            // insert the fictitious node of every callee in between
            let called: BTreeSet<usize> = c.g.succ.iter().flatten().copied().collect();
            for j in called {
                let k = full.local.len();
                full.local.push(Some(0));
                full.succ.push(vec![j]);
                names.push(format!("void (i{})*", 100 + j));
                for i in 0..n {
                    for s in full.succ[i].iter_mut() {
                        if *s == j {
                            *s = k;
                        }
                    }
                }
            }
        }
        total += full.local.len();
        let exp = full.expected(count);
        for i in 0..full.local.len() {
            let d = || format!("component {} local {:?} succ {:?}", c.prefix, full.local, full.succ);
            let k = match idx.get(&names[i][..]) {
                Some(k) => *k,
                None => return fail("missing-node", format!("no node for {} in {}", names[i], d())),
            };
            let node = &g.nodes[k];
            ensure!(node.local == full.local[i], "local", "{}: local {:?} printed, {:?} expected; {}", names[i], node.local, full.local[i], d());
            let mut want: Vec<String> = full.succ[i].iter().map(|&j| names[j].clone()).collect();
            want.sort();
            ensure!(g.callees(k) == want, "edges", "{}: callees {:?} printed, {:?} expected; {}", names[i], g.callees(k), want, d());
            ensure!(node.max == Some(exp[i]), "max", "{}: max {:?} printed, {:?} expected (exact?, bytes); {}", names[i], node.max, exp[i], d());
            if let Err(e) = full.sound(i, node.max.unwrap(), count) {
                return fail("unsound", format!("{}: {}; {}", names[i], e, d()));
            }
        }
        for cy in full.cycles() {
            clusters.insert(cy.iter().map(|&i| names[i].clone()).collect());
        }
        outcome.push_str(&format!("{:?}", exp));
    }
    ensure!(g.nodes.len() == total, "extra-nodes", "{} nodes printed, {} expected", g.nodes.len(), total);
    let printed: Vec<BTreeSet<String>> = g.clusters.iter().map(|c| c.iter().map(|&i| g.nodes[i].name.clone()).collect()).collect();
    let set: BTreeSet<BTreeSet<String>> = printed.iter().cloned().collect();
    ensure!(
        set == clusters && printed.len() == clusters.len() && g.clusters.iter().map(|c| c.len()).sum::<usize>() == clusters.iter().map(|c| c.len()).sum::<usize>(),
        "clusters",
        "clusters {:?} printed, {:?} expected",
        printed,
        clusters
    );
    Ok(outcome)
}

/// All graphs in `masks` x all weight assignments, `pack` components per program.
pub fn explore_graphs(ctx: &Ctx, space: &str, arch: Arch, n: usize, masks: &[u32], ws: &[Option<u64>], pack: usize, mode: Mode) {
    let nw = ws.len().pow(n as u32);
    let total = masks.len() * nw;
    let progs = (total + pack - 1) / pack;
    let count = std::sync::Mutex::new(Count::default());
    ctx.explore(
        space,
        0,
        |c| Some(c.pick(progs)),
        |w, &k| {
            let comps: Vec<Component> = (k * pack..((k + 1) * pack).min(total))
                // stride through the weight-major order so that one program mixes graph shapes
                .map(|x| component(n, masks[x % masks.len()], ws, x / masks.len(), format!("g{}", x)))
                .collect();
            // without any stack information at all the tool documents that it skips the analysis
            let mut comps = comps;
            if comps.iter().all(|c| c.g.local.iter().all(|l| l.is_none())) {
                comps.push(Component { prefix: "k".into(), g: CallGraph { local: vec![Some(4)], succ: vec![vec![]] } });
            }
            let mut p = match mode {
                Mode::Direct => program(arch, &comps),
                Mode::Indirect => {
                    let mut p = program_indirect(arch, &comps[0]);
                    if comps.len() > 1 {
                        let q = program(arch, &comps[1..]);
                        p.funs.extend(q.funs);
                        p.ll.push_str(&q.ll);
                    }
                    p
                }
            };
            let r = p.run(w, &[]);
            let g = match r.graph() {
                Some(g) => g,
                None => return fail("no-graph", format!("no graph for components {:?}: {}", comps.iter().map(|c| format!("{} {:?} {:?}", c.prefix, c.g.local, c.g.succ)).collect::<Vec<_>>(), r.brief())),
            };
            let mut ct = Count::default();
            let res = if mode == Mode::Indirect {
                compare(g, &comps, true, &mut ct)
            } else {
                compare(g, &comps, false, &mut ct)
            };
            let mut c = count.lock().unwrap();
            c.states += ct.states;
            c.transitions += ct.transitions;
            res
        },
    );
    let c = count.lock().unwrap();
    ctx.model(c.states, c.transitions);
    ctx.add("graph_weight_assignments", total as u64);
}

/// Structured families of larger graphs.
pub fn explore_shapes(ctx: &Ctx) {
    shapes(ctx, "shapes", false)
}

pub fn explore_cycle_shapes(ctx: &Ctx) {
    shapes(ctx, "cycle-shapes", true)
}

fn shapes(ctx: &Ctx, space: &str, cyclic: bool) {
    ctx.explore(
        space,
        0,
        |c| {
            let arch = *c.of(&[Arch::A64, Arch::V7]);
            let kind = c.pick(if cyclic { 4 } else { 4 });
            let n = *c.of(&[6usize, 11, 40]);
            let rev = c.flag();
            // position of an unknown function
            let unk = c.pick(4);
            Some((arch, kind, n, rev, unk))
        },
        |w, &(arch, kind, n, rev, unk)| {
            let mut succ: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
            match (cyclic, kind) {
                (false, 0) => (0..n - 1).for_each(|i| drop(succ[i].insert(i + 1))),
                (false, 1) => (1..n).for_each(|i| drop(succ[0].insert(i))),
                (false, 2) => (1..n).for_each(|i| drop(succ[(i - 1) / 2].insert(i))),
                (false, _) => {
                    // ladder with crossing rungs: exponentially many paths
                    for i in 0..n {
                        for j in [i + 1, i + 2, i + 3] {
                            if j < n {
                                succ[i].insert(j);
                            }
                        }
                    }
                }
                (true, 0) => (0..n).for_each(|i| drop(succ[i].insert((i + 1) % n))),
                // chain of 3-cycles
                (true, 1) => {
                    for i in 0..n {
                        if i % 3 == 2 {
                            succ[i].insert(i - 2);
                        }
                        if i + 1 < n {
                            succ[i].insert(i + 1);
                        }
                    }
                }
                // two cycles sharing a function, with a tail
                (true, 2) => {
                    let h = n / 2;
                    for i in 0..h {
                        succ[i].insert((i + 1) % h);
                    }
                    for i in h..n - 2 {
                        succ[i].insert(i + 1);
                    }
                    succ[0].insert(h);
                    succ[n - 3].insert(0);
                    succ[1].insert(n - 2);
                    succ[n - 2].insert(n - 1);
                }
                // self loops hanging off a chain
                (true, _) => {
                    for i in 0..n {
                        if i + 1 < n {
                            succ[i].insert(i + 1);
                        }
                        if i % 2 == 1 {
                            succ[i].insert(i);
                        }
                    }
                }
            }
            let map = |i: usize| if rev { n - 1 - i } else { i };
            let mut g = CallGraph { local: vec![None; n], succ: vec![vec![]; n] };
            for i in 0..n {
                g.local[map(i)] = Some(if cyclic && unk == 3 { 0 } else { 4 * ((i as u64 * 7) % 11) });
                g.succ[map(i)] = succ[i].iter().map(|&j| map(j)).collect();
            }
            match unk {
                1 => g.local[map(n - 1)] = None,
                2 => g.local[map(n / 2)] = None,
                _ => {}
            }
            let comps = [Component { prefix: "s".into(), g }];
            let r = program(arch, &comps).run(w, &[]);
            match r.graph() {
                Some(g) => compare(g, &comps, false, &mut Count::default()),
                None => fail("no-graph", r.brief()),
            }
        },
    );
}
