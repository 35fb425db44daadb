//! The combined-feature programs of C28, judged for one property at a time: only the part of the
//! graph that the property speaks about is compared.
use super::c16::compare_top;
use super::c28::{analyze, bare, forms, generate, realize, Code, Expected, Program, St};
use super::expect::norm_sig;
use crate::ctx::{fail, Ctx, Exec};
use crate::dot::Graph;
use crate::ensure;
use crate::model::stack::{CallGraph, Count};
use crate::run::{Run, Worker};
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum View {
    /// C01: `max` from the printed locals and edges, without recursion
    Acyclic,
    /// C02: `max` and clusters from the printed locals and edges, with recursion
    Cycles,
    /// C03: edges between functions
    Direct,
    /// C04: no call is lost
    Calls,
    /// C05: nodes of function pointers, their callers and candidates
    Pointers,
    /// C06: exact or lower bound
    Unknown,
    /// C07: edges to memory routines
    Memory,
    /// C08: edges that only the machine code has
    Machine,
    /// C10: local of code without record
    NoRecord,
    /// C11: local of code with record
    Record,
    /// C12: one node per address
    Nodes,
    /// C13
    Start,
    /// C14
    Labels,
    /// C16
    Top,
    /// C23: compiler_builtins or not makes no difference
    Builtins,
}
use View::*;

/// the features at least one of which a program must have to be explored to the full depth
fn relevant(v: View, f: &[&str]) -> bool {
    let any = |x: &[&str]| f.iter().any(|t| x.contains(t));
    match v {
        Acyclic => any(&["weights", "sizes"]),
        Cycles => any(&["recursion"]),
        Direct => any(&["call", "removed", "undefined"]),
        Calls => any(&["call", "pointers"]),
        Pointers => any(&["pointers"]),
        Unknown => any(&["sizes", "blob"]),
        Memory => any(&["memory"]),
        Machine => any(&["blob", "outlined"]),
        NoRecord => any(&["sizes"]),
        Record => any(&["asm", "outlined"]),
        Nodes => any(&["alias"]),
        Start => any(&["start"]),
        Labels => any(&["names"]),
        Top => any(&["format"]),
        Builtins => any(&["builtins"]),
    }
}

/// whether the view has anything to say about a program
fn applies(v: View, p: &Program) -> bool {
    match v {
        Memory => !p.arch.thumb(),
        Machine | NoRecord => p.arch.thumb(),
        Start => p.start.is_some(),
        Top => p.top,
        Builtins => p.code.iter().any(|x| x.in_rlib),
        _ => true,
    }
}

fn max_of(g: &Graph, count: &mut Count) -> (Vec<(bool, u64)>, BTreeSet<BTreeSet<usize>>) {
    let m = CallGraph { local: g.nodes.iter().map(|n| n.local).collect(), succ: (0..g.nodes.len()).map(|i| g.succ(i).collect()).collect() };
    (m.expected(count), m.cycles())
}

struct Named<'a> {
    g: &'a Graph,
    keys: Vec<String>,
}

impl<'a> Named<'a> {
    fn at(&self, k: &str) -> Vec<usize> {
        (0..self.keys.len()).filter(|i| self.keys[*i] == k).collect()
    }
    fn succ(&self, k: &str) -> BTreeSet<String> {
        self.at(k).iter().flat_map(|i| self.g.succ(*i)).map(|i| self.keys[i].clone()).collect()
    }
}

/// which node is which; names are accepted in every form (that they are in the right one is C14).
/// None: a node that denotes nothing
fn named<'a>(p: &Program, e: &Expected, g: &'a Graph) -> Result<Named<'a>, Option<String>> {
    let live: Vec<&Code> = p.code.iter().filter(|x| !x.dead).collect();
    let mut shown: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for k in e.local.keys() {
        let names: Vec<String> = live.iter().find(|x| x.names[0] == *k).map(|x| x.names.clone()).unwrap_or_else(|| vec![k.clone()]);
        for n in names {
            let (full, short) = forms(&n);
            for t in [full, short, n] {
                shown.entry(t).or_default().insert(k.clone());
            }
        }
    }
    let mut keys = vec![];
    for n in &g.nodes {
        let t = if n.dashed { norm_sig(&n.name) } else { n.name.clone() };
        match shown.get(&t) {
            Some(s) if s.len() == 1 => keys.push(s.iter().next().unwrap().clone()),
            Some(_) => return Err(None), // two functions of the same path
            None => return Err(Some(n.name.clone())),
        }
    }
    Ok(Named { g, keys })
}

fn judge(v: View, p: &Program, e: &Expected, g: &Graph, r: &Run, count: &mut Count) -> Exec {
    let brief = || r.brief();
    if v == Acyclic || v == Cycles {
        let (want, cycles) = max_of(g, count);
        if cycles.is_empty() != (v == Acyclic) {
            return Ok("other".into());
        }
        for (i, n) in g.nodes.iter().enumerate() {
            ensure!(n.max == Some(want[i]), "max", "{:?}: max {:?}, expected {:?}; {}", n.name, n.max, want[i], brief());
        }
        if v == Cycles {
            let got: BTreeSet<BTreeSet<usize>> = g.clusters.iter().map(|c| c.iter().copied().collect()).collect();
            ensure!(got == cycles && g.clusters.len() == cycles.len(), "clusters", "{:?}, expected {:?}; {}", g.clusters, cycles, brief());
        }
        return Ok(brief());
    }
    let live: Vec<&Code> = p.code.iter().filter(|x| !x.dead).collect();
    let n = match named(p, e, g) {
        Ok(n) => n,
        Err(None) => return Ok("not told apart".into()),
        Err(Some(t)) => {
            ensure!(!matches!(v, Direct | Nodes | Labels), "extra-node", "unexpected node {:?}; {}", t, brief());
            return Ok("not judged".into());
        }
    };
    let function = |k: &str| !e.dashed.contains(k) && k != "?";
    match v {
        Acyclic | Cycles | Start | Top | Builtins => unreachable!(),
        Direct => {
            for k in e.local.keys().filter(|k| function(k)) {
                ensure!(!n.at(k).is_empty(), "missing-node", "no node for {:?}; {}", k, brief());
                let want: BTreeSet<String> = e.succ[k].iter().filter(|t| function(t)).cloned().collect();
                let got: BTreeSet<String> = n.succ(k).into_iter().filter(|t| function(t)).collect();
                ensure!(got == want, "edges", "{:?} calls {:?}, expected {:?}; {}", k, got, want, brief());
            }
            let mut seen = BTreeSet::new();
            for ed in &g.edges {
                // different unknown things are called `?`
                ensure!(seen.insert(*ed) || n.keys[ed.1] == "?", "duplicate-edge", "{:?}; {}", ed, brief());
            }
            for u in p.undef.iter().map(|u| bare(u)) {
                if e.local.contains_key(u) {
                    let at = n.at(u);
                    ensure!(at.len() == 1 && g.nodes[at[0]].local.is_none(), "undefined", "{:?} has {} nodes; {}", u, at.len(), brief());
                }
            }
        }
        Calls => {
            for x in live.iter().filter(|x| !x.defs.is_empty() && e.local.contains_key(&x.names[0])) {
                let got = n.succ(&x.names[0]);
                for s in &x.st {
                    let t = match s {
                        St::Call(t) | St::Invoke(t) | St::Bitcast(t) => live.iter().find(|y| y.names.contains(t)).map(|y| y.names[0].clone()).unwrap_or_else(|| t.clone()),
                        St::Pointer(t) => norm_sig(&format!("void ({})*", t)),
                        _ => continue,
                    };
                    ensure!(got.contains(&t), "lost", "{:?} of {:?} has no edge; {}", s, x.names[0], brief());
                }
            }
        }
        Pointers => {
            let dashed: BTreeSet<String> = e.dashed.iter().filter(|k| e.local.contains_key(*k)).cloned().collect();
            for k in &dashed {
                let at = n.at(k);
                ensure!(at.len() == 1, "pointer-node", "{} nodes for {:?}; {}", at.len(), k, brief());
                let d = &g.nodes[at[0]];
                ensure!(d.dashed && d.local == Some(0), "pointer-node", "{:?}; {}", d, brief());
                let want: BTreeSet<String> = e.succ[k].iter().filter(|t| *t != "?").cloned().collect();
                let got: BTreeSet<String> = n.succ(k).into_iter().filter(|t| t != "?").collect();
                ensure!(got == want, "candidates", "{:?}: {:?}, expected {:?}; {}", k, got, want, brief());
            }
            for k in e.local.keys().filter(|k| *k != "?") {
                let want: BTreeSet<String> = e.succ[k].iter().filter(|t| e.dashed.contains(*t)).cloned().collect();
                let got: BTreeSet<String> = n.succ(k).into_iter().filter(|t| e.dashed.contains(t)).collect();
                ensure!(got == want, "callers", "{:?} calls {:?}, expected {:?}; {}", k, got, want, brief());
            }
            ensure!(g.nodes.iter().filter(|d| d.dashed).count() == dashed.len(), "pointer-node", "expected {:?}; {}", dashed, brief());
        }
        Unknown => {
            let order: Vec<&String> = e.local.keys().collect();
            let m = CallGraph { local: order.iter().map(|k| e.local[*k]).collect(), succ: order.iter().map(|k| e.succ[*k].iter().map(|t| order.iter().position(|o| o == &t).unwrap()).collect()).collect() };
            let recursive = !m.cycles().is_empty();
            for (j, k) in order.iter().enumerate() {
                let unknown = m.reach(j).iter().any(|i| m.local[*i].is_none());
                for i in n.at(k) {
                    let exact = g.nodes[i].max.map(|x| x.0);
                    ensure!(exact.is_some(), "no-max", "{:?}; {}", k, brief());
                    ensure!(!(unknown && exact == Some(true)), "exact", "{:?} is exact but may reach unknown code; {}", k, brief());
                    // (recursion makes bounds inexact as well)
                    ensure!(unknown || recursive || exact == Some(true), "inexact", "{:?} is not exact but all it may reach is known; {}", k, brief());
                }
            }
        }
        Memory => {
            for k in e.local.keys().filter(|k| function(k)) {
                ensure!(n.succ(k).contains("memcpy") == e.succ[k].contains("memcpy"), "memcpy", "{:?} calls {:?}, expected {:?}; {}", k, n.succ(k), e.succ[k], brief());
            }
        }
        Machine => {
            for x in live.iter().filter(|x| e.local.contains_key(&x.names[0])) {
                let got = n.succ(&x.names[0]);
                for t in &x.bl {
                    ensure!(got.contains(&p.code[*t].names[0]), "branch", "{:?} branches to {:?}; {}", x.names[0], p.code[*t].names[0], brief());
                }
                if x.defs.is_empty() {
                    let want: BTreeSet<String> = x.bl.iter().map(|t| p.code[*t].names[0].clone()).collect();
                    let got: BTreeSet<String> = got.into_iter().filter(|t| function(t)).collect();
                    ensure!(got == want, "branch", "{:?} calls {:?}, expected {:?}; {}", x.names[0], got, want, brief());
                }
            }
        }
        NoRecord | Record => {
            for x in live.iter().filter(|x| x.rec.is_some() == (v == Record) && e.local.contains_key(&x.names[0])) {
                for i in n.at(&x.names[0]) {
                    ensure!(g.nodes[i].local == e.local[&x.names[0]], "local", "{:?}: local {:?}, expected {:?}; {}", x.names[0], g.nodes[i].local, e.local[&x.names[0]], brief());
                }
            }
        }
        Nodes => {
            for x in live.iter().filter(|x| e.local.contains_key(&x.names[0])) {
                let at = n.at(&x.names[0]);
                ensure!(at.len() == 1, "nodes", "{} nodes for {:?}; {}", at.len(), x.names, brief());
                // what is said under any of the names belongs to it
                ensure!(g.nodes[at[0]].local == e.local[&x.names[0]], "local", "{:?}: local {:?}, expected {:?}; {}", x.names, g.nodes[at[0]].local, e.local[&x.names[0]], brief());
                ensure!(n.succ(&x.names[0]) == e.succ[&x.names[0]], "edges", "{:?} calls {:?}, expected {:?}; {}", x.names, n.succ(&x.names[0]), e.succ[&x.names[0]], brief());
            }
        }
        Labels => {
            let mut taken: BTreeMap<String, usize> = BTreeMap::new();
            for t in live.iter().map(|x| &x.names[0][..]).chain(p.undef.iter().map(|u| bare(u))) {
                *taken.entry(forms(t).1).or_default() += 1;
            }
            for (i, d) in g.nodes.iter().enumerate().filter(|(i, d)| !d.dashed && n.keys[*i] != "?") {
                let names: Vec<String> = live.iter().find(|x| x.names[0] == n.keys[i]).map(|x| x.names.clone()).unwrap_or_else(|| vec![n.keys[i].clone()]);
                let ok = names.iter().any(|t| {
                    let (full, short) = forms(t);
                    d.name == if taken.get(&short).copied().unwrap_or(0) <= 1 { short } else { full }
                });
                ensure!(ok, "label", "{:?} is shown as {:?}; {}", names, d.name, brief());
            }
        }
    }
    Ok(brief())
}

fn run(v: View, p: &Program, w: &mut Worker, count: &mut Count) -> Exec {
    let mut q = realize(p);
    let mut args: Vec<&str> = vec![];
    if p.verbose {
        args.push("-v");
    }
    if let Some(s) = &p.start {
        args.push(s);
    }
    let r = q.run(w, &args);
    let g = match r.graph() {
        Some(g) => g.clone(),
        None => return fail("no-graph", r.brief()),
    };
    match v {
        Top => {
            args.extend(["--format", "top"]);
            let t = q.run(w, &args);
            compare_top(&g, &t)
        }
        Start => {
            let f = q.run(w, &[]);
            let full = match f.graph() {
                Some(f) => f.clone(),
                None => return fail("no-graph", f.brief()),
            };
            // the selected function, if there is exactly one
            let live: Vec<&Code> = p.code.iter().filter(|x| !x.dead).collect();
            let start = p.start.as_ref().unwrap();
            let shown: BTreeSet<&str> = full.nodes.iter().filter(|n| !n.dashed).map(|n| &n.name[..]).collect();
            let mut all: Vec<Vec<String>> = live.iter().map(|x| x.names.clone()).collect();
            all.extend(p.undef.iter().map(|u| vec![bare(u).to_string()]).filter(|u| {
                let (full, short) = forms(&u[0]);
                shown.contains(&full[..]) || shown.contains(&short[..])
            }));
            let mut hits: Vec<&Vec<String>> = all.iter().filter(|x| x.contains(start)).collect();
            if hits.is_empty() {
                hits = all.iter().filter(|x| x.iter().any(|n| forms(n).0 != forms(n).1 && forms(n).1 == *start)).collect();
            }
            if hits.len() != 1 {
                ensure!(g.canon() == full.canon(), "unfiltered", "{:?} matches {:?}: {}; unfiltered {}", start, hits, r.brief(), f.brief());
                return Ok("unfiltered".into());
            }
            let ok: BTreeSet<String> = hits[0].iter().flat_map(|n| [forms(n).0, n.clone()]).collect();
            let short: BTreeSet<String> = hits[0].iter().map(|n| forms(n).1).collect();
            let mut at: Vec<usize> = (0..full.nodes.len()).filter(|i| !full.nodes[*i].dashed && ok.contains(&full.nodes[*i].name)).collect();
            if at.is_empty() {
                at = (0..full.nodes.len()).filter(|i| !full.nodes[*i].dashed && short.contains(&full.nodes[*i].name)).collect();
            }
            if at.len() != 1 {
                return Ok("not told apart".into());
            }
            let want = super::c13::restrict(&full, at[0]);
            ensure!(g.canon() == want.canon(), "filter", "{:?} matches {:?}: {}; unfiltered {}", start, hits, r.brief(), f.brief());
            Ok(r.brief())
        }
        Builtins => {
            let mut own = p.clone();
            for x in &mut own.code {
                x.in_rlib = false;
                for d in &mut x.defs {
                    d.2 = false;
                }
            }
            let o = realize(&own).run(w, &args);
            let h = match o.graph() {
                Some(h) => h,
                None => return Ok("no-graph otherwise".into()),
            };
            ensure!(g.canon() == h.canon(), "builtins", "{}; as part of the program {}", r.brief(), o.brief());
            Ok(r.brief())
        }
        _ => judge(v, p, &analyze(p), &g, &r, count),
    }
}

pub fn check(ctx: &Ctx, v: View) {
    let count = std::sync::Mutex::new(Count::default());
    let deep = if ctx.thorough { 4 } else { 3 };
    // where machine code matters
    let thumb = if matches!(v, Unknown | Machine | NoRecord | Record | Nodes) { deep } else { deep - 1 };
    for (arch, budget) in [(Arch::A64, deep), (Arch::V7, thumb), (Arch::X64, 2), (Arch::V6, 2), (Arch::V8, deep - 2), (Arch::Rv, deep - 2)] {
        if v == Memory && arch.thumb() || matches!(v, Machine | NoRecord) && !arch.thumb() {
            continue;
        }
        ctx.explore(
            &format!("features-{:?}", arch),
            budget,
            |c| {
                let p = generate(c, arch)?;
                if !applies(v, &p) || p.features.len() > 2 && !relevant(v, &p.features) {
                    return None;
                }
                Some(p)
            },
            |w, p| {
                let mut k = Count::default();
                let r = run(v, p, w, &mut k);
                let mut c = count.lock().unwrap();
                c.states += k.states;
                c.transitions += k.transitions;
                r
            },
        );
    }
    let c = count.lock().unwrap();
    ctx.model(c.states, c.transitions);
}
