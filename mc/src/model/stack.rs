//! Reference model of stack consumption: an explicit-state call-stack machine.
//!
//! A configuration is (function, bytes in use). `enter f` adds local(f); `call g` moves to an
//! edge's target. The peak of a start function is the supremum of the bytes in use over all
//! reachable configurations; it is infinite iff some function can be re-entered with more bytes in
//! use than before. The machine is explored breadth-first; it knows nothing about SCCs.

use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Debug)]
pub struct CallGraph {
    pub local: Vec<Option<u64>>,
    pub succ: Vec<Vec<usize>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Peak {
    /// None: unbounded
    pub bytes: Option<u64>,
    /// some function that may be reached has unknown stack usage
    pub unknown: bool,
}

#[derive(Default, Clone, Copy)]
pub struct Count {
    pub states: u64,
    pub transitions: u64,
}

impl CallGraph {
    pub fn w(&self, i: usize) -> u64 {
        self.local[i].unwrap_or(0)
    }

    /// Explores the configurations reachable from `start`, one function activation at a time.
    pub fn peak(&self, start: usize, c: &mut Count) -> Peak {
        // Without unbounded growth every function is entered with at most sum(local) bytes in use:
        // exceeding it means that some function with positive usage is active twice.
        let limit: u64 = (0..self.local.len()).map(|i| self.w(i)).sum();
        let mut seen: BTreeSet<(usize, u64)> = BTreeSet::new();
        let mut q = VecDeque::new();
        let s0 = (start, self.w(start));
        seen.insert(s0);
        q.push_back(s0);
        let mut best = 0;
        let mut unknown = false;
        let mut unbounded = false;
        while let Some((f, used)) = q.pop_front() {
            c.states += 1;
            best = best.max(used);
            unknown |= self.local[f].is_none();
            for &g in &self.succ[f] {
                c.transitions += 1;
                let n = (g, used + self.w(g));
                if n.1 > limit {
                    unbounded = true;
                    continue;
                }
                if seen.insert(n) {
                    q.push_back(n);
                }
            }
        }
        // `unknown` must cover everything reachable, also what lies beyond the cut-off
        if unbounded {
            unknown |= self.reach(start).iter().any(|&i| self.local[i].is_none());
        }
        Peak { bytes: if unbounded { None } else { Some(best) }, unknown }
    }

    pub fn reach(&self, i: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut st = vec![i];
        while let Some(x) = st.pop() {
            if seen.insert(x) {
                st.extend(self.succ[x].iter().copied());
            }
        }
        seen
    }

    /// Sets of mutually recursive functions (including self recursion), by mutual reachability.
    pub fn cycles(&self) -> BTreeSet<BTreeSet<usize>> {
        let n = self.local.len();
        let plus: Vec<BTreeSet<usize>> =
            (0..n).map(|i| self.succ[i].iter().flat_map(|&j| self.reach(j)).collect()).collect();
        (0..n)
            .filter(|&i| plus[i].contains(&i))
            .map(|i| (0..n).filter(|&j| j == i || (plus[i].contains(&j) && plus[j].contains(&i))).collect())
            .collect()
    }

    /// The value the tool documents: (exact, bytes) for every function. Inside a cycle: largest
    /// local of the cycle plus largest max called from the cycle.
    pub fn expected(&self, c: &mut Count) -> Vec<(bool, u64)> {
        let n = self.local.len();
        let cycles = self.cycles();
        let mut of = vec![None; n];
        for cy in &cycles {
            for &i in cy {
                of[i] = Some(cy);
            }
        }
        let mut memo: BTreeMap<usize, (bool, u64)> = BTreeMap::new();
        fn go(g: &CallGraph, of: &Vec<Option<&BTreeSet<usize>>>, memo: &mut BTreeMap<usize, (bool, u64)>, i: usize, c: &mut Count) -> (bool, u64) {
            if let Some(v) = memo.get(&i) {
                return *v;
            }
            c.states += 1;
            let single: BTreeSet<usize> = [i].into();
            let (members, cyclic) = match of[i] {
                Some(m) => (m, true),
                None => (&single, false),
            };
            let mut loc = 0;
            let mut exact = true;
            for &m in members {
                loc = loc.max(g.w(m));
                exact &= g.local[m].is_some();
            }
            if cyclic && loc > 0 {
                exact = false;
            }
            let mut out = 0;
            for &m in members {
                for &s in &g.succ[m] {
                    c.transitions += 1;
                    if !members.contains(&s) {
                        let v = go(g, of, memo, s, c);
                        out = out.max(v.1);
                        exact &= v.0;
                    }
                }
            }
            memo.insert(i, (exact, loc + out));
            (exact, loc + out)
        }
        (0..n).map(|i| go(self, &of, &mut memo, i, c)).collect()
    }

    /// Soundness of a reported bound against the call-stack machine.
    pub fn sound(&self, i: usize, reported: (bool, u64), c: &mut Count) -> Result<(), String> {
        let p = self.peak(i, c);
        if reported.0 {
            if p.unknown {
                return Err("exact although something unknown can be reached".into());
            }
            if p.bytes != Some(reported.1) {
                return Err(format!("exact {} but the call-stack machine peaks at {:?}", reported.1, p.bytes));
            }
        } else if let Some(b) = p.bytes {
            if reported.1 > b {
                return Err(format!("lower bound {} exceeds the attainable peak {}", reported.1, b));
            }
        }
        Ok(())
    }
}
