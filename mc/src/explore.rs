//! Exhaustive stateless exploration of a bounded choice tree.
//!
//! A generator draws every decision from a `Chooser`. `pick` is a free decision: all alternatives
//! are explored. `dev` is a departure from the default (alternative 0): alternatives other than 0
//! consume one unit of the deviation budget. The explorer re-runs the generator once per leaf, in
//! depth-first order with the simplest alternative first.

pub struct Chooser {
    prefix: Vec<u32>,
    pub trace: Vec<(u32, u32)>,
    pub budget: u32,
    replay: bool,
}

impl Chooser {
    pub fn new(prefix: Vec<u32>, budget: u32, replay: bool) -> Self {
        Chooser { prefix, trace: vec![], budget, replay }
    }

    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let i = self.trace.len();
        let c = if i < self.prefix.len() {
            self.prefix[i]
        } else {
            assert!(!self.replay || i >= self.prefix.len());
            0
        };
        assert!((c as usize) < n, "replay divergence: choice {} of {} at point {}", c, n, i);
        self.trace.push((c, n as u32));
        c as usize
    }

    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }

    /// Deviation: 0 is the default.
    pub fn dev(&mut self, n: usize) -> usize {
        let n = if self.budget == 0 { 1 } else { n };
        let c = self.pick(n);
        if c != 0 {
            self.budget -= 1;
        }
        c
    }

    pub fn of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.pick(xs.len());
        &xs[i]
    }

    pub fn dev_of<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.dev(xs.len());
        &xs[i]
    }
}

#[derive(Default, Clone, Copy, Debug)]
pub struct TreeStats {
    /// distinct nodes of the choice tree
    pub states: u64,
    /// decisions taken (edges of the tree, each counted once)
    pub transitions: u64,
    /// complete executions
    pub leaves: u64,
    /// leaves the generator rejected (redundant or meaningless)
    pub pruned: u64,
}

/// Enumerates every leaf; `sink` gets the choices and the case, and returns false to stop.
pub fn enumerate<C>(
    budget: u32,
    gen: &dyn Fn(&mut Chooser) -> Option<C>,
    sink: &mut dyn FnMut(Vec<u32>, C) -> bool,
) -> TreeStats {
    let mut st = TreeStats { states: 1, ..Default::default() };
    let mut prefix: Vec<u32> = vec![];
    let mut shared = 0usize; // nodes shared with the previous leaf
    loop {
        let mut ch = Chooser::new(prefix.clone(), budget, false);
        let case = gen(&mut ch);
        let fresh = (ch.trace.len() - shared.min(ch.trace.len())) as u64;
        st.states += fresh;
        st.transitions += fresh;
        let trace = ch.trace;
        match case {
            Some(c) => {
                st.leaves += 1;
                if !sink(trace.iter().map(|t| t.0).collect(), c) {
                    return st;
                }
            }
            None => st.pruned += 1,
        }
        // next leaf: increment the deepest choice that has an alternative left
        let mut i = trace.len();
        loop {
            if i == 0 {
                return st;
            }
            i -= 1;
            if trace[i].0 + 1 < trace[i].1 {
                prefix = trace[..i].iter().map(|t| t.0).collect();
                prefix.push(trace[i].0 + 1);
                shared = i;
                break;
            }
        }
    }
}
