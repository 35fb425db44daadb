//! Comparison of a printed graph with the expected one, by names. All nodes named `?` stand for the
//! same thing (some unknown code), so only their presence among the callees of a node matters.
use crate::ctx::Fail;
use crate::dot::Graph;
use crate::run::Run;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct W {
    /// None: not judged here
    pub local: Option<Option<u64>>,
    pub dashed: bool,
    pub callees: BTreeSet<String>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Want {
    pub nodes: BTreeMap<String, W>,
    /// judge whether `max` is exact: exact iff neither `?` nor a node of unknown local is reachable
    /// (only meaningful when cycles use no stack)
    pub exactness: bool,
}

/// Signature labels are compared regardless of white space.
pub fn norm_sig(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

impl Want {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn node(&mut self, name: &str, local: Option<u64>) -> &mut Self {
        self.nodes.insert(name.into(), W { local: Some(local), dashed: false, callees: BTreeSet::new() });
        self
    }
    pub fn any_local(&mut self, name: &str) -> &mut Self {
        self.nodes.insert(name.into(), W { local: None, dashed: false, callees: BTreeSet::new() });
        self
    }
    /// the node of an undefined symbol (keeps the edges already wanted)
    pub fn node_local_unknown(&mut self, name: &str) {
        self.nodes.get_mut(name).unwrap().local = Some(None);
    }
    pub fn dashed(&mut self, name: &str) -> &mut Self {
        self.nodes.insert(name.into(), W { local: Some(Some(0)), dashed: true, callees: BTreeSet::new() });
        self
    }
    pub fn edge(&mut self, a: &str, b: &str) -> &mut Self {
        self.nodes.get_mut(a).unwrap_or_else(|| panic!("no wanted node {}", a)).callees.insert(b.into());
        self
    }

    /// a function is shown under another name than that of its symbol
    pub fn rename(&mut self, from: &str, to: &str) {
        if from == to {
            return;
        }
        let n = self.nodes.remove(from).unwrap();
        self.nodes.insert(to.into(), n);
        for n in self.nodes.values_mut() {
            if n.callees.remove(from) {
                n.callees.insert(to.into());
            }
        }
    }

    pub fn check(&self, g: &Graph) -> Result<(), Fail> {
        let mut g = g.clone();
        for n in &mut g.nodes {
            if n.dashed {
                n.name = norm_sig(&n.name);
            }
        }
        let g = &g;
        let bad = |key: &str, msg: String| Err(Fail { key: key.into(), msg });
        let mut seen = BTreeSet::new();
        for (i, n) in g.nodes.iter().enumerate() {
            let callees = g.callees(i);
            if n.name == "?" {
                if n.local.is_some() || !callees.is_empty() {
                    return bad("unknown-node", format!("the node for unknown code has local {:?} and callees {:?}", n.local, callees));
                }
                continue;
            }
            if !seen.insert(n.name.clone()) {
                return bad("duplicate-node", format!("{:?} is printed twice", n.name));
            }
            let w = match self.nodes.get(&n.name) {
                Some(w) => w,
                None => return bad("extra-node", format!("unexpected node {:?} (expected {:?})", n.name, self.nodes.keys().collect::<Vec<_>>())),
            };
            if let Some(l) = w.local {
                if l != n.local {
                    return bad("local", format!("{:?} has local {:?}, expected {:?}", n.name, n.local, l));
                }
            }
            if w.dashed != n.dashed {
                return bad("dashed", format!("{:?} dashed: {}", n.name, n.dashed));
            }
            let set: BTreeSet<String> = callees.iter().cloned().collect();
            if set.len() != callees.len() {
                return bad("duplicate-edge", format!("{:?} has duplicate edges {:?}", n.name, callees));
            }
            if set != w.callees {
                return bad("edges", format!("{:?} calls {:?}, expected {:?}", n.name, set, w.callees));
            }
        }
        for n in self.nodes.keys() {
            if !seen.contains(n) {
                return bad("missing-node", format!("no node {:?}", n));
            }
        }
        if self.exactness {
            for (i, n) in g.nodes.iter().enumerate() {
                let known = g.reach(i).iter().all(|&j| g.nodes[j].local.is_some());
                match n.max {
                    None => return bad("no-max", format!("{:?} has no max", n.name)),
                    Some((e, _)) if e != known => {
                        return bad("exactness", format!("max of {:?} is {} although {} is reachable from it", n.name, if e { "exact" } else { "a lower bound" }, if known { "nothing unknown" } else { "unknown code" }))
                    }
                    _ => {}
                }
            }
        }
        Ok(())
    }

    pub fn judge(&self, r: &Run) -> Result<(), Fail> {
        match r.graph() {
            None => Err(Fail { key: "no-graph".into(), msg: format!("no graph: {}", r.brief()) }),
            Some(g) => self.check(g).map_err(|mut f| {
                f.msg = format!("{}; {}", f.msg, r.brief());
                f
            }),
        }
    }
}
