//! A strict reader for the DOT language (the subset without HTML strings and ports), and the call
//! graph it denotes. Any deviation from the grammar is an error.

use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Str(String),
    P(char),
    Arrow,
    Eof,
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        let ch = c[i];
        if ch.is_whitespace() {
            i += 1;
        } else if ch == '"' {
            let mut t = String::new();
            i += 1;
            loop {
                if i >= c.len() {
                    return Err("unterminated string".into());
                }
                match c[i] {
                    '"' => {
                        i += 1;
                        break;
                    }
                    '\\' if i + 1 < c.len() && c[i + 1] == '"' => {
                        t.push('"');
                        i += 2;
                    }
                    '\\' if i + 1 < c.len() && c[i + 1] == '\\' => {
                        t.push_str("\\\\");
                        i += 2;
                    }
                    '\0' => return Err("NUL in string".into()),
                    x => {
                        t.push(x);
                        i += 1;
                    }
                }
            }
            out.push(Tok::Str(t));
        } else if ch == '-' && i + 1 < c.len() && c[i + 1] == '>' {
            out.push(Tok::Arrow);
            i += 2;
        } else if "{}[];,=".contains(ch) {
            out.push(Tok::P(ch));
            i += 1;
        } else if ch.is_ascii_digit() || (ch == '-' && i + 1 < c.len() && c[i + 1].is_ascii_digit()) || ch == '.' {
            let st = i;
            i += 1;
            while i < c.len() && (c[i].is_ascii_digit() || c[i] == '.') {
                i += 1;
            }
            if i < c.len() && (c[i].is_alphabetic() || c[i] == '_') {
                return Err(format!("bad number at {}", st));
            }
            out.push(Tok::Id(c[st..i].iter().collect()));
        } else if ch.is_ascii_alphabetic() || ch == '_' || (ch as u32) >= 0x80 {
            let st = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || (c[i] as u32) >= 0x80) {
                i += 1;
            }
            out.push(Tok::Id(c[st..i].iter().collect()));
        } else {
            return Err(format!("unexpected character {:?}", ch));
        }
    }
    out.push(Tok::Eof);
    Ok(out)
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Node {
    pub name: String,
    /// Some((exact, n))
    pub max: Option<(bool, u64)>,
    pub local: Option<u64>,
    pub dashed: bool,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Graph {
    pub nodes: Vec<Node>,
    pub edges: Vec<(usize, usize)>,
    pub clusters: Vec<Vec<usize>>,
}

/// Interprets the escapes of a DOT escString; `\n`, `\l`, `\r` become '\u{1}' line separators.
fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') | Some('l') | Some('r') => o.push('\u{1}'),
                // placeholders for graph/node names: they would not read back as written
                Some(x @ ('N' | 'G' | 'E' | 'T' | 'H' | 'L')) => {
                    o.push('\u{2}');
                    o.push(x)
                }
                Some(x) => o.push(x),
                None => o.push('\\'),
            }
        } else {
            o.push(c)
        }
    }
    o
}

fn label(raw: &str) -> Result<(String, Option<(bool, u64)>, Option<u64>), String> {
    let text = unescape(raw);
    let (rest, local) = text.rsplit_once('\u{1}').ok_or("label without local line")?;
    let local = local.strip_prefix("local = ").ok_or_else(|| format!("bad local line {:?}", local))?;
    let local = if local == "?" {
        None
    } else {
        Some(local.parse::<u64>().map_err(|_| format!("bad local {:?}", local))?)
    };
    let mut name = rest;
    let mut max = None;
    if let Some((n, m)) = rest.rsplit_once('\u{1}') {
        if let Some(m) = m.strip_prefix("max ") {
            let (exact, v) = if let Some(v) = m.strip_prefix(">= ") {
                (false, v)
            } else if let Some(v) = m.strip_prefix("= ") {
                (true, v)
            } else {
                return Err(format!("bad max line {:?}", m));
            };
            max = Some((exact, v.parse::<u64>().map_err(|_| format!("bad max {:?}", v))?));
            name = n;
        }
    }
    Ok((name.to_string(), max, local))
}

struct P {
    t: Vec<Tok>,
    i: usize,
    ids: BTreeMap<String, usize>,
    raw_edges: Vec<(String, String)>,
    raw_clusters: Vec<Vec<String>>,
    /// subgraphs of one name are one subgraph
    cluster_names: Vec<String>,
    g: Graph,
}

impl P {
    fn peek(&self) -> &Tok {
        &self.t[self.i]
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn expect(&mut self, c: char) -> Result<(), String> {
        match self.next() {
            Tok::P(x) if x == c => Ok(()),
            t => Err(format!("expected {:?}, found {:?}", c, t)),
        }
    }
    fn id(&mut self) -> Result<(String, bool), String> {
        match self.next() {
            Tok::Id(s) => Ok((s, false)),
            Tok::Str(s) => Ok((s, true)),
            t => Err(format!("expected an ID, found {:?}", t)),
        }
    }
    fn attrs(&mut self) -> Result<Vec<(String, String)>, String> {
        let mut out = vec![];
        while *self.peek() == Tok::P('[') {
            self.next();
            while *self.peek() != Tok::P(']') {
                let k = self.id()?.0;
                self.expect('=')?;
                let v = self.id()?.0;
                out.push((k, v));
                if matches!(self.peek(), Tok::P(',') | Tok::P(';')) {
                    self.next();
                }
            }
            self.next();
        }
        Ok(out)
    }
    fn stmts(&mut self, cluster: Option<usize>) -> Result<(), String> {
        loop {
            match self.peek().clone() {
                Tok::P('}') => {
                    self.next();
                    return Ok(());
                }
                Tok::P(';') => {
                    self.next();
                }
                Tok::Eof => return Err("unexpected end of output".into()),
                _ => {
                    let (a, quoted) = self.id()?;
                    let low = a.to_ascii_lowercase();
                    if !quoted && (low == "node" || low == "edge" || low == "graph") {
                        self.attrs()?;
                        continue;
                    }
                    if !quoted && low == "subgraph" {
                        if cluster.is_some() {
                            return Err("nested subgraph".into());
                        }
                        let name = self.id()?.0;
                        self.expect('{')?;
                        if !name.starts_with("cluster") {
                            return Err(format!("unexpected subgraph {:?}", name));
                        }
                        let k = match self.cluster_names.iter().position(|n| *n == name) {
                            Some(k) => k,
                            None => {
                                self.cluster_names.push(name);
                                self.raw_clusters.push(vec![]);
                                self.raw_clusters.len() - 1
                            }
                        };
                        self.stmts(Some(k))?;
                        continue;
                    }
                    match self.peek().clone() {
                        Tok::P('=') => {
                            self.next();
                            self.id()?;
                        }
                        Tok::Arrow => {
                            if cluster.is_some() {
                                return Err("edge inside a cluster".into());
                            }
                            let mut from = a;
                            while *self.peek() == Tok::Arrow {
                                self.next();
                                let to = self.id()?.0;
                                self.raw_edges.push((from, to.clone()));
                                from = to;
                            }
                            self.attrs()?;
                        }
                        _ => {
                            let at = self.attrs()?;
                            if let Some(k) = cluster {
                                if !at.is_empty() {
                                    return Err("node declared inside a cluster".into());
                                }
                                self.raw_clusters[k].push(a);
                            } else {
                                let mut lab = None;
                                let mut dashed = false;
                                for (k, v) in at {
                                    if k == "label" {
                                        if lab.is_some() {
                                            return Err("two labels".into());
                                        }
                                        lab = Some(v)
                                    } else if k == "style" && v == "dashed" {
                                        dashed = true
                                    }
                                }
                                let lab = lab.ok_or_else(|| format!("node {} has no label", a))?;
                                let (name, max, local) = label(&lab)?;
                                if self.ids.insert(a.clone(), self.g.nodes.len()).is_some() {
                                    return Err(format!("node {} declared twice", a));
                                }
                                self.g.nodes.push(Node { name, max, local, dashed });
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn parse(s: &str) -> Result<Graph, String> {
    let t = lex(s)?;
    let mut p = P { t, i: 0, ids: BTreeMap::new(), raw_edges: vec![], raw_clusters: vec![], cluster_names: vec![], g: Graph::default() };
    let (kw, q) = p.id()?;
    if q || kw != "digraph" {
        return Err("not a digraph".into());
    }
    if *p.peek() != Tok::P('{') {
        p.id()?;
    }
    p.expect('{')?;
    p.stmts(None)?;
    if *p.peek() != Tok::Eof {
        return Err("trailing output after the digraph".into());
    }
    for (a, b) in &p.raw_edges {
        let a = *p.ids.get(a).ok_or_else(|| format!("edge from undeclared node {}", a))?;
        let b = *p.ids.get(b).ok_or_else(|| format!("edge to undeclared node {}", b))?;
        p.g.edges.push((a, b));
    }
    for c in &p.raw_clusters {
        let mut v = vec![];
        for a in c {
            v.push(*p.ids.get(a).ok_or_else(|| format!("cluster member {} undeclared", a))?);
        }
        p.g.clusters.push(v);
    }
    Ok(p.g)
}

impl Graph {
    pub fn find(&self, name: &str) -> Option<usize> {
        let mut it = self.nodes.iter().enumerate().filter(|(_, n)| n.name == name);
        let r = it.next()?.0;
        if it.next().is_some() {
            None
        } else {
            Some(r)
        }
    }
    pub fn succ(&self, i: usize) -> impl Iterator<Item = usize> + '_ {
        self.edges.iter().filter(move |e| e.0 == i).map(|e| e.1)
    }
    /// names of the callees of `i`, sorted, with multiplicity
    pub fn callees(&self, i: usize) -> Vec<String> {
        let mut v: Vec<String> = self.succ(i).map(|j| self.nodes[j].name.clone()).collect();
        v.sort();
        v
    }
    pub fn reach(&self, i: usize) -> BTreeSet<usize> {
        let mut seen = BTreeSet::new();
        let mut st = vec![i];
        while let Some(x) = st.pop() {
            if seen.insert(x) {
                st.extend(self.succ(x));
            }
        }
        seen
    }
    /// order-insensitive description: nodes, edges by node description, clusters by name
    pub fn canon(&self) -> (Vec<Node>, Vec<(Node, Node)>, Vec<Vec<Node>>) {
        let mut n = self.nodes.clone();
        n.sort();
        let mut e: Vec<(Node, Node)> =
            self.edges.iter().map(|&(a, b)| (self.nodes[a].clone(), self.nodes[b].clone())).collect();
        e.sort();
        let mut c: Vec<Vec<Node>> = self
            .clusters
            .iter()
            .map(|c| {
                let mut v: Vec<Node> = c.iter().map(|&i| self.nodes[i].clone()).collect();
                v.sort();
                v
            })
            .collect();
        c.sort();
        (n, e, c)
    }
    /// like canon, without the max values
    pub fn shape(&self) -> (Vec<Node>, Vec<(Node, Node)>) {
        let mut g = self.clone();
        for n in &mut g.nodes {
            n.max = None;
        }
        let c = g.canon();
        (c.0, c.1)
    }
}
