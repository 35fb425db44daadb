//! Drives explorations in parallel, collects evidence, known findings and violations.

use crate::explore::{self, Chooser, TreeStats};
use crate::run::{Tools, Worker};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::mpsc::sync_channel;
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Violation {
    pub space: String,
    pub choices: Vec<u32>,
    pub key: String,
    pub msg: String,
}

/// What an execution tells: an outcome class (for coverage statistics) or a failure.
pub struct Fail {
    /// identifies the failing input, call site or history (matched against known findings)
    pub key: String,
    pub msg: String,
}

pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond { return $crate::ctx::fail($key, format!($($arg)*)); }
    };
}

pub type Exec = Result<String, Fail>;

#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub tools: Tools,
    pub scratch: PathBuf,
    pub workers: usize,
    pub replay: Option<(String, Vec<u32>)>,
    pub known: Vec<Known>,
    pub stats: Mutex<Stats>,
    pub start: Instant,
}

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub runs: u64,
    pub spaces: Vec<(String, TreeStats, u64)>,
    pub samples: Vec<(String, String)>,
    pub outcomes: HashSet<u64>,
    pub violations: Vec<Violation>,
    pub known_hits: BTreeMap<String, (String, u64)>,
    pub extra: BTreeMap<String, u64>,
    pub assumptions: Vec<String>,
    pub capped: bool,
}

fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn add(&self, key: &str, n: u64) {
        *self.stats.lock().unwrap().extra.entry(key.to_string()).or_insert(0) += n;
    }
    /// states/transitions of an explicit model, in addition to the choice tree
    pub fn model(&self, states: u64, transitions: u64) {
        let mut s = self.stats.lock().unwrap();
        s.states += states;
        s.transitions += transitions;
    }
    pub fn assume(&self, s: &str) {
        self.stats.lock().unwrap().assumptions.push(s.to_string());
    }

    pub fn fresh_worker(&self, id: usize) -> Worker {
        Worker::new(id, &self.scratch, &self.tools)
    }

    /// Explores every leaf of `gen` within the deviation budget; `exec` runs and judges one case.
    pub fn explore<C: Send + std::fmt::Debug>(
        &self,
        space: &str,
        budget: u32,
        gen: impl Fn(&mut Chooser) -> Option<C> + Sync,
        exec: impl Fn(&mut Worker, &C) -> Exec + Sync,
    ) {
        if let Some((s, ch)) = &self.replay {
            if s != space {
                return;
            }
            let mut c = Chooser::new(ch.clone(), budget, true);
            let case = gen(&mut c).unwrap_or_else(|| {
                eprintln!("ENGINE-ERROR: the recorded choices denote no case");
                std::process::exit(3)
            });
            println!("space {}\nchoices {:?}\ncase {:#?}", space, ch, case);
            let mut w = self.fresh_worker(0);
            for round in 1..=2 {
                match exec(&mut w, &case) {
                    Ok(o) => println!("execution {}: holds: {}", round, o),
                    Err(f) => {
                        println!("execution {}: VIOLATED: {}", round, f.msg);
                        self.stats.lock().unwrap().violations.push(Violation {
                            space: space.into(),
                            choices: ch.clone(),
                            key: f.key,
                            msg: f.msg,
                        });
                    }
                }
            }
            return;
        }
        let (tx, rx) = sync_channel::<Vec<(Vec<u32>, C)>>(self.workers * 4);
        let rx = Arc::new(Mutex::new(rx));
        let stop = std::sync::atomic::AtomicBool::new(false);
        let mut tree = TreeStats::default();
        let t0 = Instant::now();
        let results: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for id in 0..self.workers {
                let rx = rx.clone();
                let exec = &exec;
                let stop = &stop;
                let results = &results;
                s.spawn(move || {
                    let mut w: Option<Worker> = None;
                    let mut n = 0u64;
                    let mut outcomes = HashSet::new();
                    let mut samples = vec![];
                    let mut known_hits: BTreeMap<String, (String, u64)> = BTreeMap::new();
                    loop {
                        let batch = match rx.lock().unwrap().recv() {
                            Ok(b) => b,
                            Err(_) => break,
                        };
                        let w = w.get_or_insert_with(|| self.fresh_worker(id));
                        for (choices, case) in batch {
                            if stop.load(std::sync::atomic::Ordering::Relaxed) {
                                continue;
                            }
                            n += 1;
                            let mut res = exec(w, &case);
                            if let Err(f) = &res {
                                // a failure must be reproducible from a clean scratch directory
                                w.reset();
                                let again = exec(w, &case);
                                match &again {
                                    Err(_) => {}
                                    Ok(_) => {
                                        // not a function of the input alone: report, saying so
                                        res = fail(f.key.clone(), format!("{} [NOT reproduced on immediate re-execution: nondeterministic]", f.msg));
                                    }
                                }
                            }
                            match res {
                                Ok(o) => {
                                    if outcomes.insert(hash(&o)) && samples.len() < 2 {
                                        let mut d = format!("{:?}", case);
                                        if d.len() > 600 {
                                            let cut = (0..=600).rev().find(|&i| d.is_char_boundary(i)).unwrap();
                                            d.truncate(cut);
                                            d.push_str("...");
                                        }
                                        let mut o = o;
                                        if o.len() > 600 {
                                            let cut = (0..=600).rev().find(|&i| o.is_char_boundary(i)).unwrap();
                                            o.truncate(cut);
                                        }
                                        samples.push((d, o));
                                    }
                                }
                                Err(f) => {
                                    if let Some(k) = self.known.iter().find(|k| k.property == self.property && k.key == f.key) {
                                        let e = known_hits.entry(k.key.clone()).or_insert((k.what.clone(), 0));
                                        e.1 += 1;
                                        continue;
                                    }
                                    let mut r = results.lock().unwrap();
                                    r.push(Violation { space: space.to_string(), choices, key: f.key, msg: f.msg });
                                    if r.len() >= 3 {
                                        stop.store(true, std::sync::atomic::Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                    }
                    let runs = w.as_ref().map(|w| w.runs).unwrap_or(0);
                    let mut st = self.stats.lock().unwrap();
                    st.traces += n;
                    st.runs += runs;
                    st.outcomes.extend(outcomes);
                    for (k, v) in known_hits {
                        let e = st.known_hits.entry(k).or_insert((v.0.clone(), 0));
                        e.1 += v.1;
                    }
                    if st.samples.len() < 12 {
                        st.samples.extend(samples);
                    }
                });
            }
            let mut batch = vec![];
            tree = explore::enumerate(budget, &|c| gen(c), &mut |ch, case| {
                batch.push((ch, case));
                if batch.len() >= 8 {
                    let b = std::mem::take(&mut batch);
                    if tx.send(b).is_err() {
                        return false;
                    }
                }
                !stop.load(std::sync::atomic::Ordering::Relaxed)
            });
            if !batch.is_empty() {
                let _ = tx.send(batch);
            }
            drop(tx);
        });
        let mut st = self.stats.lock().unwrap();
        st.states += tree.states;
        st.transitions += tree.transitions;
        st.spaces.push((space.to_string(), tree, t0.elapsed().as_millis() as u64));
        let mut v = results.into_inner().unwrap();
        v.sort_by(|a, b| a.choices.len().cmp(&b.choices.len()).then(a.choices.cmp(&b.choices)));
        st.violations.extend(v);
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
