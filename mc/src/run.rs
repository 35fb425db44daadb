//! Runs the real tool inside a private scratch directory, with stand-ins for `cargo` and `rustc`.

use crate::dot;
use std::fs;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

pub const HASH: &str = "2b603f95a48f10f931a61dd208fe3e5ffd64e491";
pub const HOST: &str = "x86_64-unknown-linux-gnu";

pub fn version_text(hash: &str, host: &str) -> String {
    format!(
        "rustc 1.76.0-nightly (2b603f95a 2023-11-12)\nbinary: rustc\ncommit-hash: {}\ncommit-date: 2023-11-12\nhost: {}\nrelease: 1.76.0-nightly\nLLVM version: 17.0.4\n",
        hash, host
    )
}

pub fn cfg_text(os_none: bool, arch: &str) -> String {
    if os_none {
        format!("debug_assertions\npanic=\"abort\"\ntarget_arch=\"{}\"\ntarget_endian=\"little\"\ntarget_env=\"\"\ntarget_has_atomic\ntarget_os=\"none\"\ntarget_pointer_width=\"32\"\ntarget_vendor=\"unknown\"\n", arch)
    } else {
        format!("debug_assertions\npanic=\"unwind\"\ntarget_arch=\"{}\"\ntarget_endian=\"little\"\ntarget_env=\"gnu\"\ntarget_family=\"unix\"\ntarget_os=\"linux\"\ntarget_pointer_width=\"64\"\ntarget_vendor=\"unknown\"\nunix\n", arch)
    }
}

/// One recorded invocation of a stand-in.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Call {
    pub prog: String,
    pub args: Vec<String>,
    pub env: Vec<String>,
    pub cwd: String,
    /// modification times of the files in MC_PROBE (-1: no such file)
    pub probe: Vec<i64>,
}

#[derive(Clone, Debug)]
pub enum Out {
    Graph(dot::Graph),
    /// exit 0, but not a DOT graph (stdout text)
    Text(String),
    /// exit status != 0
    Fail(i32),
    Signal(i32),
    Timeout,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub out: Out,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

impl Run {
    pub fn graph(&self) -> Option<&dot::Graph> {
        match &self.out {
            Out::Graph(g) => Some(g),
            _ => None,
        }
    }
    /// loud failure: non-zero exit (or signal), nothing graph-like printed
    pub fn failed(&self) -> bool {
        matches!(self.out, Out::Fail(_) | Out::Signal(_))
    }
    pub fn brief(&self) -> String {
        match &self.out {
            Out::Graph(g) => {
                let mut s = String::from("graph:");
                for (i, n) in g.nodes.iter().enumerate() {
                    s.push_str(&format!(
                        " [{} max{} local{}{} ->{:?}]",
                        n.name,
                        match n.max {
                            Some((true, v)) => format!("={}", v),
                            Some((false, v)) => format!(">={}", v),
                            None => "-".into(),
                        },
                        match n.local {
                            Some(v) => format!("={}", v),
                            None => "=?".into(),
                        },
                        if n.dashed { " dashed" } else { "" },
                        g.callees(i)
                    ));
                }
                if !g.clusters.is_empty() {
                    s.push_str(&format!(" clusters {:?}", g.clusters));
                }
                s
            }
            Out::Text(t) => format!("exit 0 with output that is not a call graph: {:?}", t),
            Out::Fail(c) => format!("exit {} ({})", c, self.stderr.lines().last().unwrap_or("").chars().take(300).collect::<String>()),
            Out::Signal(c) => format!("killed by signal {}", c),
            Out::Timeout => "no answer (timeout)".into(),
        }
    }
}

#[derive(Clone)]
pub struct Tools {
    pub tool: PathBuf,
    pub fake: PathBuf,
    pub shim: PathBuf,
}

struct Watch {
    pid: AtomicI32,
    deadline: AtomicU64,
    fired: AtomicI32,
}

pub struct Worker {
    pub id: usize,
    pub root: PathBuf,
    pub tools: Tools,
    watch: Arc<Watch>,
    pub runs: u64,
    last: std::collections::HashMap<String, Vec<u8>>,
}

static WATCHES: Mutex<Vec<Arc<Watch>>> = Mutex::new(vec![]);
static START: Mutex<Option<Instant>> = Mutex::new(None);

fn now_ms() -> u64 {
    let mut s = START.lock().unwrap();
    s.get_or_insert_with(Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(200));
        let t = now_ms();
        for w in WATCHES.lock().unwrap().iter() {
            let d = w.deadline.load(Ordering::SeqCst);
            if d != 0 && t > d {
                let pid = w.pid.load(Ordering::SeqCst);
                if pid > 1 {
                    w.fired.store(1, Ordering::SeqCst);
                    unsafe {
                        kill(-pid, 9);
                        kill(pid, 9);
                    }
                }
            }
        }
    });
}

fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}

impl Worker {
    pub fn new(id: usize, base: &Path, tools: &Tools) -> Self {
        let root = base.join(format!("w{}", id));
        let watch = Arc::new(Watch { pid: AtomicI32::new(0), deadline: AtomicU64::new(0), fired: AtomicI32::new(0) });
        WATCHES.lock().unwrap().push(watch.clone());
        let mut w = Worker { id, root, tools: tools.clone(), watch, runs: 0, last: Default::default() };
        w.reset();
        w
    }

    /// Fresh scratch directory with the stand-ins and a minimal project.
    pub fn reset(&mut self) {
        let _ = fs::remove_dir_all(&self.root);
        self.last.clear();
        for d in ["bin", "home", "proj/src", "cb"] {
            fs::create_dir_all(self.root.join(d)).unwrap();
        }
        for n in ["cargo", "rustc", "realrustc"] {
            std::os::unix::fs::symlink(&self.tools.fake, self.root.join("bin").join(n)).unwrap();
        }
        self.put("rustc.vV", version_text(HASH, HOST).as_bytes());
        self.put("rustc.cfg", cfg_text(true, "arm").as_bytes());
        self.put("proj/Cargo.toml", b"[package]\nname = \"proj\"\nversion = \"0.1.0\"\n");
        self.put("proj/src/main.rs", b"fn main() {}\n");
        let markers = self.markers();
        self.put("cargo.err", markers.as_bytes());
    }

    pub fn markers(&self) -> String {
        format!(
            "   Compiling proj v0.1.0\n@CARGO_CALL_STACK:compiler_builtins_ll_path@{0}/cb/cb.ll\n@CARGO_CALL_STACK:compiler_builtins_rlib_path@{0}/cb/libcompiler_builtins.rlib\n    Finished release\n",
            self.root.display()
        )
    }

    pub fn path(&self, rel: &str) -> PathBuf {
        self.root.join(rel)
    }

    /// Writes a file below the scratch directory (skipped when unchanged since the last write).
    pub fn put(&mut self, rel: &str, data: &[u8]) {
        if self.last.get(rel).map(|d| &d[..] == data).unwrap_or(false) {
            return;
        }
        let p = self.root.join(rel);
        if fs::write(&p, data).is_err() {
            fs::create_dir_all(p.parent().unwrap()).unwrap();
            fs::write(&p, data).unwrap();
        }
        self.last.insert(rel.to_string(), data.to_vec());
    }

    pub fn forget(&mut self, rel: &str) {
        self.last.remove(rel);
        let p = self.root.join(rel);
        let _ = fs::remove_file(p);
    }

    pub fn base_command(&self, args: &[String]) -> Command {
        let mut c = Command::new(&self.tools.tool);
        c.args(args)
            .current_dir(self.root.join("proj"))
            .env_clear()
            .env("PATH", self.root.join("bin"))
            .env("HOME", self.root.join("home"))
            .env("MC_FAKE", &self.root)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::null());
        c
    }

    /// Runs a prepared command to completion under the watchdog.
    pub fn exec(&mut self, c: Command) -> Run {
        self.exec_with(c, None)
    }

    /// As `exec`, with another standard output.
    pub fn exec_with(&mut self, mut c: Command, stdout_to: Option<Stdio>) -> Run {
        self.runs += 1;
        c.stdout(stdout_to.unwrap_or_else(Stdio::piped)).stderr(Stdio::piped()).process_group(0);
        let mut child = c.spawn().unwrap_or_else(|e| {
            eprintln!("ENGINE-ERROR: cannot start the tool: {}", e);
            std::process::exit(3)
        });
        self.watch.fired.store(0, Ordering::SeqCst);
        self.watch.pid.store(child.id() as i32, Ordering::SeqCst);
        self.watch.deadline.store(now_ms() + 60_000, Ordering::SeqCst);
        let so = child.stdout.take();
        let mut se = child.stderr.take().unwrap();
        let mut stdout = vec![];
        // stderr is small enough in most runs; a helper thread keeps the pipe from filling up
        let t = std::thread::scope(|s| {
            let h = s.spawn(move || {
                let mut v = vec![];
                let _ = se.read_to_end(&mut v);
                v
            });
            if let Some(mut so) = so {
                let _ = so.read_to_end(&mut stdout);
            }
            h.join().unwrap()
        });
        let st = child.wait().unwrap();
        self.watch.deadline.store(0, Ordering::SeqCst);
        self.watch.pid.store(0, Ordering::SeqCst);
        let stderr = String::from_utf8_lossy(&t).into_owned();
        let out = if self.watch.fired.load(Ordering::SeqCst) != 0 {
            Out::Timeout
        } else if let Some(c) = st.code() {
            if c == 0 {
                match std::str::from_utf8(&stdout).map_err(|e| e.to_string()).and_then(dot::parse) {
                    Ok(g) => Out::Graph(g),
                    Err(_) => Out::Text(String::from_utf8_lossy(&stdout).into_owned()),
                }
            } else {
                Out::Fail(c)
            }
        } else {
            Out::Signal(st.signal().unwrap_or(0))
        };
        Run { out, stdout, stderr }
    }

    pub fn run(&mut self, args: &[&str]) -> Run {
        let v: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        let c = self.base_command(&v);
        self.exec(c)
    }

    pub fn clear_log(&mut self) {
        let _ = fs::remove_file(self.root.join("log"));
    }

    pub fn log(&self) -> Vec<Call> {
        let s = String::from_utf8_lossy(&fs::read(self.root.join("log")).unwrap_or_default()).into_owned();
        let mut out = vec![];
        let mut cur = Call::default();
        let mut expect_prog = false;
        for l in s.lines() {
            if expect_prog {
                cur.prog = l.to_string();
                expect_prog = false;
                continue;
            }
            match l.chars().next() {
                Some('B') => {
                    cur = Call::default();
                    expect_prog = true;
                }
                Some('A') => cur.args.push(unesc(&l[1..])),
                Some('V') => cur.env.push(unesc(&l[1..])),
                Some('C') => cur.cwd = unesc(&l[1..]),
                Some('T') => cur.probe.push(l[1..].parse().unwrap_or(-2)),
                Some('E') => out.push(cur.clone()),
                _ => {}
            }
        }
        out
    }
}

impl Drop for Worker {
    fn drop(&mut self) {
        if std::env::var_os("MC_KEEP").is_none() {
            let _ = fs::remove_dir_all(&self.root);
        }
    }
}
