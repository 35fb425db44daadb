//! C19: every command line x project configuration x target; the recorded invocations of the
//! toolchain are judged by what they mean, and the analysis mode by the graph.
use crate::ctx::{fail, Ctx};
use crate::ensure;
use crate::run::{cfg_text, version_text, Call, Run, Worker, HASH, HOST};
use crate::world::*;
use std::fs;
use std::time::{Duration, SystemTime};

#[derive(Clone, Debug, Default)]
struct Line {
    /// as `cargo-call-stack call-stack ..`
    subcommand: bool,
    bin: bool,
    name: &'static str,
    target: Option<&'static str>,
    eq: bool,
    features: Option<&'static str>,
    all_features: bool,
    verbose: usize,
    start: bool,
    top: bool,
    /// options in reverse order
    reverse: bool,
}

fn argv(l: &Line) -> Vec<String> {
    let mut groups: Vec<Vec<String>> = vec![];
    let mut opt = |k: &str, v: &str| {
        if l.eq {
            groups.push(vec![format!("{}={}", k, v)])
        } else {
            groups.push(vec![k.into(), v.into()])
        }
    };
    opt(if l.bin { "--bin" } else { "--example" }, l.name);
    if let Some(t) = l.target {
        opt("--target", t);
    }
    if let Some(f) = l.features {
        opt("--features", f);
    }
    if l.top {
        opt("--format", "top");
    }
    if l.all_features {
        groups.push(vec!["--all-features".into()]);
    }
    match l.verbose {
        1 => groups.push(vec!["-v".into()]),
        2 => groups.push(vec!["--verbose".into()]),
        _ => {}
    }
    if l.start {
        groups.push(vec!["main".into()]);
    }
    if l.reverse {
        groups.reverse();
    }
    let mut v: Vec<String> = groups.concat();
    if l.subcommand {
        v.insert(0, "call-stack".into());
    }
    v
}

fn takes(args: &[String], i: &mut usize, key: &str) -> Option<String> {
    let a = &args[*i];
    if a == key {
        *i += 1;
        return Some(args.get(*i).cloned().unwrap_or_else(|| "<missing>".into()));
    }
    a.strip_prefix(key).and_then(|r| r.strip_prefix('=')).map(|r| r.to_string())
}

/// what the recorded cargo command means
#[derive(Default, Debug, PartialEq, Clone)]
struct Meaning {
    target: Vec<String>,
    features: Vec<String>,
    all_features: usize,
    example: Vec<String>,
    bin: Vec<String>,
    release: usize,
    build_std: Vec<String>,
    emit: Vec<String>,
    codegen: Vec<(String, String)>,
    other: Vec<String>,
}

fn meaning(args: &[String]) -> Meaning {
    let mut m = Meaning::default();
    let end = args.iter().position(|a| a == "--").unwrap_or(args.len());
    let mut i = 1;
    while i < end {
        let a = &args[..end];
        if let Some(v) = takes(a, &mut i, "--target") {
            m.target.push(v)
        } else if let Some(v) = takes(a, &mut i, "--features").or_else(|| takes(a, &mut i, "-F")) {
            m.features.push(v)
        } else if let Some(v) = takes(a, &mut i, "--example") {
            m.example.push(v)
        } else if let Some(v) = takes(a, &mut i, "--bin") {
            m.bin.push(v)
        } else if let Some(v) = takes(a, &mut i, "--profile") {
            if v == "release" {
                m.release += 1
            } else {
                m.other.push(v)
            }
        } else if a[i] == "--release" || a[i] == "-r" {
            m.release += 1
        } else if a[i] == "--all-features" {
            m.all_features += 1
        } else if let Some(v) = a[i].strip_prefix("-Zbuild-std=") {
            m.build_std.push(v.into())
        } else if a[i] == "-Zbuild-std" {
            m.build_std.push(String::new())
        } else if a[i] == "-Z" {
            i += 1;
            match a.get(i).map(|s| &s[..]) {
                Some("build-std") => m.build_std.push(String::new()),
                Some(s) if s.starts_with("build-std=") => m.build_std.push(s[10..].into()),
                s => m.other.push(format!("-Z {:?}", s)),
            }
        } else if takes(a, &mut i, "--color").is_some() || ["-v", "--verbose", "-vv"].contains(&&a[i][..]) {
        } else {
            m.other.push(a[i].clone())
        }
        i += 1;
    }
    let a = &args[(end + 1).min(args.len())..];
    let mut i = 0;
    while i < a.len() {
        if let Some(v) = takes(a, &mut i, "--emit") {
            m.emit.extend(v.split(',').map(String::from))
        } else if a[i].starts_with("-C") {
            let mut v = a[i][2..].to_string();
            if v.is_empty() {
                i += 1;
                v = a.get(i).cloned().unwrap_or_default();
            }
            let (k, x) = v.split_once('=').unwrap_or((&v, ""));
            m.codegen.push((k.replace('_', "-"), x.to_string()))
        } else {
            m.other.push(a[i].clone())
        }
        i += 1;
    }
    m.emit.sort();
    m
}

/// `-Zbuild-std` takes lists of crates; order is irrelevant
fn crates(v: &[String]) -> Option<Vec<String>> {
    if v.len() != 1 {
        return None;
    }
    let mut s: Vec<String> = v[0].split(',').filter(|s| !s.is_empty()).map(String::from).collect();
    s.sort();
    Some(s)
}

fn judge_command(w: &Worker, l: &Line, no_std: bool, calls: &[Call]) -> Result<(), crate::ctx::Fail> {
    let cargo: Vec<&Call> = calls.iter().filter(|c| c.prog == "cargo").collect();
    ensure!(cargo.len() == 1, "builds", "{} builds: {:?}", cargo.len(), cargo);
    let c = cargo[0];
    ensure!(c.args.first().map(|s| &s[..]) == Some("rustc"), "rustc", "{:?}", c.args);
    let m = meaning(&c.args);
    let want = |o: Option<&str>| -> Vec<String> { o.iter().map(|s| s.to_string()).collect() };
    ensure!(m.target == want(l.target), "target", "requested {:?}: {:?}", l.target, c.args);
    if l.all_features {
        // additional features do no harm
        ensure!(m.all_features >= 1, "features", "--all-features is lost: {:?}", c.args);
        ensure!(m.features.is_empty(), "features", "--all-features takes precedence: {:?}", c.args);
    } else {
        ensure!(m.all_features == 0 && m.features == want(l.features), "features", "requested {:?}: {:?}", l.features, c.args);
    }
    ensure!(m.bin == want(if l.bin { Some(l.name) } else { None }) && m.example == want(if l.bin { None } else { Some(l.name) }), "artifact", "requested {} (binary: {}): {:?}", l.name, l.bin, c.args);
    ensure!(m.release == 1, "release", "{:?}", c.args);
    let std = crates(&m.build_std);
    let ok = if no_std { std == Some(vec!["alloc".into(), "compiler_builtins".into(), "core".into()]) } else { std == Some(vec![]) };
    ensure!(ok, "build-std", "standard library (bare metal: {}): {:?}", no_std, c.args);
    ensure!(m.emit == ["llvm-ir", "obj"], "emit", "{:?}", c.args);
    let last = |k: &str| m.codegen.iter().rev().find(|c| c.0 == k).map(|c| c.1.clone());
    let lto = last("lto");
    ensure!(matches!(lto.as_deref(), Some("fat") | Some("yes") | Some("on") | Some("y") | Some("true") | Some("")), "lto", "{:?}", c.args);
    let bc = last("embed-bitcode");
    ensure!(matches!(bc.as_deref(), Some("yes") | Some("on") | Some("y") | Some("true") | Some("")), "embed-bitcode", "{:?}", c.args);
    ensure!(m.codegen.iter().all(|c| ["lto", "embed-bitcode", "codegen-units"].contains(&&c.0[..])), "codegen", "{:?}", c.args);
    ensure!(m.other.is_empty(), "other", "unexpected arguments {:?} in {:?}", m.other, c.args);
    let env = |k: &str| c.env.iter().find_map(|e| e.strip_prefix(k).and_then(|e| e.strip_prefix('=')).map(String::from));
    ensure!(env("CARGO_CALL_STACK_RUSTC_WRAPPER").is_some(), "wrapper", "{:?}", c.env);
    let tool = fs::canonicalize(&w.tools.tool).unwrap();
    ensure!(env("RUSTC_WRAPPER").map(std::path::PathBuf::from).and_then(|p| fs::canonicalize(p).ok()) == Some(tool), "wrapper", "{:?}", c.env);
    ensure!(env("RUSTFLAGS").is_none(), "rustflags", "{:?}", c.env);
    for r in calls.iter().filter(|c| c.prog == "rustc") {
        ensure!(r.env.iter().all(|e| !e.starts_with("CARGO_CALL_STACK_RUSTC_WRAPPER")), "rustc-env", "{:?}", r);
    }
    Ok(())
}

/// a program whose graph tells how it was analyzed: the call is only in the machine code
fn telling(a: Arch) -> Prog {
    let mut p = Prog::new(a);
    p.funs.push(Fun::new(a, "g", Some(8)));
    p.funs.push(Fun::new(a, "main", Some(8)).calls(a, &[0]));
    p.ll.push_str(&define("void", "main", "", &["call void @llvm.memcpy.p0.p0.i32(ptr %a, ptr %b, i32 4, i1 false)".into()]));
    p.ll.push_str(&void_fn("g", &[]));
    p
}

/// `telling`, but BL is a Thumb-2 only branch (B.W), which ARMv6-M does not have: decoded per mode
fn write_program(w: &mut Worker, dir: &str, l: &Line) {
    let mut p = telling(Arch::V7);
    let exe = p.exe();
    let krate = l.name.replace('-', "_");
    let (e, s) = if l.bin { (l.name.to_string(), format!("deps/{}-00", krate)) } else { (format!("examples/{}", l.name), format!("examples/{}-00", krate)) };
    w.put(&format!("{}/{}", dir, e), &exe);
    w.put(&format!("{}/{}.o", dir, s), &p.obj());
    w.put(&format!("{}/{}.ll", dir, s), ir_file(&p.ll).as_bytes());
    w.put("cb/cb.ll", ir_file("").as_bytes());
    w.put("cb/libcompiler_builtins.rlib", &p.rlib());
}

fn start(w: &mut Worker, l: &Line, cwd: &str, probe: &[String]) -> (Run, Vec<Call>, SystemTime) {
    w.clear_log();
    let mut c = w.base_command(&argv(l));
    c.current_dir(w.path(cwd));
    if !probe.is_empty() {
        c.env("MC_PROBE", probe.join(":"));
    }
    let t = SystemTime::now();
    let r = w.exec(c);
    let log = w.log();
    (r, log, t)
}

/// the right graph: with the machine code's call on Thumb, without it elsewhere
fn judge_graph(l: &Line, thumb: bool, r: &Run) -> Result<(), crate::ctx::Fail> {
    if l.top {
        let t = String::from_utf8_lossy(&r.stdout);
        ensure!(t.starts_with(if thumb { "16 MAX\n" } else { "8 MAX\n" }), "mode", "Thumb: {}: {:?} {}", thumb, t, r.brief());
        ensure!(t.lines().count() == if l.start && !thumb { 3 } else { 4 }, "start", "{:?}", t);
        return Ok(());
    }
    let g = match r.graph() {
        Some(g) => g,
        None => return fail("no-graph", r.brief()),
    };
    let has_g = g.find("g").is_some();
    ensure!(has_g == (thumb || !l.start), "start", "{}", r.brief());
    let m = match g.find("main") {
        Some(m) => m,
        None => return fail("no-main", r.brief()),
    };
    ensure!(g.callees(m).contains(&"g".to_string()) == thumb, "mode", "machine code is {}analyzed: {}", if thumb { "not " } else { "" }, r.brief());
    Ok(())
}

const TARGETS: &[(&str, bool, bool)] = &[
    // triple, Thumb mode, bare metal
    ("thumbv7m-none-eabi", true, true),
    ("thumbv7em-none-eabi", true, true),
    ("thumbv7em-none-eabihf", true, true),
    ("thumbv6m-none-eabi", true, true),
    ("thumbv8m.main-none-eabi", false, true),
    ("thumbv8m.base-none-eabi", false, true),
    ("riscv32imac-unknown-none-elf", false, true),
    ("x86_64-unknown-linux-gnu", false, false),
    ("aarch64-unknown-linux-gnu", false, false),
    ("thumbv7neon-unknown-linux-gnueabihf", false, false),
    ("armv7r-none-eabihf", false, true),
];

/// rustc's answers; `tricky`: lines that look similar to what counts
fn cfg_of(no_std: bool, tricky: usize) -> String {
    let t = cfg_text(no_std, "arm");
    match (tricky, no_std) {
        (1, true) => t.replace("target_env=\"\"", "target_env=\"none\"\nfeature=\"target_os=linux\""),
        (1, false) => t.replace("target_os=\"linux\"", "target_os=\"nonestos\"").replace("target_env=\"gnu\"", "target_env=\"none\"\nx_target_os=\"none\"\ntarget_os_version=\"none\"\npanic=\"none\""),
        (2, _) => {
            let mut l: Vec<&str> = t.lines().collect();
            l.reverse();
            l.join("\n")
        }
        _ => t,
    }
}

pub fn check(ctx: &Ctx) {
    let names = &["app", "my-app"];
    // command lines
    ctx.explore(
        "lines",
        if ctx.thorough { 9 } else { 4 },
        |c| {
            let mut l = Line { subcommand: c.flag(), bin: c.flag(), name: names[0], ..Default::default() };
            l.target = [None, Some("thumbv7m-none-eabi"), Some("riscv32imac-unknown-none-elf")][c.dev(3)];
            l.features = [None, Some("a"), Some("a b"), Some("a,b/c"), Some(""), Some("--release"), Some("call-stack")][c.dev(7)];
            l.all_features = c.dev(2) == 1;
            l.eq = c.dev(2) == 1 || l.features == Some("--release");
            l.verbose = c.dev(3);
            l.start = c.dev(2) == 1;
            l.top = c.dev(2) == 1;
            l.reverse = c.dev(2) == 1;
            l.name = *c.dev_of(&["app", "my-app", "call-stack", "release"]);
            Some(l)
        },
        |w, l| {
            w.reset();
            let bare = l.target.is_some();
            w.put("rustc.cfg", cfg_text(bare, "arm").as_bytes());
            write_program(w, &match l.target {
                Some(t) => format!("proj/target/{}/release", t),
                None => "proj/target/release".into(),
            }, l);
            let (r, calls, _) = start(w, l, "proj", &[]);
            judge_graph(l, l.target == Some("thumbv7m-none-eabi"), &r)?;
            judge_command(w, l, bare, &calls)?;
            Ok(format!("{:?}", calls.iter().find(|c| c.prog == "cargo").map(|c| &c.args)))
        },
    );
    // targets: from the command line, the configuration, the host
    ctx.explore(
        "targets",
        0,
        |c| {
            let n = TARGETS.len() + 1;
            let t = (c.pick(n), c.pick(n), c.pick(4));
            let tricky = c.pick(3);
            let sub = c.flag();
            let cfg = c.pick(4);
            let bin = c.flag();
            if (t.1 == 0) != (cfg == 0) && cfg != 3 {
                return None;
            }
            if cfg == 3 && t.1 == 0 {
                return None;
            }
            if !ctx.thorough && (tricky + cfg + bin as usize + t.0 + t.1) % 3 != 0 {
                return None;
            }
            Some((t, tricky, sub, cfg, bin))
        },
        |w, &((flag, conf, host), tricky, sub, cfg, bin)| {
            w.reset();
            let host = [HOST, "thumbv7m-none-eabi", "aarch64-unknown-linux-gnu", "x86_64-pc-windows-msvc"][host];
            w.put("rustc.vV", version_text(HASH, host).as_bytes());
            let f = flag.checked_sub(1).map(|i| TARGETS[i].0);
            let cf = conf.checked_sub(1).map(|i| TARGETS[i].0);
            let eff = f.or(cf).unwrap_or(host);
            let (thumb, bare) = TARGETS.iter().find(|t| t.0 == eff).map(|t| (t.1, t.2)).unwrap_or((false, false));
            w.put("rustc.cfg", cfg_of(bare, tricky).as_bytes());
            if let Some(t) = cf {
                let text = format!("[target.thumbv7m-none-eabi]\nrunner = \"x\"\n\n[build]\nrustflags = [\"-C\", \"x\"]\ntarget = {:?}\n", t);
                w.put(["", "proj/.cargo/config", "proj/.cargo/config.toml", ".cargo/config.toml"][cfg], text.as_bytes());
            }
            let l = Line { bin, name: "app", target: f, ..Default::default() };
            let dir = match f.or(cf) {
                Some(t) => format!("proj/target/{}/release", t),
                None => "proj/target/release".into(),
            };
            write_program(w, &dir, &l);
            let (r, calls, _) = start(w, &l, if sub { "proj/src" } else { "proj" }, &[]);
            judge_graph(&l, thumb, &r)?;
            judge_command(w, &l, bare, &calls)?;
            for c in calls.iter().filter(|c| c.prog == "rustc" && c.args.iter().any(|a| a.contains("cfg"))) {
                let mut t = None;
                for i in 0..c.args.len() {
                    let mut j = i;
                    if let Some(x) = takes(&c.args, &mut j, "--target") {
                        t = Some(x)
                    }
                }
                ensure!(t.as_deref() == Some(eff), "cfg-target", "rustc is asked about {:?}, the target is {}", t, eff);
            }
            for c in &calls {
                if c.prog == "cargo" {
                    ensure!(c.cwd == fs::canonicalize(w.path(if sub { "proj/src" } else { "proj" })).unwrap().display().to_string(), "cwd", "the build runs in {}", c.cwd);
                }
            }
            Ok(format!("{} {} {}", eff, thumb, bare))
        },
    );
    // one of the files the artifact is built from is touched before the build
    const FILES: &[&str] = &["src/main.rs", "src/lib.rs", "examples/app.rs", "examples/app/main.rs", "src/bin/app.rs", "src/bin/app/main.rs", "src/other.rs", "src/deep/er/x.rs", "top.rs"];
    ctx.explore(
        "touch",
        0,
        |c| {
            let mask = c.pick(1 << FILES.len());
            let bin = c.flag();
            let sub = c.flag();
            // a package has some source
            if mask == 0 || (!ctx.thorough && sub && mask % 3 != 0) {
                return None;
            }
            Some((mask, bin, sub))
        },
        |w, &(mask, bin, sub)| {
            w.reset();
            let _ = fs::remove_dir_all(w.path("proj/src"));
            let has = |f: &str| mask >> FILES.iter().position(|x| *x == f).unwrap() & 1 == 1;
            let old = SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000);
            let mut probe = vec![];
            for f in FILES.iter().filter(|f| has(f)) {
                let rel = format!("proj/{}", f);
                w.put(&rel, b"// source\n");
                fs::File::options().write(true).open(w.path(&rel)).unwrap().set_modified(old).unwrap();
                probe.push(*f);
            }
            // from which of them is the artifact built?
            let lib: &[&str] = if has("src/lib.rs") { &["src/lib.rs"] } else { &[] };
            let own: Vec<&str> = if bin { vec!["src/bin/app.rs", "src/bin/app/main.rs"] } else { vec!["examples/app.rs", "examples/app/main.rs"] }.into_iter().filter(|f| has(f)).collect();
            let deps: Vec<&str> = if !own.is_empty() {
                own.iter().chain(lib).copied().collect()
            } else if bin && has("src/main.rs") {
                lib.iter().copied().chain(["src/main.rs"]).collect()
            } else if has("src/main.rs") || has("src/lib.rs") || FILES.iter().any(|f| f.starts_with("src/") && has(f)) {
                // custom paths: any file of src/
                FILES.iter().filter(|f| f.starts_with("src/") && has(f)).copied().collect()
            } else {
                FILES.iter().filter(|f| has(f)).copied().collect()
            };
            let l = Line { bin, name: "app", target: Some("thumbv7m-none-eabi"), ..Default::default() };
            write_program(w, "proj/target/thumbv7m-none-eabi/release", &l);
            fs::create_dir_all(w.path("proj/data/x")).unwrap();
            let paths: Vec<String> = probe.iter().map(|f| w.path(&format!("proj/{}", f)).display().to_string()).collect();
            let (r, calls, t0) = start(w, &l, if sub { "proj/data/x" } else { "proj" }, &paths);
            judge_graph(&l, true, &r)?;
            judge_command(w, &l, true, &calls)?;
            let c = calls.iter().find(|c| c.prog == "cargo").unwrap();
            let t0 = t0.duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs() as i64;
            let touched: Vec<&str> = probe.iter().zip(&c.probe).filter(|(_, t)| **t >= t0).map(|(f, _)| *f).collect();
            ensure!(touched.iter().any(|f| deps.contains(f)), "touch", "the package has {:?}; {:?} were touched before the build of the {}, which depends on {:?}", probe, touched, if bin { "binary" } else { "example" }, deps);
            for f in &probe {
                ensure!(fs::read(w.path(&format!("proj/{}", f))).map(|d| d == b"// source\n").unwrap_or(false), "contents", "{} was changed", f);
            }
            for f in FILES.iter().filter(|f| !has(f)) {
                ensure!(!w.path(&format!("proj/{}", f)).exists(), "contents", "{} was created", f);
            }
            Ok(format!("{:?}", touched))
        },
    );
    ctx.assume("a package whose sources lie in src/ at unconventional paths is rebuilt when any of them is touched");
}
