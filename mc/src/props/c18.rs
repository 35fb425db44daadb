//! C18: histories of builds that leave artifacts behind, in every layout of project and target
//! directory; the analyzed artifacts must be those of the last build of the requested artifact.
use crate::ctx::{Ctx, Exec};
use crate::run::{cfg_text, Worker, HOST};
use crate::world::*;
use std::fs;
use std::time::{Duration, SystemTime};

const A: Arch = Arch::A64;

/// executable, object and IR of build number `k`; all three carry its number
fn artifacts(k: usize) -> [Vec<u8>; 3] {
    let mut p = Prog::new(A);
    let f = format!("f{}", k);
    p.funs.push(Fun::new(A, "main", Some(8 + 16 * k as u64)));
    p.funs.push(Fun::new(A, &f, Some(16 * k as u64)));
    p.ll.push_str(&void_fn(&f, &[]));
    p.ll.push_str(&void_fn("main", &[&f]));
    [p.exe(), p.obj(), ir_file(&p.ll).into_bytes()]
}

/// judges that the printed graph is the one of build `k`
fn judge(r: &crate::run::Run, k: usize, what: &str) -> Exec {
    let f = format!("f{}", k);
    let mut w = super::expect::Want::new();
    w.node("main", Some(8 + 16 * k as u64)).node(&f, Some(16 * k as u64)).edge("main", &f);
    match w.judge(r) {
        Ok(()) => Ok(format!("build {}", k)),
        Err(mut e) => {
            e.msg = format!("{} ({}; build {} is the one to analyze)", e.msg, what, k);
            Err(e)
        }
    }
}

fn set_time(p: &std::path::Path, t: SystemTime) {
    let f = fs::File::options().write(true).open(p).unwrap();
    f.set_modified(t).unwrap();
}

/// What one build leaves: kind of artifact, its name, its metadata hash.
#[derive(Clone, Copy, Debug, PartialEq)]
struct Build {
    bin: bool,
    name: &'static str,
    hash: &'static str,
}

fn files(b: Build) -> (String, String) {
    let krate = b.name.replace('-', "_");
    if b.bin {
        (b.name.to_string(), format!("deps/{}-{}", krate, b.hash))
    } else {
        (format!("examples/{}", b.name), format!("examples/{}-{}", krate, b.hash))
    }
}

#[derive(Clone, Debug)]
struct History {
    builds: Vec<Build>,
    /// time between builds
    step: Duration,
    base: usize,
    /// the last build is done by the run itself
    live: bool,
    /// file names of builds with the same hash are removed and created again
    recreate: bool,
    /// order in which the files are created (numbers of builds)
    created: Vec<usize>,
}

fn run_history(w: &mut Worker, h: &History) -> Exec {
    w.reset();
    w.put("cb/cb.ll", ir_file("").as_bytes());
    let rlib = Prog::new(A).rlib();
    w.put("cb/libcompiler_builtins.rlib", &rlib);
    let dir = format!("proj/target/{}/release", A.target());
    let base = [SystemTime::UNIX_EPOCH, SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000), SystemTime::now() + Duration::from_secs(864_000)][h.base];
    let last = *h.builds.last().unwrap();
    let mut act = String::new();
    let mut exes: std::collections::BTreeMap<String, usize> = Default::default();
    for &k in &h.created {
        let b = &h.builds[k];
        let (exe, stem) = files(*b);
        let a = artifacts(k + 1);
        let t = base + h.step * k as u32;
        let now = h.live && k + 1 == h.builds.len();
        for (i, rel) in [exe, format!("{}.o", stem), format!("{}.ll", stem)].iter().enumerate() {
            let rel = format!("{}/{}", dir, rel);
            if i == 0 {
                // all builds of an artifact share the executable: the last one stays
                let e = exes.entry(rel.clone()).or_insert(k);
                if *e > k {
                    continue;
                }
                *e = k;
            }
            if now {
                let src = format!("new/{}", i);
                w.put(&src, &a[i]);
                if !w.path(&rel).parent().unwrap().exists() {
                    fs::create_dir_all(w.path(&rel).parent().unwrap()).unwrap();
                }
                set_time(&w.path(&src), t);
                act.push_str(&format!("mv\t{}\t{}\n", w.path(&src).display(), w.path(&rel).display()));
            } else {
                if h.recreate {
                    w.forget(&rel);
                }
                w.put(&rel, &a[i]);
                set_time(&w.path(&rel), t);
            }
        }
    }
    w.put("cargo.act", act.as_bytes());
    let r = w.run(&[if last.bin { "--bin" } else { "--example" }, last.name, "--target", A.target()]);
    judge(&r, h.builds.len(), &format!("{:?}", h.builds))
}

const TARGETS: &[&str] = &["aarch64-unknown-none", "riscv32imac-unknown-none-elf"];

#[derive(Clone, Debug)]
struct Layout {
    bin: bool,
    name: &'static str,
    /// --target / configured target (index into TARGETS)
    flag: Option<usize>,
    conf: Option<usize>,
    /// where the target directory is
    tdir: usize,
    /// configuration file: name, and whether it is in the parent of the project
    cfg_toml: bool,
    cfg_parent: bool,
    workspace: usize,
    sub: bool,
    decoys: bool,
}

fn run_layout(w: &mut Worker, l: &Layout) -> Exec {
    w.reset();
    w.put("rustc.cfg", cfg_text(true, "aarch64").as_bytes());
    w.put("cb/cb.ll", ir_file("").as_bytes());
    let rlib = Prog::new(A).rlib();
    w.put("cb/libcompiler_builtins.rlib", &rlib);
    let root = w.path("").canonicalize().unwrap();
    let root = root.display().to_string();
    let root = root.trim_end_matches('/');
    // the package
    let pkg = match l.workspace {
        0 => "proj".to_string(),
        _ => "proj/member".to_string(),
    };
    if l.workspace > 0 {
        let members = ["", "member", "mem*", "other"][l.workspace];
        w.put("proj/Cargo.toml", format!("[workspace]\nmembers = [{:?}]\n", members).as_bytes());
        w.put("proj/member/Cargo.toml", b"[package]\nname = \"member\"\nversion = \"0.1.0\"\n");
        w.put("proj/member/src/main.rs", b"fn main() {}\n");
        w.put("proj/other/Cargo.toml", b"[package]\nname = \"other\"\nversion = \"0.1.0\"\n");
        w.put("proj/other/src/main.rs", b"fn main() {}\n");
    }
    let is_member = l.workspace == 1 || l.workspace == 2;
    let mut env = None;
    let mut conf = String::new();
    if let Some(t) = l.conf {
        conf.push_str(&format!("target = {:?}\n", TARGETS[t]));
    }
    let pkg_out = format!("{}/out", pkg);
    let cwd = if l.sub { format!("{}/src", pkg) } else { pkg.clone() };
    let eff = match l.tdir {
        0 => format!("{}/target", if is_member { "proj" } else { &pkg }),
        1 => {
            conf.push_str(&format!("target-dir = \"{}/abs/dir\"\n", root));
            "abs/dir".into()
        }
        2 => {
            conf.push_str("target-dir = \"out\"\n");
            pkg_out
        }
        3 => {
            env = Some(format!("{}/envdir", root));
            "envdir".into()
        }
        4 => {
            env = Some("rel".to_string());
            format!("{}/rel", cwd)
        }
        _ => {
            env = Some(format!("{}/envdir", root));
            conf.push_str(&format!("target-dir = \"{}/abs/dir\"\n", root));
            "envdir".into()
        }
    };
    let cfg_dir = if l.cfg_parent { ".cargo".to_string() } else { format!("{}/.cargo", pkg) };
    if !conf.is_empty() {
        w.put(&format!("{}/config{}", cfg_dir, if l.cfg_toml { ".toml" } else { "" }), format!("[build]\n{}", conf).as_bytes());
    }
    let target = l.flag.or(l.conf);
    let place = |dir: &str, t: Option<&str>, profile: &str, sub: &str| -> String {
        let mut d = dir.to_string();
        if let Some(t) = t {
            d = format!("{}/{}", d, t);
        }
        format!("{}/{}{}", d, profile, sub)
    };
    let (exe, stem) = files(Build { bin: l.bin, name: l.name, hash: "00000000000000aa" });
    let right = place(&eff, target.map(|t| TARGETS[t]), "release", "");
    let put = |w: &mut Worker, dir: &str, exe: &str, stem: &str, k: usize, age: u64| {
        let a = artifacts(k);
        for (i, rel) in [exe.to_string(), format!("{}.o", stem), format!("{}.ll", stem)].iter().enumerate() {
            let rel = format!("{}/{}", dir, rel);
            w.put(&rel, &a[i]);
            set_time(&w.path(&rel), SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000 - age));
        }
    };
    put(w, &right, &exe, &stem, 1, 100);
    if l.decoys {
        // the same artifact in all other places, all of it newer
        let mut k = 2;
        let dirs = ["proj/target".to_string(), format!("{}/target", pkg), "abs/dir".into(), format!("{}/out", pkg), format!("{}/out", cwd), "envdir".into(), format!("{}/rel", pkg), format!("{}/rel", cwd), "proj/out".into(), "target".into(), "out".into()];
        for d in &dirs {
            for t in [None, Some(TARGETS[0]), Some(TARGETS[1]), Some(HOST)] {
                for p in ["release", "debug"] {
                    let x = place(d, t, p, "");
                    if x != right {
                        put(w, &x, &exe, &stem, k, 0);
                        k += 1;
                    }
                }
            }
        }
        // the other kind of artifact of the same name
        let (e2, s2) = files(Build { bin: !l.bin, name: l.name, hash: "00000000000000bb" });
        put(w, &right, &e2, &s2, k, 0);
        // other artifacts, with names that have something in common
        for (j, n) in ["app-two", "ap", "apps", "app2", "my-app", "my", "app", "x-app", "my-app-two", "app-"].iter().enumerate() {
            if n.replace('-', "_") == l.name.replace('-', "_") {
                continue;
            }
            let (e2, s2) = files(Build { bin: l.bin, name: n, hash: "00000000000000cc" });
            put(w, &right, &e2, &s2, k + 1 + j, 0);
        }
        // other files of the same build
        for x in ["d", "bc", "ll.bak", "rmeta", "s", "lll", "l", "LL", "O", "ll~", "xll", "o.ll.tmp"] {
            let f = format!("{}/{}.{}", right, stem, x);
            w.put(&f, b"junk");
        }
        w.put(&format!("{}/{}", right, stem), b"junk");
        // an object without IR
        w.put(&format!("{}/{}.o", right, stem.replace("aa", "dd")), b"junk");
        // IR files deeper in the tree
        w.put(&format!("{}/{}/{}.ll", right, if l.bin { "deps/sub" } else { "examples/sub" }, l.name), b"junk");
    }
    let mut args = vec![if l.bin { "--bin" } else { "--example" }, l.name];
    if let Some(t) = l.flag {
        args.extend(["--target", TARGETS[t]]);
    }
    let args: Vec<String> = args.into_iter().map(String::from).collect();
    let mut c = w.base_command(&args);
    fs::create_dir_all(w.path(&cwd)).unwrap();
    c.current_dir(w.path(&cwd));
    if let Some(e) = env {
        c.env("CARGO_TARGET_DIR", e);
    }
    let r = w.exec(c);
    judge(&r, 1, &format!("expected in {}", right))
}

pub fn check(ctx: &Ctx) {
    let b = |bin, name, hash| Build { bin, name, hash };
    // alphabets of builds: two versions of the requested artifact, and others around them
    let alphabets: Vec<Vec<Build>> = vec![
        vec![b(false, "app", "1111111111111111"), b(false, "app", "9999999999999999"), b(false, "app-two", "5555555555555555"), b(true, "app", "4444444444444444")],
        vec![b(true, "app", "1111111111111111"), b(true, "app", "9999999999999999"), b(true, "app_two", "5555555555555555"), b(false, "app", "4444444444444444")],
        vec![b(false, "my-app", "1111111111111111"), b(false, "my-app", "ffffffffffffffff"), b(false, "my", "5555555555555555"), b(false, "my-app-x", "4444444444444444")],
        vec![b(true, "a-b-c", "1111111111111111"), b(true, "a-b-c", "ffffffffffffffff"), b(true, "a-b", "5555555555555555"), b(true, "a", "4444444444444444")],
    ];
    let alphabets = &alphabets;
    let max = if ctx.thorough { 5 } else { 4 };
    ctx.explore(
        "histories",
        0,
        |c| {
            let a = &alphabets[c.pick(alphabets.len())];
            let n = 1 + c.pick(max);
            let builds: Vec<Build> = (0..n).map(|_| *c.of(a)).collect();
            let variant = if ctx.thorough || n < 4 { c.pick(12) } else { c.pick(3) * 4 };
            Some(History {
                builds,
                step: [Duration::from_nanos(1), Duration::from_micros(1), Duration::from_millis(1), Duration::from_secs(1)][variant % 4],
                base: variant / 4,
                live: variant % 2 == 0,
                recreate: variant % 3 == 0,
                created: (0..n).collect(),
            })
        },
        run_history,
    );
    // many versions of one artifact, in all orders of age
    ctx.explore(
        "orders",
        0,
        |c| {
            let bin = c.flag();
            let mut left: Vec<&'static str> = vec!["0000000000000000", "1234567890abcdef", "7f7f7f7f7f7f7f7f", "abcdefabcdefabcd", "ffffffffffffffff"];
            // independent of that: the order in which the files are created, hence listed
            let independent = c.flag();
            if independent && !ctx.thorough {
                left.pop();
            }
            let n = left.len();
            let mut v = vec![];
            while !left.is_empty() {
                let i = c.pick(left.len());
                v.push(Build { bin, name: "app", hash: left.remove(i) });
            }
            let mut rest: Vec<usize> = (0..n).collect();
            let mut created = vec![];
            while !rest.is_empty() {
                let i = if independent { c.pick(rest.len()) } else { 0 };
                created.push(rest.remove(i));
            }
            Some(History { builds: v, step: Duration::from_nanos(1), base: 1, live: !independent && c.flag(), recreate: false, created })
        },
        run_history,
    );
    ctx.explore(
        "layouts",
        0,
        |c| {
            let l = Layout {
                bin: c.flag(),
                name: *c.of(&["app", "my-app", "a_b-c"]),
                flag: *c.of(&[None, Some(0), Some(1)]),
                conf: *c.of(&[None, Some(0), Some(1)]),
                tdir: c.pick(6),
                cfg_toml: c.flag(),
                cfg_parent: c.flag(),
                workspace: c.pick(4),
                sub: c.flag(),
                decoys: c.flag(),
            };
            // relative directories in configuration files: Cargo resolves them itself
            let no_conf = l.conf.is_none() && ![1, 2, 5].contains(&l.tdir);
            if (l.tdir == 2 && (l.sub || l.cfg_parent)) || (no_conf && (l.cfg_toml || l.cfg_parent)) {
                return None;
            }
            if !ctx.thorough {
                // names and decoys vary along with the rest
                let h = l.flag.map_or(0, |f| f + 1) + l.conf.map_or(0, |f| f + 1) + l.tdir + l.workspace + l.bin as usize;
                if l.name != ["app", "my-app", "a_b-c"][h % 3] || (!l.decoys && h % 4 != 0) || (l.decoys && (l.cfg_parent as usize + l.tdir + l.workspace) % 2 == 1) {
                    return None;
                }
            }
            Some(l)
        },
        run_layout,
    );
    ctx.assume("artifacts of different builds have different modification times");
    ctx.assume("relative target directories in configuration files are only used from the directory that contains .cargo; of several configuration files the nearest is complete");
}
