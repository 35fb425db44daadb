//! C26: the whole scratch tree (project, build products, home, temporary directory) is compared
//! before and after every run: the tool leaves everything as it was, but for the modification times
//! of the package's sources.
use super::c17::{self, Setup};
use super::c20;
use crate::ctx::{fail, Ctx, Exec};
use crate::ensure;
use crate::run::{Out, Run, Worker};
use crate::world::*;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs;
use std::os::unix::fs::{symlink, MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::time::{Duration, SystemTime};

#[derive(Clone, Debug, PartialEq)]
struct Entry {
    /// file, directory, symlink
    kind: char,
    mode: u32,
    owner: (u32, u32),
    data: Vec<u8>,
    link: PathBuf,
    mtime: (i64, i64),
}

type Tree = BTreeMap<PathBuf, Entry>;

/// what the stand-ins themselves write
const OURS: &[&str] = &["log"];

fn walk(root: &Path, dir: &Path, t: &mut Tree) {
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        let rel = p.strip_prefix(root).unwrap().to_path_buf();
        if OURS.iter().any(|o| Path::new(o) == rel) {
            continue;
        }
        let m = fs::symlink_metadata(&p).unwrap();
        let kind = if m.is_dir() {
            'd'
        } else if m.file_type().is_symlink() {
            'l'
        } else {
            'f'
        };
        let data = if kind == 'f' { fs::read(&p).unwrap_or_default() } else { vec![] };
        let link = if kind == 'l' { fs::read_link(&p).unwrap() } else { PathBuf::new() };
        t.insert(rel, Entry { kind, mode: m.mode(), owner: (m.uid(), m.gid()), data, link, mtime: (m.mtime(), m.mtime_nsec()) });
        if kind == 'd' {
            walk(root, &p, t);
        }
    }
}

fn tree(w: &Worker) -> Tree {
    let mut t = Tree::new();
    walk(&w.root, &w.root, &mut t);
    t
}

/// `sources`: the files whose modification time may change
fn unchanged(before: &Tree, after: &Tree, sources: &dyn Fn(&Path) -> bool) -> Exec {
    for (p, a) in after {
        match before.get(p) {
            None => return fail("created", format!("{:?} was created", p)),
            Some(b) => {
                if a.kind != b.kind || a.link != b.link {
                    return fail("replaced", format!("{:?} was replaced by something else", p));
                }
                if a.data != b.data {
                    return fail("contents", format!("the contents of {:?} were changed ({} bytes, now {})", p, b.data.len(), a.data.len()));
                }
                if a.mode != b.mode || a.owner != b.owner {
                    return fail("permissions", format!("the permissions of {:?} were changed from {:o} to {:o}", p, b.mode, a.mode));
                }
                // directories: nothing was created in or removed from them, not even for a while
                if a.mtime != b.mtime && !sources(p) {
                    return fail("touched", format!("the modification time of {:?} was changed", p));
                }
            }
        }
    }
    for p in before.keys() {
        if !after.contains_key(p) {
            return fail("removed", format!("{:?} was removed", p));
        }
    }
    Ok(String::new())
}

fn outcome(r: &Run) -> String {
    match &r.out {
        Out::Fail(c) => format!("fails {}", c),
        Out::Signal(s) => format!("signal {}", s),
        Out::Graph(_) => "graph".into(),
        Out::Text(_) => "text".into(),
        Out::Timeout => "timeout".into(),
    }
}

fn is_source(p: &Path) -> bool {
    p.starts_with("proj") && !p.starts_with("proj/target") && p.extension().map(|e| e == "rs").unwrap_or(false)
}

fn age(p: &Path, secs: u64) {
    if let Ok(f) = fs::File::options().write(true).open(p) {
        f.set_modified(SystemTime::UNIX_EPOCH + Duration::from_secs(secs)).unwrap();
    }
}

/// Makes the tree richer: temporary directory, home, build products, things that are not the tool's business.
fn furnish(w: &mut Worker) {
    for (f, d) in [
        ("tmp/keep", "x"),
        ("home/.cargo/config.toml", "# empty\n"),
        ("home/.cargo/registry/src/dep/src/lib.rs", "pub fn dep() {}\n"),
        ("proj/README.md", "# proj\n"),
        ("proj/Cargo.lock", "version = 3\n"),
        ("proj/.git/HEAD", "ref: refs/heads/main\n"),
        ("proj/src/notes.txt", "notes\n"),
        ("proj/src/x.rs.orig", "old\n"),
        ("proj/target/release/.fingerprint/a", "1\n"),
        ("other/src/main.rs", "fn main() {}\n"),
        ("other/Cargo.toml", "[package]\nname = \"other\"\nversion = \"0.1.0\"\n"),
    ] {
        w.put(f, d.as_bytes());
        age(&w.path(f), 1_000_000_000);
    }
}

const SOURCES: &[&str] = &["src/main.rs", "src/lib.rs", "examples/app.rs", "examples/app/main.rs", "src/bin/app.rs", "src/bin/app/main.rs", "src/deep/er/x.rs", "build.rs"];

/// what the sources are like
const KINDS: usize = 9;

fn source(w: &mut Worker, f: &str, kind: usize) {
    let rel = format!("proj/{}", f);
    let p = w.path(&rel);
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    let out = format!("other/linked/{}", f.replace('/', "_"));
    match kind {
        1 => {
            w.put(&rel, b"// read only\n");
            fs::set_permissions(&p, fs::Permissions::from_mode(0o444)).unwrap();
        }
        2 => {
            w.put(&out, b"// elsewhere\n");
            symlink(w.path(&out), &p).unwrap();
        }
        3 => symlink(w.path("other/nothing.rs"), &p).unwrap(),
        4 => {
            w.put(&out, b"// shared\n");
            fs::hard_link(w.path(&out), &p).unwrap();
        }
        5 => w.put(&rel, b""),
        6 => w.put(&rel, &vec![b'x'; 300_000]),
        7 => {
            w.put(&rel, b"// executable\r\n\xff\0");
            fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).unwrap();
        }
        8 => fs::create_dir_all(&p).unwrap(),
        _ => w.put(&rel, b"// source\n"),
    }
    age(&p, [1_000_000_000, 0, 4_000_000_000][f.len() % 3]);
}

fn setups() -> Vec<Setup> {
    [(Arch::V7, false), (Arch::A64, true), (Arch::A64, false), (Arch::V7, true)].iter().map(|&(arch, bin)| Setup { arch, bin, top: bin }).collect()
}

pub fn check(ctx: &Ctx) {
    let setups = setups();
    let setups = &setups;
    ctx.explore(
        "sources",
        0,
        |c| {
            let mask = c.pick(1 << SOURCES.len());
            let bin = c.flag();
            let kind = c.pick(KINDS);
            // the directory from which it is started
            let sub = if ctx.thorough { c.flag() } else { mask % 5 == 0 };
            // all of them of this kind, or only the first
            let all = if kind > 0 && (ctx.thorough || mask % 3 == 0) { c.flag() } else { true };
            Some((mask, bin, kind, sub, all))
        },
        |w, &(mask, bin, kind, sub, all)| {
            w.reset();
            let _ = fs::remove_dir_all(w.path("proj/src"));
            furnish(w);
            let s = Setup { arch: Arch::V7, bin, top: false };
            c17::install(w, s);
            let present: Vec<&str> = SOURCES.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| *x.1).collect();
            for (i, f) in present.iter().enumerate() {
                source(w, f, if all || i == 0 { kind } else { 0 });
            }
            fs::create_dir_all(w.path("proj/data/x")).unwrap();
            w.clear_log();
            let before = tree(w);
            let mut c = w.base_command(&c17::args(s));
            c.env("TMPDIR", w.path("tmp"));
            if sub {
                c.current_dir(w.path("proj/data/x"));
            }
            let r = w.exec(c);
            let after = tree(w);
            // sources that lie elsewhere and are linked into the package
            let linked = |p: &Path| p.starts_with("other/linked");
            unchanged(&before, &after, &|p| is_source(p) || linked(p))?;
            // (whether a link to nothing is acceptable is not judged)
            ensure!(r.graph().is_some() || kind == 3, "no-graph", "{}", r.brief());
            Ok(outcome(&r))
        },
    );
    let all = c17::faults();
    let all = &all;
    let faulty = |w: &mut Worker, s: Setup, fs: &[c17::F], dot: bool| {
        w.reset();
        furnish(w);
        c17::install(w, s);
        let mut x = c17::World { args: c17::args(s), dev_full: false, no_tools: false };
        if dot {
            x.args.push("-v".into());
        }
        for f in fs {
            if !c17::apply(w, s, *f, &mut x) {
                return Ok("n/a".into());
            }
        }
        w.clear_log();
        let before = tree(w);
        let mut c = c17::command(w, &x);
        c.env("TMPDIR", w.path("tmp"));
        let r = if x.dev_full { w.exec_with(c, Some(Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap()))) } else { w.exec(c) };
        let after = tree(w);
        unchanged(&before, &after, &is_source)?;
        Ok(outcome(&r))
    };
    ctx.explore("faults", 0, |c| Some((*c.of(setups), *c.of(all), c.flag())), |w, (s, f, v)| faulty(w, *s, &[*f], *v));
    if ctx.thorough {
        ctx.explore("two-faults", 0, |c| Some((setups[c.pick(2)], *c.of(all), *c.of(all))), |w, (s, f, g)| faulty(w, *s, &[*f, *g], false));
    }
    const LINES: &[&[&str]] = &[&[], &["-v"], &["--format", "top"], &["--format=dot"], &["main"], &["nowhere"], &["--features", "a b"], &["--all-features"], &["--help"], &["--version"], &["-h"], &["--", "main"], &["--nonsense"]];
    const ENV: &[(&str, &str)] = &[
        ("", ""),
        ("RUST_LOG", "trace"),
        ("RUST_BACKTRACE", "full"),
        ("XDG_CACHE_HOME", "tmp"),
        ("CARGO_HOME", "home/.cargo"),
        ("TEMP", "tmp"),
        ("CARGO_CALL_STACK_UNSPPORTED_NIGHTLY", "I won't open issues about unsupported toolchains"),
        ("RUSTC_WRAPPER", "other/wrapper"),
    ];
    ctx.explore(
        "settings",
        0,
        |c| {
            let s = *c.of(setups);
            let a = c.pick(LINES.len());
            let b = c.pick(LINES.len());
            let e = c.pick(ENV.len());
            let sub = c.flag();
            if b <= a && b > 0 {
                return None;
            }
            Some((s, a, b, e, sub))
        },
        |w, &(s, a, b, e, sub)| {
            w.reset();
            furnish(w);
            c17::install(w, s);
            let mut args = c17::args(s);
            args.truncate(4);
            if sub {
                args.insert(0, "call-stack".into());
            }
            args.extend(LINES[a].iter().chain(LINES[b]).map(|s| s.to_string()));
            w.clear_log();
            let before = tree(w);
            let mut c = w.base_command(&args);
            c.env("TMPDIR", w.path("tmp"));
            let (k, v) = ENV[e];
            if !k.is_empty() {
                c.env(k, if v.contains(' ') || !v.contains('/') && v != "tmp" { v.into() } else { w.path(v).into_os_string() });
            }
            let r = w.exec(c);
            let after = tree(w);
            unchanged(&before, &after, &is_source)?;
            Ok(outcome(&r))
        },
    );
    // a workspace: the sources of the other members are not the analyzed package's
    ctx.explore(
        "workspace",
        0,
        |c| {
            let mask = c.pick(8);
            let bin = c.flag();
            let start = c.pick(3);
            let nested = c.flag();
            Some((mask, bin, start, nested))
        },
        |w, &(mask, bin, start, nested)| {
            w.reset();
            let _ = fs::remove_dir_all(w.path("proj/src"));
            furnish(w);
            let s = Setup { arch: Arch::V7, bin, top: false };
            c17::install(w, s);
            w.put("proj/Cargo.toml", b"[workspace]\nmembers = [\"a\", \"b\"]\n");
            for m in ["a", "b"] {
                w.put(&format!("proj/{}/Cargo.toml", m), format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\n", m).as_bytes());
                for (i, f) in ["src/main.rs", "src/lib.rs", "examples/app.rs"].iter().enumerate() {
                    if mask >> i & 1 == 1 || (mask == 0 && i == 0) {
                        w.put(&format!("proj/{}/{}", m, f), b"// member\n");
                        age(&w.path(&format!("proj/{}/{}", m, f)), 1_000_000_000);
                    }
                }
            }
            let dir = ["proj/a", "proj/a/src", "proj/a/data"][start];
            fs::create_dir_all(w.path(dir)).unwrap();
            if nested {
                w.put("proj/a/vendor/dep/src/lib.rs", b"// vendored\n");
                w.put("proj/a/vendor/dep/Cargo.toml", b"[package]\nname = \"dep\"\nversion = \"0.1.0\"\n");
                age(&w.path("proj/a/vendor/dep/src/lib.rs"), 1_000_000_000);
            }
            w.clear_log();
            let before = tree(w);
            let mut c = w.base_command(&c17::args(s));
            c.env("TMPDIR", w.path("tmp")).current_dir(w.path(dir));
            let r = w.exec(c);
            let after = tree(w);
            // a package that has src/ has its sources there
            let vendored = mask == 4;
            unchanged(&before, &after, &|p| p.starts_with("proj/a") && is_source(p) && (vendored || !p.starts_with("proj/a/vendor")))?;
            Ok(outcome(&r))
        },
    );
    const WRAPPED: &[&[&str]] = &[
        &["-vV"],
        &["-", "--crate-name", "___", "--print=file-names", "--crate-type", "bin"],
        &["--crate-name", "app", "--edition=2021", "examples/app.rs", "--emit=llvm-ir,obj", "--out-dir", "@/proj/target/release/examples", "-C", "extra-filename=-0123"],
        &["--crate-name", "compiler_builtins", "@/home/.cargo/registry/src/dep/src/lib.rs", "--out-dir", "@/proj/target/release/deps", "-C", "extra-filename=-0123", "--emit=dep-info,metadata,link"],
        &["--crate-name", "compiler_builtins", "@/home/.cargo/registry/src/dep/src/lib.rs", "--out-dir", "@/nowhere/at/all", "-C", "extra-filename=-0123"],
        &["--crate-name", "core", "src/main.rs", "--extern", "compiler_builtins=@/cb/libcompiler_builtins.rlib"],
        &["--crate-name", "app", "src/main.rs", "--extern", "noprelude:compiler_builtins=@/cb/missing.rlib", "--out-dir", "@/proj/out"],
        &[],
    ];
    ctx.explore(
        "wrapper",
        0,
        |c| {
            let l = c.pick(WRAPPED.len());
            let rc = c.pick(3);
            let err = c.flag();
            let input = c.flag();
            Some((l, rc, err, input))
        },
        |w, &(l, rc, err, input)| {
            w.reset();
            furnish(w);
            c17::install(w, setups[0]);
            let root = w.root.display().to_string();
            let args: Vec<OsString> = WRAPPED[l].iter().map(|a| a.replace("@/", &format!("{}/", root)).into()).collect();
            let a = c20::Answer { rc: ["0", "1", "s9"][rc].into(), out: b"out\n".to_vec(), err: if err { b"error: no\n".to_vec() } else { vec![] }, stdin: if input { Some(b"fn main() {}".to_vec()) } else { None } };
            // the stand-in's answers, as `wrap` writes them
            w.put("wrapped.rc", a.rc.as_bytes());
            w.put("wrapped.out", &a.out);
            w.put("wrapped.err", &a.err);
            if let Some(i) = &a.stdin {
                w.put("stdin", i);
            }
            w.clear_log();
            let before = tree(w);
            let r = c20::wrap(w, &args, &a);
            let after = tree(w);
            unchanged(&before, &after, &|_| false)?;
            Ok(outcome(&r))
        },
    );
    ctx.assume("observed: the project, its target directory, the home and temporary directories and everything else below the scratch directory; what the build itself writes is not the tool's doing");
}
