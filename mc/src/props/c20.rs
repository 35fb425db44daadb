//! C20: every compiler command line of a grammar, run through the wrapper; the stand-in compiler
//! records what arrives.
use crate::ctx::{Ctx, Exec};
use crate::ensure;
use crate::run::{Out, Run, Worker};
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::process::{Command, Stdio};

/// an invocation of the compiler and what the wrapper has to tell about it
#[derive(Clone, Debug, Default)]
struct Line {
    args: Vec<OsString>,
    /// compiles something (as opposed to a query such as `-vV`)
    compiles: bool,
    /// the first argument is the compiler: what is run is another wrapper
    nested: bool,
    cb: bool,
    rlibs: Vec<String>,
    ll: Option<String>,
}

const RLIB: &str = "@CARGO_CALL_STACK:compiler_builtins_rlib_path@";
const LL: &str = "@CARGO_CALL_STACK:compiler_builtins_ll_path@";

pub(super) struct Answer {
    pub rc: String,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub stdin: Option<Vec<u8>>,
}

impl Default for Answer {
    fn default() -> Self {
        Answer { rc: "0".into(), out: vec![], err: vec![], stdin: None }
    }
}

pub(super) fn wrap(w: &mut Worker, args: &[OsString], a: &Answer) -> Run {
    w.clear_log();
    w.put("wrapped.rc", a.rc.as_bytes());
    w.put("wrapped.out", &a.out);
    w.put("wrapped.err", &a.err);
    let mut c: Command = w.base_command(&[]);
    c.arg(w.path("bin/realrustc")).args(args).env("CARGO_CALL_STACK_RUSTC_WRAPPER", "1").env("RUSTC_WRAPPER", &w.tools.tool);
    if let Some(i) = &a.stdin {
        w.put("stdin", i);
        c.env("MC_STDIN", "1").stdin(Stdio::from(std::fs::File::open(w.path("stdin")).unwrap()));
    }
    w.exec(c)
}

/// the arguments that were added, when the original ones are there unchanged and in order
fn additions(got: &[Vec<u8>], args: &[OsString]) -> Option<Vec<String>> {
    let mut rest = args.iter().peekable();
    let mut add = vec![];
    for g in got {
        if rest.peek().map(|a| a.as_bytes() == &g[..]).unwrap_or(false) {
            rest.next();
        } else {
            add.push(String::from_utf8_lossy(g).into_owned())
        }
    }
    if rest.peek().is_some() {
        None
    } else {
        Some(add)
    }
}

/// raw arguments of the only invocation in the log
fn raw_args(w: &Worker) -> Vec<Vec<u8>> {
    let d = std::fs::read(w.path("log")).unwrap_or_default();
    d.split(|c| *c == b'\n')
        .filter(|l| l.first() == Some(&b'A'))
        .map(|l| {
            let mut o = vec![];
            let mut it = l[1..].iter();
            while let Some(&c) = it.next() {
                if c == b'\\' {
                    match it.next() {
                        Some(b'n') => o.push(b'\n'),
                        Some(&x) => o.push(x),
                        None => {}
                    }
                } else {
                    o.push(c)
                }
            }
            o
        })
        .collect()
}

fn judge(w: &mut Worker, l: &Line, a: &Answer) -> Exec {
    let r = wrap(w, &l.args, a);
    let calls = w.log();
    ensure!(calls.len() == 1 && calls[0].prog == "realrustc", "runs", "the compiler ran {} times: {} {:?}", calls.len(), r.brief(), calls);
    let got = raw_args(w);
    let mut add = match additions(&got, &l.args) {
        Some(a) => a,
        None => return crate::ctx::fail("args", format!("the compiler got {:?}", calls[0].args)),
    };
    ensure!(!l.nested || got.first().map(|a| a.as_slice()) == l.args.first().map(|a| a.as_bytes()), "nested", "the workspace's wrapper expects the compiler first: {:?}", calls[0].args);
    let all = add.clone();
    let mut take = |x: &[&[&str]]| {
        for f in x {
            if let Some(i) = (0..add.len()).find(|i| add[*i..].iter().zip(*f).take_while(|(a, b)| a == *b).count() == f.len()) {
                add.drain(i..i + f.len());
                return true;
            }
        }
        false
    };
    let sizes = take(&[&["-Zemit-stack-sizes"], &["-Z", "emit-stack-sizes"], &["-Zemit-stack-sizes=yes"]]);
    let emit = take(&[&["--emit=llvm-ir"], &["--emit", "llvm-ir"]]);
    ensure!(add.is_empty(), "added", "{:?} were added", all);
    ensure!(sizes || !l.compiles, "stack-sizes", "stack sizes are not requested: {:?}", calls[0].args);
    ensure!(emit == l.cb, "llvm-ir", "LLVM IR is {}requested: {:?}", if emit { "" } else { "not " }, calls[0].args);
    ensure!(calls[0].cwd == std::fs::canonicalize(w.path("proj")).unwrap().display().to_string(), "cwd", "{}", calls[0].cwd);
    // exit status
    match a.rc.strip_prefix('s') {
        None => {
            let c = match &r.out {
                Out::Fail(c) => *c,
                Out::Signal(s) => 1000 + s,
                Out::Timeout => -1,
                _ => 0,
            };
            ensure!(c.to_string() == a.rc, "exit", "the compiler exits with {}, the wrapper with {}", a.rc, c);
        }
        Some(_) => ensure!(r.failed(), "signal", "the compiler is killed by a signal: {}", r.brief()),
    }
    // streams
    let mut out = a.stdin.clone().unwrap_or_default();
    out.extend_from_slice(&a.out);
    ensure!(r.stdout == out, "stdout", "{} bytes on standard output instead of {}", r.stdout.len(), out.len());
    let mut m: Vec<String> = l.rlibs.iter().map(|p| format!("{}{}\n", RLIB, p)).collect();
    m.extend(l.ll.iter().map(|p| format!("{}{}\n", LL, p)));
    let err = String::from_utf8_lossy(&a.err).into_owned();
    // the markers, in any order, and what the compiler prints, before or after
    let mut rest = r.stderr.clone();
    let mut left = m.clone();
    while let Some(i) = left.iter().position(|x| rest.starts_with(&x[..])) {
        rest = rest[left.remove(i).len()..].to_string();
    }
    ensure!(left.is_empty() && rest == err, "stderr", "expected the lines {:?} and {:?}: {:?}", m, err.chars().take(200).collect::<String>(), r.stderr.chars().take(1000).collect::<String>());
    Ok(format!("{:?} {:?} {}", all, m.len(), a.rc))
}

fn os(v: &[&str]) -> Vec<OsString> {
    v.iter().map(|s| s.into()).collect()
}

/// `--key value` or `--key=value`
fn opt(eq: bool, k: &str, v: &str) -> Vec<OsString> {
    if eq {
        vec![format!("{}={}", k, v).into()]
    } else {
        os(&[k, v])
    }
}

fn codegen(form: usize, v: &str) -> Vec<OsString> {
    match form {
        0 => os(&["-C", v]),
        _ => vec![format!("-C{}", v).into()],
    }
}

const PREFIXES: &[&str] = &["", "noprelude:", "priv:", "priv,noprelude:", "noprelude,nounused:", "nounused,noprelude,priv:", "force:"];
const PATHS: &[&str] = &["/t/deps/libcompiler_builtins-0a.rlib", "/t/a b/lib.rlib", "/t/a=b/lib.rlib", "/t/a:b/lib.rlib", "/t/ä/lib.rlib", "rel/lib.rlib", "/t/@x@/l.rlib"];
const NAMES: &[&str] = &["compiler_builtins", "app", "compiler_builtins2", "my_compiler_builtins", "build_script_build", "___", "core"];
/// unrelated arguments (groups)
const OTHER: &[&[&str]] = &[
    &["--cfg", "feature=\"compiler-builtins\""],
    &["--check-cfg", "cfg(feature, values(\"a\", \"b c\"))"],
    &["-L", "dependency=/t/deps"],
    &["-C", "link-arg=--extern"],
    &["-Clink-arg=extra-filename=no"],
    &["-C", "metadata=extra-filename"],
    &["-C", "linker=arm none"],
    &["-C", "opt-level=3"],
    &["-Copt-level=3"],
    &["--emit=dep-info,metadata,link"],
    &["--emit=llvm-ir,obj"],
    &["-Zemit-stack-sizes"],
    &["-Z", "force-unstable-if-unmarked"],
    &["--cap-lints", "allow"],
    &["", "-"],
    &["--cfg", "a b  c"],
    &["--cfg", "line\nfeed \\ back"],
    &["--cfg", "äöü €"],
    &["-W", "unused-extern-crates"],
    &["-C", "embed-bitcode=yes", "-C", "lto=fat"],
    &["-vV"],
    &["-l", "compiler_builtins"],
    &["--extern-html-root-url", "compiler_builtins=https://x"],
];

pub fn check(ctx: &Ctx) {
    // command lines
    ctx.explore(
        "lines",
        if ctx.thorough { 4 } else { 3 },
        |c| {
            let mut l = Line { compiles: true, ..Default::default() };
            let name = *c.of(NAMES);
            let mut groups: Vec<Vec<OsString>> = vec![];
            groups.push(opt(c.dev(2) == 1, "--crate-name", name));
            groups.push(os(&["--edition=2021", "src/lib.rs", "--error-format=json", "--crate-type", "lib"]));
            if let Some(i) = c.dev(OTHER.len() + 1).checked_sub(1) {
                groups.push(os(OTHER[i]))
            }
            let mut extra = String::new();
            let mut set_extra = |_c: &mut crate::explore::Chooser, groups: &mut Vec<Vec<OsString>>, v: &str, form: usize| {
                groups.push(codegen(form, &format!("extra-filename={}", v)));
                extra = v.into();
            };
            match c.dev(6) {
                0 => set_extra(c, &mut groups, "-0123456789abcdef", 0),
                1 => {}
                2 => set_extra(c, &mut groups, "-0123456789abcdef", 1),
                3 => {
                    // the last one counts
                    set_extra(c, &mut groups, "-1", 0);
                    set_extra(c, &mut groups, "-2", 1);
                }
                4 => set_extra(c, &mut groups, "", 0),
                _ => set_extra(c, &mut groups, "-a=b", 0),
            }
            let dir = *c.dev_of(&["/t/x/deps", "/t/a b/deps", "/t/a=b", "/ä/x", "/", "rel/deps"]);
            groups.push(opt(c.dev(2) == 1, "--out-dir", dir));
            let n = c.dev(4);
            for k in 0..n {
                let x = ["compiler_builtins", "core", "compiler_builtins2", "rustc_std_workspace_core", "xcompiler_builtins"][c.dev(5)];
                let p = PREFIXES[c.dev(PREFIXES.len())];
                let path = match c.dev(PATHS.len() + 1) {
                    0 => Some(PATHS[(k % 2) * 4]),
                    1 => None,
                    i => Some(PATHS[i - 1]),
                };
                let v = match path {
                    Some(f) => format!("{}{}={}", p, x, f),
                    None => format!("{}{}", p, x),
                };
                groups.push(opt(c.dev(2) == 1, "--extern", &v));
                if x == "compiler_builtins" {
                    l.rlibs.extend(path.map(String::from))
                }
            }
            match c.dev(3) {
                1 => {
                    groups.reverse();
                    // the reports follow the command line
                    l.rlibs.reverse();
                }
                2 => groups.rotate_left(3),
                _ => {}
            }
            if let Some(g) = groups.iter().rev().filter_map(|g| g.last()?.to_str()).find(|g| g.contains("extra-filename=-") && !g.contains("no")) {
                extra = g[g.find('=').unwrap() + 1..].to_string();
            }
            l.args = groups.concat();
            // what is run is the wrapper of the workspace, which is given the compiler
            if let Some(i) = c.dev(4).checked_sub(1) {
                l.nested = true;
                l.args.insert(0, ["/usr/bin/rustc", "rustc", "/t/a b/clippy-driver"][i].into());
            }
            if name == "compiler_builtins" {
                l.cb = true;
                l.ll = Some(format!("{}/{}{}.ll", dir, name, extra));
            }
            Some(l)
        },
        |w, l| judge(w, l, &Answer::default()),
    );
    // many crates, and many options, before and after
    ctx.explore(
        "many",
        0,
        |c| {
            let most = if ctx.thorough { 300 } else { 140 };
            let n = c.pick(most + 3);
            let n = if n >= most { [1000, 1023, 1024][n - most] } else { n };
            let kind = c.pick(3);
            let before = c.flag();
            let two = c.flag();
            let cb = c.flag();
            let mut l = Line { compiles: true, ..Default::default() };
            let many: Vec<String> = (0..n)
                .flat_map(|k| match kind {
                    0 => vec!["--extern".to_string(), format!("noprelude:c{}=/t/libc{}.rlib", k, k)],
                    1 => vec!["-C".to_string(), format!("metadata=x{}", k)],
                    _ => vec![format!("-Ltarget/x{}", k)],
                })
                .collect();
            let name = if cb { "compiler_builtins" } else { "app" };
            let rlib = |k: usize| format!("/t/libcompiler_builtins-{}.rlib", k);
            let mut part = os(&["--crate-name", name, "--out-dir", "/t", "-C", "extra-filename=-77"]);
            for k in 0..1 + two as usize {
                part.extend(os(&["--extern", &format!("compiler_builtins={}", rlib(k))]));
                l.rlibs.push(rlib(k));
            }
            if before {
                l.args.extend(many.iter().map(Into::into));
                l.args.extend(part);
            } else {
                l.args.extend(part);
                l.args.extend(many.iter().map(Into::into));
            }
            if cb {
                l.cb = true;
                l.ll = Some("/t/compiler_builtins-77.ll".into());
            }
            Some(l)
        },
        |w, l| judge(w, l, &Answer::default()),
    );
    // sequences of unrelated arguments
    let n = if ctx.thorough { 3 } else { 2 };
    ctx.explore(
        "arguments",
        0,
        |c| {
            let mut l = Line { compiles: true, ..Default::default() };
            let k = c.pick(n + 1);
            let v: Vec<usize> = (0..k).map(|_| c.pick(OTHER.len())).collect();
            // where the name of the crate is
            let at = c.pick(k + 1);
            for i in 0..=k {
                if i == at {
                    l.args.extend(os(&["--crate-name", "app"]))
                }
                if i < k {
                    l.args.extend(os(OTHER[v[i]]))
                }
            }
            Some(l)
        },
        |w, l| judge(w, l, &Answer::default()),
    );
    // queries: no crate is compiled
    ctx.explore(
        "queries",
        0,
        |c| {
            let q: &[&[&str]] = &[
                &["-vV"],
                &["--version"],
                &["--version", "--verbose"],
                &["--print", "cfg"],
                &["--print=sysroot"],
                &["--print", "target-list"],
                &["-"],
                &["-", "--crate-name", "___", "--print=file-names", "--crate-type", "bin", "--print=cfg"],
                &["--crate-name=probe", "--crate-type=lib", "--emit=dep-info,metadata", "x.rs"],
                &["build/probe.rs", "--emit=metadata", "-o", "/dev/null"],
                &[],
                &["--help"],
                &["--explain", "E0308"],
                &["@args"],
            ];
            let mut l = Line { args: os(q[c.pick(q.len())]), ..Default::default() };
            match c.pick(4) {
                1 => l.args.push(OsString::from_vec(b"\xff\xfe.rs".to_vec())),
                2 => l.args.insert(0, OsString::from_vec(b"-Lx\x80y".to_vec())),
                3 => l.args.extend(os(&["--target", "thumbv7m-none-eabi"])),
                _ => {}
            }
            Some((l, c.flag(), c.pick(3)))
        },
        |w, (l, input, rc)| {
            let a = Answer { rc: ["0", "1", "101"][*rc].into(), stdin: if *input { Some(b"fn main() {}\n\0\xff".to_vec()) } else { None }, out: b"rustc 1\n".to_vec(), err: vec![] };
            judge(w, l, &a)
        },
    );
    // every exit status, and what the compiler prints
    ctx.explore(
        "status",
        0,
        |c| {
            let rc = c.pick(256 + 4);
            let cb = c.flag();
            let print = c.pick(if rc < 3 || ctx.thorough { 6 } else { 2 });
            Some((rc, cb, print))
        },
        |w, &(rc, cb, print)| {
            let rc = if rc < 256 { rc.to_string() } else { ["s9", "s6", "s15", "s11"][rc - 256].to_string() };
            let big: Vec<u8> = (0..300_000u32).map(|i| if i % 80 == 79 { b'\n' } else { b'a' + (i % 23) as u8 }).collect();
            let text: (Vec<u8>, Vec<u8>) = match print {
                0 => (vec![], vec![]),
                1 => (b"out\n".to_vec(), b"{\"message\":\"warning\"}\n".to_vec()),
                2 => (b"no line feed".to_vec(), b"error: \xc3\xa4".to_vec()),
                3 => (big.clone(), vec![]),
                4 => (vec![], big),
                _ => (b"\0\x01\xff\xfe".to_vec(), b"\n\n\r\x1b[0m".to_vec()),
            };
            let mut l = Line { compiles: true, cb, ..Default::default() };
            l.args = os(&["--crate-name", if cb { "compiler_builtins" } else { "app" }, "--out-dir", "/t", "--extern", "noprelude:compiler_builtins=/t/x.rlib"]);
            l.rlibs.push("/t/x.rlib".into());
            if cb {
                l.ll = Some("/t/compiler_builtins.ll".into());
            }
            judge(w, &l, &Answer { rc, out: text.0, err: text.1, stdin: None })
        },
    );
    // no compiler at the given place
    ctx.explore(
        "absent",
        0,
        |c| Some(c.pick(3)),
        |w, &k| {
            let p = w.path(["bin/nothing", "proj/Cargo.toml", "bin"][k]);
            let mut c = w.base_command(&[]);
            c.arg(&p).args(["--crate-name", "app"]).env("CARGO_CALL_STACK_RUSTC_WRAPPER", "1");
            let r = w.exec(c);
            ensure!(r.failed() && r.stdout.is_empty(), "absent", "{}", r.brief());
            Ok(r.brief())
        },
    );
    ctx.assume("compiler_builtins itself is always compiled with --out-dir, as Cargo does");
}
