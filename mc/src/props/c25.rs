//! C25: what the build prints, whatever the logging settings, does not get lost and does not get
//! into the graph.
use super::c16::compare_top;
use super::expect::Want;
use crate::ctx::{fail, Ctx, Exec};
use crate::ensure;
use crate::run::{Run, Worker};
use crate::world::*;

const LINES: &[&str] = &[
    "@LL@",
    "@RLIB@",
    "   Compiling proj v0.1.0 (/x y/proj)",
    "",
    "\u{1b}[0m\u{1b}[1m\u{1b}[33mwarning\u{1b}[0m: unused `caf\u{e9} {} {0}` %s %n \\n",
    "digraph {",
    "note: see @CARGO_CALL_STACK:compiler_builtins_rlib_path@/not/at/the/start",
    "\tthread 'main' panicked at src/main.rs:1:1:   ",
    "   @CARGO_CALL_STACK:compiler_builtins_ll_path@/quoted/source/line.ll",
];

/// Every line that is no report stands on standard error: in this order, as often as it was printed.
fn forwarded(r: &Run, printed: &[String]) -> Exec {
    let got: Vec<&str> = r.stderr.split('\n').collect();
    let mut at = 0;
    for (i, l) in printed.iter().enumerate() {
        match got[at..].iter().position(|g| g == l) {
            Some(k) => at += k + 1,
            None => {
                return fail(
                    "lost",
                    format!("line {} of the build's messages ({:?}) is missing, garbled or out of order; messages {:?}, standard error {:?}", i, short(l), printed.iter().map(|l| short(l)).collect::<Vec<_>>(), short(&r.stderr)),
                )
            }
        }
    }
    for l in printed {
        if l.is_empty() {
            continue;
        }
        let a = printed.iter().filter(|x| *x == l).count();
        let b = got.iter().filter(|x| *x == l).count();
        ensure!(a == b, "repeated", "{:?} is printed {} times by the build and {} times by the tool", short(l), a, b);
    }
    Ok(String::new())
}

fn short(s: &str) -> String {
    s.chars().take(400).collect()
}

fn simple(arch: Arch) -> (Prog, Want) {
    let mut p = Prog::new(arch);
    p.funs.push(Fun::new(arch, "main", Some(8)).calls(arch, &[1]));
    p.funs.push(Fun::new(arch, "callee", Some(16)));
    p.ll = format!("{}{}", void_fn("main", &["callee"]), void_fn("callee", &[]));
    let mut w = Want::new();
    w.node("main", Some(8)).node("callee", Some(16));
    w.edge("main", "callee");
    (p, w)
}

/// Programs about which the tool has something to say.
fn noisy(kind: usize) -> (Prog, Want) {
    let arch = if kind == 3 { Arch::V7 } else { Arch::A64 };
    let (mut p, mut w) = simple(arch);
    match kind {
        0 => {}
        1 => {
            // no stack usage information at all
            for f in &mut p.funs {
                f.stack = None;
            }
            w.node("main", None).node("callee", None);
            w.edge("main", "callee");
        }
        2 => {
            // function pointers without candidates, untyped functions, intrinsics, inline assembly
            p.funs.push(Fun::new(arch, "blob", None));
            w.node("blob", None);
            p.ll = "define void @main() {\nstart:\n  call void asm sideeffect \"nop \\22x\\22\", \"~{memory}\"()\n  %0 = call i32 @llvm.bswap.i32(i32 1)\n  call void @callee()\n  call void %1(i64 4)\n  ret void\n}\n\n".into();
            p.ll.push_str(&void_fn("callee", &[]));
            w.dashed("void(i64)*");
            w.edge("main", "void(i64)*");
            w.edge("void(i64)*", "?");
        }
        _ => {
            // machine code with an indirect call
            p.funs.push(Fun::new(arch, "blob", None));
            p.funs[2].ops = vec![Op::Raw(vec![0x18, 0x47])];
            w.node("blob", Some(0));
            w.edge("blob", "?");
        }
    }
    (p, w)
}

fn build(w: &mut Worker, text: &str, rc: &str) {
    w.put("cargo.err", text.as_bytes());
    w.put("cargo.rc", rc.as_bytes());
}

pub fn check(ctx: &Ctx) {
    let max = if ctx.thorough { 5 } else { 4 };
    ctx.explore(
        "messages",
        0,
        |c| {
            let n = c.pick(max + 1);
            let seq: Vec<usize> = (0..n).map(|_| c.pick(LINES.len())).collect();
            let open = n > 0 && c.flag();
            let rc = c.pick(2);
            Some((seq, open, rc))
        },
        |w, (seq, open, rc)| {
            let (mut p, want) = simple(Arch::A64);
            p.install(w);
            let root = w.root.display().to_string();
            let lines: Vec<String> = seq
                .iter()
                .map(|i| {
                    LINES[*i]
                        .replace("@LL@", &format!("@CARGO_CALL_STACK:compiler_builtins_ll_path@{}/cb/cb.ll", root))
                        .replace("@RLIB@", &format!("@CARGO_CALL_STACK:compiler_builtins_rlib_path@{}/cb/libcompiler_builtins.rlib", root))
                })
                .collect();
            let mut text: String = lines.iter().map(|l| format!("{}\n", l)).collect();
            if *open {
                text.pop();
            }
            build(w, &text, ["0", "101"][*rc]);
            let r = w.run(&["--example", "app", "--target", Arch::A64.target()]);
            build(w, "", "0");
            // an empty line that is not terminated does not exist
            let mut printed: Vec<String> = lines.iter().enumerate().filter(|(i, l)| !(*open && *i + 1 == lines.len() && l.is_empty())).map(|x| x.1.clone()).collect();
            printed.retain(|l| !l.starts_with("@CARGO_CALL_STACK:"));
            forwarded(&r, &printed)?;
            if *rc != 0 {
                ensure!(matches!(r.out, crate::run::Out::Fail(101)) && r.stdout.is_empty(), "failed-build", "the build fails with 101: {}", r.brief());
            } else if seq.contains(&0) && seq.contains(&1) {
                want.judge(&r)?;
            } else {
                ensure!(r.failed() && r.stdout.is_empty(), "unreported", "compiler_builtins was not reported: {}", r.brief());
            }
            Ok(r.brief())
        },
    );
    ctx.explore(
        "volume",
        0,
        |c| {
            let n = *c.of(&[1usize, 2, 100, 5000]);
            let len = *c.of(&[0usize, 1, 79, 8191, 8192, 8193, 65535, 65536, 70000, 300000]);
            // where the reports stand: first, in the middle, last
            let at = c.pick(3);
            let rc = c.pick(2);
            if n * len > 2_000_000 {
                return None;
            }
            Some((n, len, at, rc))
        },
        |w, &(n, len, at, rc)| {
            let (mut p, want) = simple(Arch::A64);
            p.install(w);
            let lines: Vec<String> = (0..n).map(|i| format!("{}{}", i, "x".repeat(len))).collect();
            let marks: String = w.markers().lines().filter(|l| l.starts_with('@')).map(|l| format!("{}\n", l)).collect();
            let mut text = String::new();
            for (i, l) in lines.iter().enumerate() {
                if i == [0, n / 2, n][at] {
                    text.push_str(&marks);
                }
                text.push_str(l);
                text.push('\n');
            }
            if at == 2 {
                text.push_str(&marks);
            }
            build(w, &text, ["0", "101"][rc]);
            let r = w.run(&["--example", "app", "--target", Arch::A64.target()]);
            build(w, "", "0");
            let tail: Vec<&str> = r.stderr.lines().collect();
            ensure!(tail.iter().filter(|l| lines.contains(&l.to_string())).count() == n || n > 100, "lost", "{} messages of length {} are not forwarded one for one", n, len);
            let mut it = tail.iter();
            for l in &lines {
                ensure!(it.any(|t| t == l), "lost", "a message of {} with {} characters is lost or out of order: {:?}", n, len, short(l));
            }
            if rc == 0 {
                want.judge(&r)?;
            } else {
                ensure!(matches!(r.out, crate::run::Out::Fail(101)) && r.stdout.is_empty(), "failed-build", "the build fails with 101: {}", r.brief());
            }
            Ok(r.brief())
        },
    );
    const LOG: &[Option<&str>] =
        &[None, Some(""), Some("off"), Some("error"), Some("warn"), Some("info"), Some("debug"), Some("trace"), Some("cargo_call_stack=trace"), Some("cargo_call_stack=off,trace"), Some("no such=level=x"), Some("trace/core")];
    ctx.explore(
        "verbosity",
        0,
        |c| {
            let kind = c.pick(4);
            let log = *c.of(LOG);
            let style = *c.of(&[None, Some("always"), Some("never"), Some("rubbish")]);
            let verbose = c.flag();
            let top = c.flag();
            let start = *c.of(&[None, Some("main"), Some("nowhere")]);
            let bt = c.flag();
            Some((kind, log, style, verbose, top, start, bt))
        },
        |w, &(kind, log, style, verbose, top, start, bt)| {
            let (mut p, mut want) = noisy(kind);
            p.install(w);
            let m = w.markers();
            build(w, &m, "0");
            let mut args: Vec<String> = ["--example", "app", "--target", p.arch.target()].iter().map(|s| s.to_string()).collect();
            if verbose {
                args.push("-v".into());
            }
            if let Some(s) = start {
                args.push(s.into());
            }
            let go = |w: &mut Worker, args: &[String]| {
                let mut c = w.base_command(args);
                for (k, v) in [("RUST_LOG", log), ("RUST_LOG_STYLE", style), ("RUST_BACKTRACE", if bt { Some("full") } else { None })] {
                    if let Some(v) = v {
                        c.env(k, v);
                    }
                }
                w.exec(c)
            };
            let r = go(w, &args);
            if start == Some("main") {
                want.nodes.remove("blob");
            }
            want.judge(&r)?;
            let said: Vec<String> = m.lines().filter(|l| !l.starts_with('@')).map(|l| l.to_string()).collect();
            forwarded(&r, &said)?;
            if top {
                args.extend(["--format".into(), "top".into()]);
                let t = go(w, &args);
                compare_top(r.graph().unwrap(), &t)?;
                forwarded(&t, &said)?;
            }
            Ok(r.brief())
        },
    );
    ctx.assume("the build's messages are UTF-8 and end with line feeds (Cargo decodes what compilers print); what Cargo prints on standard output is not covered: `cargo rustc` prints nothing there");
}
