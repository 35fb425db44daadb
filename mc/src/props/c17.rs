//! C17: every single fault, every pair of faults and every truncation of every artifact.
use crate::ctx::{fail, Ctx, Exec};
use crate::elf;
use crate::ensure;
use crate::run::{version_text, Out, Run, Worker, HASH, HOST};
use crate::world::*;
use std::fs;
use std::process::{Command, Stdio};

#[derive(Clone, Copy, Debug, PartialEq)]
pub(super) enum F {
    // toolchain query
    VvCode(u8),
    VvText(usize),
    VvSignal,
    CfgCode(u8),
    CfgSignal,
    CfgText(usize),
    NoTools,
    // command line
    Args(usize),
    // project
    NoManifest,
    Manifest(usize),
    Config(usize),
    // build
    Exit(u8),
    Signal(u8),
    NoMarker(usize),
    BadMarker(usize),
    // artifacts: what is wrong with which of them
    Missing(usize),
    Dir(usize),
    Bad(usize, usize),
    // output
    DevFull,
}
use F::*;

const HASHES: &[&str] = &["unknown", "", "2b603f95a48f10f931a61dd208fe3e5ffd64e490", "2b603f95a", "2B603F95A48F10F931A61DD208FE3E5FFD64E491", "2b603f95a48f10f931a61dd208fe3e5ffd64e4910"];
const ARTIFACTS: &[&str] = &["exe", "obj", "ll", "cb.ll", "rlib"];

fn stage(f: F) -> u32 {
    match f {
        VvCode(_) | VvText(_) | VvSignal | NoTools => 0,
        Args(_) => 1,
        NoManifest | Manifest(_) | Config(_) => 2,
        CfgCode(_) | CfgSignal | CfgText(_) => 3,
        Exit(_) | Signal(_) => 4,
        NoMarker(_) | BadMarker(_) => 5,
        Missing(_) | Dir(_) | Bad(..) => 6,
        DevFull => 7,
    }
}

#[derive(Clone, Copy, Debug)]
pub(super) struct Setup {
    pub arch: Arch,
    pub bin: bool,
    pub top: bool,
}

fn prog(arch: Arch) -> Prog {
    let mut p = Prog::new(arch);
    let mk = |n: &str, s: u64, c: &[usize]| Fun::new(arch, n, Some(s)).calls(arch, c);
    p.funs.push(mk("main", 8, &[1, 2, 3]));
    p.funs.push(mk("f", 16, &[1]));
    p.funs.push(mk("g", 24, &[]));
    let mut cb = mk("cbfn", 32, &[]);
    cb.in_rlib = true;
    p.funs.push(cb);
    p.ll.push_str(&define("void", "main", "", &["call void @f()".into(), "call void @g(i8 1)".into(), "call void %p(i8 0)".into(), "call void @cbfn(i8 1)".into()]));
    p.ll.push_str(&void_fn("f", &["f"]));
    p.ll.push_str(&define("void", "g", "i8 %x", &[]));
    p.ll.push_str(&declare("void", "cbfn", "i8"));
    p.cb_ll.push_str(&define("void", "cbfn", "i8 %x", &[]));
    p
}

pub(super) fn rel(s: Setup, what: usize) -> String {
    let d = format!("proj/target/{}/release", s.arch.target());
    match (ARTIFACTS[what], s.bin) {
        ("exe", true) => format!("{}/app", d),
        ("exe", false) => format!("{}/examples/app", d),
        ("obj", true) => format!("{}/deps/app-0123456789abcdef.o", d),
        ("obj", false) => format!("{}/examples/app-0123456789abcdef.o", d),
        ("ll", true) => format!("{}/deps/app-0123456789abcdef.ll", d),
        ("ll", false) => format!("{}/examples/app-0123456789abcdef.ll", d),
        ("cb.ll", _) => "cb/cb.ll".into(),
        _ => "cb/libcompiler_builtins.rlib".into(),
    }
}

fn contents(s: Setup) -> Vec<Vec<u8>> {
    let mut p = prog(s.arch);
    let exe = p.exe();
    vec![exe, p.obj(), ir_file(&p.ll).into_bytes(), ir_file(&p.cb_ll).into_bytes(), p.rlib()]
}

pub(super) fn install(w: &mut Worker, s: Setup) {
    for (i, c) in contents(s).iter().enumerate() {
        w.put(&rel(s, i), c);
    }
}

pub(super) fn args(s: Setup) -> Vec<String> {
    let mut v: Vec<&str> = vec![if s.bin { "--bin" } else { "--example" }, "app", "--target", s.arch.target()];
    if s.top {
        v.extend(["--format", "top"]);
    }
    v.into_iter().map(String::from).collect()
}

/// variants of a broken artifact; None: no such variant
fn bad(what: usize, variant: usize, good: &[u8]) -> Option<Vec<u8>> {
    let name = ARTIFACTS[what];
    let v = match variant {
        0 => {
            // an empty IR file is a module without functions
            if name == "ll" || name == "cb.ll" {
                return None;
            }
            vec![]
        }
        1 => b"this is not what you are looking for\n".to_vec(),
        2 => {
            if name == "ll" || name == "cb.ll" {
                // not UTF-8
                let mut v = good.to_vec();
                v.extend(b"; caf\xe9\n");
                v
            } else {
                vec![0; good.len()]
            }
        }
        3 => {
            let mut v = good.to_vec();
            v[0] ^= 0x20;
            v
        }
        4 => match name {
            // stripped, or an object of another kind
            "exe" | "obj" => {
                let mut e = elf::Elf::new(good[4] == 2, u16::from_le_bytes([good[18], good[19]]), if name == "exe" { 2 } else { 1 });
                e.section(".text", elf::PROGBITS, 6, 0x8000, vec![0; 16]);
                let v = e.write();
                strip_symtab(v)
            }
            "ll" | "cb.ll" => {
                let t = String::from_utf8(good.to_vec()).unwrap();
                t.replacen("define void", "define vo!d", 1).into_bytes()
            }
            _ => elf::ar(&[("compiler_builtins-0.o", b"junk".to_vec())]),
        },
        5 => match name {
            "obj" => return Some(contents(Setup { arch: if good[4] == 2 { Arch::A64 } else { Arch::V7 }, bin: false, top: false })[0].clone()),
            "rlib" => elf::ar(&[("compiler_builtins-0.o", vec![])]),
            "ll" | "cb.ll" => {
                let t = String::from_utf8(good.to_vec()).unwrap();
                t.replacen("}\n", "\n", 1).into_bytes()
            }
            // machine code is only looked at on Thumb
            _ if good[4] == 1 => rename(good.to_vec(), b".text\0"),
            _ => return None,
        },
        _ => return None,
    };
    Some(v)
}

fn rename(mut v: Vec<u8>, section: &[u8]) -> Vec<u8> {
    let i = v.windows(section.len()).position(|w| w == section).unwrap();
    v[i + 1] = b'z';
    v
}

/// renames .symtab, so that nothing finds it
fn strip_symtab(mut v: Vec<u8>) -> Vec<u8> {
    if let Some(i) = v.windows(7).position(|w| w == b".symtab") {
        v[i + 1] = b'z';
        // and it is of no known type
        let is64 = v[4] == 2;
        let (shoff, shentsize, shnum) = if is64 {
            (u64::from_le_bytes(v[40..48].try_into().unwrap()) as usize, 64, u16::from_le_bytes([v[60], v[61]]))
        } else {
            (u32::from_le_bytes(v[32..36].try_into().unwrap()) as usize, 40, u16::from_le_bytes([v[48], v[49]]))
        };
        for k in 0..shnum as usize {
            let at = shoff + k * shentsize + 4;
            if v[at] == 2 {
                v[at] = 1;
            }
        }
    }
    v
}

const BAD_ARGS: &[&[&str]] = &[
    &[],
    &["--target", "thumbv7m-none-eabi"],
    &["--example", "app", "--bin", "app"],
    &["--example", "app", "--nonsense"],
    &["--example", "app", "--format", "svg"],
    &["--example"],
    &["--bin"],
    &["--example", "app", "--target"],
    &["--example", "app", "one", "two"],
    &["--example", "app", "--features"],
    &["--example", "app", "--format"],
    &["app"],
];
const BAD_VV: usize = 6;
const BAD_CFG: usize = 2;
const BAD_MANIFEST: &[&str] = &["[package\nname = 1", "[package]\nversion = \"1\"\n", "", "[package]\nname = 3\n", "\u{0}\u{1}", "[workspace]\nmembers = []\n"];
const BAD_CONFIG: &[&str] = &["[build\n", "[build]\ntarget = 3\n", "build = 3\n", "\u{0}"];

pub(super) struct World {
    pub args: Vec<String>,
    pub dev_full: bool,
    pub no_tools: bool,
}

/// false: this fault does not exist in this setup
pub(super) fn apply(w: &mut Worker, s: Setup, f: F, x: &mut World) -> bool {
    let hash_fault = |i: usize| version_text(HASHES[i], HOST);
    match f {
        VvCode(n) => w.put("rustc.vV.rc", n.to_string().as_bytes()),
        VvSignal => w.put("rustc.vV.rc", b"s9"),
        VvText(i) if i < HASHES.len() => w.put("rustc.vV", hash_fault(i).as_bytes()),
        VvText(i) => {
            let t = match i - HASHES.len() {
                0 => String::new(),
                1 => "rustc 1.76.0-nightly (2b603f95a 2023-11-12)\n".into(),
                2 => version_text(HASH, HOST).replace("host:", "hots:"),
                3 => version_text(HASH, HOST).replace("commit-hash:", "commit:"),
                4 => version_text(HASH, HOST).replace("release: 1.76.0-nightly", "release: soon"),
                _ => {
                    w.put("rustc.vV", b"rustc \xff\xfe\n");
                    return true;
                }
            };
            w.put("rustc.vV", t.as_bytes())
        }
        CfgCode(n) => w.put("rustc.cfg.rc", n.to_string().as_bytes()),
        CfgSignal => w.put("rustc.cfg.rc", b"s9"),
        CfgText(0) => w.put("rustc.cfg", b"target_os=\"\xff\"\n"),
        CfgText(_) => {
            // fails and says nothing
            w.put("rustc.cfg", b"");
            w.put("rustc.cfg.rc", b"1");
        }
        NoTools => x.no_tools = true,
        Args(i) => x.args = BAD_ARGS[i].iter().map(|s| s.to_string()).collect(),
        NoManifest => w.forget("proj/Cargo.toml"),
        Manifest(i) => w.put("proj/Cargo.toml", BAD_MANIFEST[i].as_bytes()),
        Config(i) => w.put(if i % 2 == 0 { "proj/.cargo/config.toml" } else { "proj/.cargo/config" }, BAD_CONFIG[i].as_bytes()),
        Exit(n) => w.put("cargo.rc", n.to_string().as_bytes()),
        Signal(n) => w.put("cargo.rc", format!("s{}", n).as_bytes()),
        NoMarker(i) => {
            let t: Vec<String> = w.markers().lines().filter(|l| !(l.starts_with('@') && (i == 2 || l.contains(["_ll_path", "_rlib_path"][i])))).map(String::from).collect();
            w.put("cargo.err", t.join("\n").as_bytes())
        }
        BadMarker(i) => {
            let t = w.markers().replace(["cb.ll", "libcompiler_builtins.rlib"][i], "nothing");
            w.put("cargo.err", t.as_bytes())
        }
        Missing(i) => w.forget(&rel(s, i)),
        Dir(i) => {
            w.forget(&rel(s, i));
            fs::create_dir_all(w.path(&rel(s, i))).unwrap();
        }
        Bad(i, v) => match bad(i, v, &contents(s)[i]) {
            Some(d) => w.put(&rel(s, i), &d),
            None => return false,
        },
        DevFull => x.dev_full = true,
    }
    true
}

pub(super) fn command(w: &Worker, x: &World) -> Command {
    let mut c = w.base_command(&x.args);
    if x.no_tools {
        c.env("PATH", w.root.join("home"));
    }
    c
}

fn graph_like(out: &[u8]) -> bool {
    let t = String::from_utf8_lossy(out);
    t.contains("digraph") || t.contains(" MAX")
}

fn run(w: &mut Worker, s: Setup, fs: &[F]) -> Exec {
    w.reset();
    install(w, s);
    let mut x = World { args: args(s), dev_full: false, no_tools: false };
    for f in fs {
        if !apply(w, s, *f, &mut x) {
            return Ok("n/a".into());
        }
    }
    let first = *fs.iter().min_by_key(|f| stage(**f)).unwrap();
    let c = command(w, &x);
    let r = if x.dev_full { w.exec_with(c, Some(Stdio::from(fs::OpenOptions::new().write(true).open("/dev/full").unwrap()))) } else { w.exec(c) };
    let code = match r.out {
        Out::Fail(c) => c,
        Out::Signal(_) => -1,
        _ => return fail(format!("{:?}", first), format!("with {:?}: {}", fs, r.brief())),
    };
    ensure!(!graph_like(&r.stdout), format!("{:?}", first), "a graph is printed in spite of {:?}", fs);
    if let Exit(n) = first {
        ensure!(code == n as i32, "exit-code", "the build exits with {}, the tool with {}: {:?}", n, code, fs);
    }
    if code == -1 {
        return fail("signal", format!("with {:?}: {}", fs, r.brief()));
    }
    Ok(format!("{:?} {}", first, code))
}

fn reference(w: &mut Worker, s: Setup) -> Run {
    w.reset();
    install(w, s);
    let c = w.base_command(&args(s));
    w.exec(c)
}

fn same(a: &Run, b: &Run) -> bool {
    match (&a.out, &b.out) {
        (Out::Graph(g), Out::Graph(h)) => g.canon() == h.canon(),
        (Out::Text(a), Out::Text(b)) => a == b,
        _ => false,
    }
}

pub(super) fn faults() -> Vec<F> {
    let mut v = vec![VvSignal, CfgSignal, NoTools, NoManifest, DevFull];
    v.extend([1, 2, 101, 255].map(VvCode));
    v.extend((0..HASHES.len() + BAD_VV).map(VvText));
    v.extend([1, 2, 101, 255].map(CfgCode));
    v.extend((0..BAD_CFG).map(CfgText));
    v.extend((0..BAD_ARGS.len()).map(Args));
    v.extend((0..BAD_MANIFEST.len()).map(Manifest));
    v.extend((0..BAD_CONFIG.len()).map(Config));
    v.extend([1, 2, 101, 128, 254, 255].map(Exit));
    v.extend([9, 15, 11, 6, 2].map(Signal));
    v.extend((0..3).map(NoMarker));
    v.extend((0..2).map(BadMarker));
    for i in 0..ARTIFACTS.len() {
        v.push(Missing(i));
        v.push(Dir(i));
        for k in 0..6 {
            v.push(Bad(i, k));
        }
    }
    v
}

/// ends of the members of an archive
fn members(ar: &[u8]) -> Vec<usize> {
    let mut at = 8;
    let mut v = vec![8];
    while at + 60 <= ar.len() {
        let size: usize = std::str::from_utf8(&ar[at + 48..at + 58]).unwrap().trim().parse().unwrap();
        at += 60 + size;
        v.push(at);
        at += size % 2;
        v.push(at);
    }
    v
}

/// the graph of the items that are complete in a prefix of the IR, per prefix length
fn item_ends(ll: &str) -> Vec<usize> {
    let mut ends = vec![0];
    let mut at = 0;
    let mut inside = false;
    for l in ll.split_inclusive('\n') {
        at += l.len();
        if l.starts_with("define") {
            inside = true;
        }
        if l.trim_end() == "}" && inside {
            inside = false;
        }
        if !inside {
            ends.push(at);
        }
    }
    ends
}

pub fn check(ctx: &Ctx) {
    let all = faults();
    let all = &all;
    let setups: Vec<Setup> = [Arch::V7, Arch::A64, Arch::V6].iter().flat_map(|&arch| [false, true].into_iter().flat_map(move |bin| [false, true].into_iter().map(move |top| Setup { arch, bin, top }))).collect();
    let setups = &setups;
    // without faults there is a graph, else nothing below means anything
    ctx.explore(
        "none",
        0,
        |c| Some(*c.of(setups)),
        |w, s| {
            let r = reference(w, *s);
            match (&r.out, s.top) {
                (Out::Graph(g), false) => ensure!(g.nodes.len() == 6 - 1, "reference", "{}", r.brief()),
                (Out::Text(t), true) => ensure!(t.lines().count() == 7, "reference", "{}", r.brief()),
                _ => return fail("reference", r.brief()),
            }
            Ok(r.brief())
        },
    );
    ctx.explore("single", 0, |c| Some((*c.of(setups), *c.of(all))), |w, (s, f)| run(w, *s, &[*f]));
    ctx.explore("exit-codes", 0, |c| Some((setups[c.pick(4)], 1 + c.pick(255) as u8)), |w, (s, n)| run(w, *s, &[Exit(*n)]));
    ctx.explore("exit-signals", 0, |c| Some((setups[c.pick(4)], *c.of(&[1u8, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 24, 25, 31]))), |w, (s, n)| run(w, *s, &[Signal(*n)]));
    ctx.explore(
        "pairs",
        0,
        |c| {
            let a = *c.of(all);
            let b = *c.of(all);
            if stage(a) >= stage(b) {
                return None;
            }
            Some((setups[if ctx.thorough { c.pick(4) } else { 0 }], a, b))
        },
        |w, (s, a, b)| run(w, *s, &[*a, *b]),
    );
    if ctx.thorough {
        ctx.explore(
            "triples",
            0,
            |c| {
                let a = *c.of(all);
                let b = *c.of(all);
                if stage(a) >= stage(b) {
                    return None;
                }
                let d = *c.of(all);
                if stage(b) >= stage(d) {
                    return None;
                }
                Some((setups[4], a, b, d))
            },
            |w, (s, a, b, d)| run(w, *s, &[*a, *b, *d]),
        );
    }
    // every truncation of every artifact
    for (si, &s) in setups.iter().enumerate().filter(|(_, s)| !s.top && (ctx.thorough || !s.bin)) {
        let good = contents(s);
        for what in [0usize, 1, 4] {
            let g = &good[what];
            ctx.explore(
                &format!("cut-{}-{}", ARTIFACTS[what], si),
                0,
                |c| Some(c.pick(g.len())),
                |w, &n| {
                    install(w, s);
                    w.put(&rel(s, what), &g[..n]);
                    let c = w.base_command(&args(s));
                    let r = w.exec(c);
                    w.put(&rel(s, what), g);
                    match &r.out {
                        Out::Fail(c) => {
                            ensure!(!graph_like(&r.stdout), "cut", "a graph is printed although {} is cut at {}", ARTIFACTS[what], n);
                            Ok(format!("fails {}", c))
                        }
                        // bytes that do not matter
                        Out::Graph(_) => {
                            if what == 4 && members(g).contains(&n) {
                                return Ok("an archive with fewer members".into());
                            }
                            let c = w.base_command(&args(s));
                            let full = w.exec(c);
                            ensure!(same(&r, &full), "cut", "{} of {} bytes of the {} are left: {} (complete: {})", n, g.len(), ARTIFACTS[what], r.brief(), full.brief());
                            Ok("the same graph".into())
                        }
                        _ => fail("cut", format!("{} of {} bytes of the {} are left: {}", n, g.len(), ARTIFACTS[what], r.brief())),
                    }
                },
            );
        }
        // IR is a list of items: what is left of it counts, provided that no function is cut
        for what in [2usize, 3] {
            let g = &good[what];
            let text = std::str::from_utf8(g).unwrap();
            let ends = &item_ends(text);
            ctx.explore(
                &format!("cut-{}-{}", ARTIFACTS[what], si),
                0,
                |c| Some(c.pick(g.len())),
                |w, &n| {
                    install(w, s);
                    w.put(&rel(s, what), &g[..n]);
                    let c = w.base_command(&args(s));
                    let r = w.exec(c);
                    let ok = match &r.out {
                        Out::Fail(c) => {
                            ensure!(!graph_like(&r.stdout), "cut", "a graph is printed although {} is cut at {}", ARTIFACTS[what], n);
                            Ok(format!("fails {}", c))
                        }
                        Out::Graph(_) => {
                            let before = *ends.iter().rev().find(|e| **e <= n).unwrap();
                            let after = *ends.iter().find(|e| **e >= n).unwrap_or(&g.len());
                            // the last line feed of an item does not matter
                            let is_define = text[before..].starts_with("define") && n + 1 < after;
                            let mut fits = false;
                            for k in if is_define { vec![before] } else { vec![before, after] } {
                                w.put(&rel(s, what), &g[..k]);
                                let c = w.base_command(&args(s));
                                let full = w.exec(c);
                                fits |= same(&r, &full);
                            }
                            if is_define && n > before {
                                fits = false;
                            }
                            if fits {
                                Ok("the graph of the complete items".into())
                            } else {
                                fail("cut", format!("{} of {} bytes of the {} are left: {}", n, g.len(), ARTIFACTS[what], r.brief()))
                            }
                        }
                        _ => fail("cut", format!("{} of {} bytes of the {} are left: {}", n, g.len(), ARTIFACTS[what], r.brief())),
                    };
                    w.put(&rel(s, what), g);
                    ok
                },
            );
        }
    }
    // what does not count as failure: the graph is that of the artifacts of this build
    ctx.explore(
        "benign",
        0,
        |c| {
            let s = setups[c.pick(8)];
            // noise of the build
            let noise = c.pick(8);
            // artifacts appear during the build: before, or after its last message
            let late = c.flag();
            // bit mask: which artifacts of an older build are in the way
            let stale = c.pick(32);
            // unsupported toolchain, but the user insists
            let insist = c.flag();
            if !ctx.thorough && ((stale & (stale.wrapping_sub(1)) != 0 && stale != 31) || (insist && noise > 1) || (late && noise > 2)) {
                return None;
            }
            Some((s, noise, late, stale, insist))
        },
        |w, &(s, noise, late, stale, insist)| {
            let want = reference(w, s);
            w.reset();
            let good = contents(s);
            let mut act = String::new();
            let old = {
                let mut p = prog(s.arch);
                p.funs[2].stack = Some(64);
                p.funs[2].ops = body(s.arch, 64, &[1]);
                p.funs[3].stack = Some(128);
                let old = vec![p.exe(), p.obj(), ir_file("define void @main() {\n  ret void\n}\n").into_bytes(), ir_file("").into_bytes(), p.rlib()];
                old
            };
            for i in 0..good.len() {
                if stale >> i & 1 == 1 {
                    w.put(&rel(s, i), &old[i]);
                } else {
                    // the directory exists
                    w.put(&rel(s, i), b"");
                    w.forget(&rel(s, i));
                }
                w.put(&format!("new/{}", i), &good[i]);
                act.push_str(&format!("mv\t{}\t{}\n", w.path(&format!("new/{}", i)).display(), w.path(&rel(s, i)).display()));
            }
            w.put("cargo.act", act.as_bytes());
            if late {
                w.put("cargo.late", b"");
            }
            let m = w.markers();
            let text = match noise {
                0 => m,
                1 => format!("warning: unused variable `x`\nerror: not really\n{}digraph {{\n", m),
                2 => format!("{}{}{}", "warning: w\u{e9}ird\n".repeat(20000), m, "note: done\n".repeat(20000)),
                3 => format!("\n\n{}\n\n", m),
                4 => m.trim_end().to_string(),
                5 => format!("{}{}", "x".repeat(300000), "\n") + &m,
                6 => format!("prefix @CARGO_CALL_STACK:compiler_builtins_ll_path@/nowhere\n@CARGO_CALL_STACK:something@/else\n{}", m),
                _ => m.replace('\n', "\r\n").replace("@\r\n", "@\n"),
            };
            if noise == 7 {
                // the paths themselves must be intact
                let t: String = w.markers().lines().map(|l| if l.starts_with('@') { format!("{}\n", l) } else { format!("\u{1b}[1m{}\u{1b}[0m\r\n", l) }).collect();
                w.put("cargo.err", t.as_bytes());
            } else {
                w.put("cargo.err", text.as_bytes());
            }
            let mut c = w.base_command(&args(s));
            if insist {
                w.put("rustc.vV", version_text(HASHES[0], HOST).as_bytes());
                c.env("CARGO_CALL_STACK_UNSPPORTED_NIGHTLY", "I won't open issues about unsupported toolchains");
            }
            let r = w.exec(c);
            ensure!(same(&r, &want), "benign", "{} instead of {}", r.brief(), want.brief());
            Ok(want.brief())
        },
    );
    // insisting halfheartedly does not count
    ctx.explore(
        "insist",
        0,
        |c| {
            let h = c.pick(HASHES.len() + 1);
            Some((setups[c.pick(2)], h, c.pick(4)))
        },
        |w, &(s, h, v)| {
            let want = reference(w, s);
            let hash = if h == HASHES.len() { HASH } else { HASHES[h] };
            w.put("rustc.vV", version_text(hash, HOST).as_bytes());
            let mut c = w.base_command(&args(s));
            match v {
                0 => {}
                1 => {
                    c.env("CARGO_CALL_STACK_UNSPPORTED_NIGHTLY", "1");
                }
                2 => {
                    c.env("CARGO_CALL_STACK_UNSPPORTED_NIGHTLY", "");
                }
                _ => {
                    c.env("CARGO_CALL_STACK_UNSPPORTED_NIGHTLY", "I won't open issues about unsupported toolchains");
                }
            }
            let r = w.exec(c);
            if hash == HASH || (v == 3 && !hash.is_empty()) {
                ensure!(same(&r, &want), "insist", "{} instead of {}", r.brief(), want.brief());
            } else if v == 3 {
                // no hash at all: whatever
                ensure!(same(&r, &want) || r.failed(), "insist", "{}", r.brief());
            } else {
                ensure!(r.failed() && !graph_like(&r.stdout), "insist", "hash {:?}: {}", hash, r.brief());
            }
            Ok(r.brief())
        },
    );
    ctx.assume("faults of a stage that leave no trace (an artifact that lacks whole functions, a compiler that reports wrong numbers) cannot be noticed and are left out");
}
