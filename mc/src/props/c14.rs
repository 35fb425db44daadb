//! C14: labels of all pairs and triples of functions over an alphabet of mangled, malformed and
//! plain names, linked in different ways.
use crate::ctx::{fail, Ctx, Exec};
use crate::ensure;
use crate::run::Worker;
use crate::world::*;

/// symbol, demangled, path (if the name ends in a legacy hash)
const NAMES: &[(&str, &str, Option<&str>)] = &[
    ("_ZN3app3foo17h0123456789abcdefE", "app::foo::h0123456789abcdef", Some("app::foo")),
    ("_ZN3app3foo17hfedcba9876543210E", "app::foo::hfedcba9876543210", Some("app::foo")),
    ("_ZN3app3bar17h0123456789abcdefE", "app::bar::h0123456789abcdef", Some("app::bar")),
    ("_ZN3app3foo3bar17h00000000000000ffE", "app::foo::bar::h00000000000000ff", Some("app::foo::bar")),
    ("app_foo", "app_foo", None),
    ("_ZN3app3fooE", "app::foo", None),
    ("_ZN3app3fooEv", "_ZN3app3fooEv", None),
    ("_RNvC3app3foo", "app[0]::foo", None),
    ("_RNvCs1234_3app3foo", "app[3c1c0]::foo", None),
    ("_ZN3app3foo17h0123456789abcdefE.llvm.12345678901234567890", "app::foo::h0123456789abcdef", Some("app::foo")),
    ("_ZN3foo17h0123456789abcdefE", "foo::h0123456789abcdef", Some("foo")),
    ("foo", "foo", None),
    ("_ZN17h0123456789abcdefE", "h0123456789abcdef", None),
    ("_ZN43_$LT$app..S$u20$as$u20$core..ops..Deref$GT$5deref17habcdefabcdefabcdE", "<app::S as core::ops::Deref>::deref::habcdefabcdefabcd", Some("<app::S as core::ops::Deref>::deref")),
    ("_ZN43_$LT$app..S$u20$as$u20$core..ops..Deref$GT$5deref17habcdefabcdefabceE", "<app::S as core::ops::Deref>::deref::habcdefabcdefabce", Some("<app::S as core::ops::Deref>::deref")),
    ("_ZN3app4main28_$u7b$$u7b$closure$u7d$$u7d$17h1111111111111111E", "app::main::{{closure}}::h1111111111111111", Some("app::main::{{closure}}")),
    ("_ZN3app3foo16h0123456789abcdeE", "app::foo::h0123456789abcde", None),
    ("_ZN3app3foo17hghijklmnopqrstuvE", "app::foo::hghijklmnopqrstuv", None),
    ("_ZN3app3foo17h0123456789abcdef17h0123456789abcdefE", "app::foo::h0123456789abcdef::h0123456789abcdef", Some("app::foo::h0123456789abcdef")),
    ("_ZN3app18handle_interrupts017h2222222222222222E", "app::handle_interrupts0::h2222222222222222", Some("app::handle_interrupts0")),
    ("_RNvC3app17handle_interrupts", "app[0]::handle_interrupts", None),
    ("_RNvC3app17hello_world_12345", "app[0]::hello_world_12345", None),
    ("_ZN3app3foo17h0123456789abcdef", "_ZN3app3foo17h0123456789abcdef", None),
    ("_ZN99app3foo17h0123456789abcdefE", "_ZN99app3foo17h0123456789abcdefE", None),
    ("_ZN", "_ZN", None),
    ("_R", "_R", None),
    ("_RNvC", "_RNvC", None),
    ("x\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}", "x\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}", None),
    ("\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}", "\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}", None),
    ("f", "f", None),
    ("::h0123456789abcdef", "::h0123456789abcdef", None),
    ("__aeabi_memcpy", "__aeabi_memcpy", None),
    ("_ZN1a17h0123456789abcdefE", "a::h0123456789abcdef", Some("a")),
    ("_ZN1a17h0123456789abcdeeE", "a::h0123456789abcdee", Some("a")),
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Defined,
    Undefined,
    UndefinedUncalled,
    Removed,
    /// two functions with this (local) symbol
    Twice,
    /// the symbol is a second name of a function called `q<i>`
    Versioned,
}
use St::*;

#[derive(Clone, Debug)]
struct Case {
    arch: Arch,
    fs: Vec<(usize, St)>,
    mode: usize,
}

fn run(w: &mut Worker, k: &Case) -> Exec {
    let mut p = Prog::new(k.arch);
    let mut calls = vec![];
    let mut all: Vec<(usize, bool)> = vec![]; // functions of the linked program: name, has a node
    let mut dupobj = vec![];
    for (i, &(n, s)) in k.fs.iter().enumerate() {
        let name = NAMES[n].0;
        match s {
            Defined | Twice => {
                for _ in 0..if s == Twice { 2 } else { 1 } {
                    let mut f = Fun::new(k.arch, name, Some(8 * (i as u64 + 1)));
                    if s == Twice {
                        f.stack = None;
                        f.obj_names.clear();
                        dupobj.push(p.funs.len());
                    }
                    p.funs.push(f);
                    all.push((n, true));
                }
                if s == Defined {
                    p.ll.push_str(&void_fn(&ir_name(name), &[]));
                    calls.push(name);
                }
            }
            Removed => p.ll.push_str(&void_fn(&ir_name(name), &[])),
            Undefined | UndefinedUncalled | Versioned => {
                p.undef.push(if s == Versioned { format!("{}{}V1_2.0", name, if n % 2 == 0 { "@@" } else { "@" }) } else { name.to_string() });
                p.ll.push_str(&declare("void", &ir_name(name), ""));
                if s != UndefinedUncalled {
                    calls.push(name);
                }
                all.push((n, s != UndefinedUncalled));
            }
        }
    }
    let m = p.funs.len();
    p.funs.push(Fun::new(k.arch, "main", Some(8)));
    if k.arch.thumb() {
        p.funs[m].ops = body(k.arch, 8, &(0..m).collect::<Vec<_>>());
    }
    p.ll.push_str(&void_fn("main", &calls.iter().map(|c| ir_name(c)).collect::<Vec<_>>().iter().map(|s| &s[..]).collect::<Vec<_>>()));
    p.obj_order = Some((0..p.funs.len()).filter(|i| !dupobj.contains(i)).collect());
    let path = |n: usize| NAMES[n].2.unwrap_or(NAMES[n].1);
    let mut want: Vec<String> = vec!["main".into()];
    for (i, &(n, node)) in all.iter().enumerate() {
        // on other targets only what main calls by name is below it
        if !node || (k.mode == 1 && !k.arch.thumb() && k.fs.iter().any(|f| f.0 == n && f.1 == Twice)) {
            continue;
        }
        let amb = all.iter().enumerate().any(|(j, &(o, _))| j != i && path(o) == path(n));
        want.push(match NAMES[n].2 {
            Some(p) if !amb => p.into(),
            _ => NAMES[n].1.into(),
        });
    }
    want.sort();
    let args: &[&str] = [&[][..], &["main"][..], &["--format", "top"][..]][k.mode];
    let r = p.run(w, args);
    let mut got: Vec<String> = if k.mode == 2 {
        ensure!(!r.failed() && r.graph().is_none(), "no-answer", "{}; {:?}", r.brief(), k);
        String::from_utf8_lossy(&r.stdout).lines().skip(2).filter_map(|l| l.split_once(' ').map(|x| x.1.to_string())).collect()
    } else {
        match r.graph() {
            Some(g) => g.nodes.iter().map(|n| n.name.clone()).collect(),
            None => return fail("no-graph", format!("{}; {:?} {:?}", r.brief(), k, k.fs.iter().map(|f| NAMES[f.0].0).collect::<Vec<_>>())),
        }
    };
    got.sort();
    ensure!(got == want, "labels", "labels {:?}, expected {:?}; {:?} {:?}", got, want, k, k.fs.iter().map(|f| NAMES[f.0].0).collect::<Vec<_>>());
    Ok(format!("{:?}", want))
}

pub fn check(ctx: &Ctx) {
    let n = NAMES.len();
    ctx.explore(
        "pairs",
        0,
        |c| {
            let sts = [Defined, Undefined, UndefinedUncalled, Removed, Twice, Versioned];
            let a = c.pick(n);
            let b = c.pick(n - a) + a;
            let sa = *c.of(&sts);
            let sb = *c.of(&sts);
            // one symbol is either defined or undefined
            if a == b && (sa, sb) != (Defined, Removed) && (sa, sb) != (Undefined, Removed) && (sa, sb) != (Twice, Removed) {
                return None;
            }
            if !ctx.thorough && matches!((sa, sb), (Versioned, _) | (_, Versioned)) && (a + b) % 4 != 0 {
                return None;
            }
            let arch = if ctx.thorough { *c.of(&[Arch::A64, Arch::V7, Arch::X64]) } else { Arch::A64 };
            Some(Case { arch, fs: vec![(a, sa), (b, sb)], mode: c.pick(if ctx.thorough { 3 } else { 1 }) })
        },
        |w, k| run(w, k),
    );
    ctx.explore(
        "triples",
        0,
        |c| {
            let a = c.pick(n);
            let b = c.pick(n);
            let d = c.pick(n);
            if a >= b || b >= d {
                return None;
            }
            let mode = c.pick(3);
            let arch = *c.of(&[Arch::A64, Arch::V7]);
            if !ctx.thorough && (a + b + d) % 6 != mode * 2 + (arch == Arch::V7) as usize {
                return None;
            }
            Some(Case { arch, fs: vec![(a, Defined), (b, Defined), (d, Defined)], mode })
        },
        |w, k| run(w, k),
    );
    // the same in every mode, for names that are related
    ctx.explore(
        "related",
        0,
        |c| {
            let rel = [0usize, 1, 5, 7, 9, 18, 10, 11];
            let fs: Vec<(usize, St)> = rel.iter().filter_map(|&r| match c.pick(3) { 0 => None, 1 => Some((r, Defined)), _ => Some((r, UndefinedUncalled)) }).collect();
            if !ctx.thorough && fs.len() > 4 {
                return None;
            }
            Some(Case { arch: *c.of(&[Arch::V6, Arch::X64]), fs, mode: c.pick(3) })
        },
        |w, k| run(w, k),
    );
    ctx.assume("v0-mangled functions that are literally named h followed by 16 hexadecimal digits are left out");
    super::views::check(ctx, super::views::View::Labels);
}
