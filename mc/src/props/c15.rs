//! C15: all short names over an alphabet of characters that DOT, LLVM IR and terminals treat
//! specially, in every kind of node.
use super::expect::Want;
use crate::ctx::{fail, Ctx, Exec};
use crate::ensure;
use crate::run::Worker;
use crate::world::*;

const ALPHABET: &[&str] = &[
    "a", "\"", "\\", "{", "}", "<", ">", "|", " ", "\n", "\t", "\u{e9}", "\u{1f600}", ";", ",", "[", "]", "=", "-", "%", "#", "@", "(", ")", "&", ".", "'", "`", "n", "N", "0", "/", "*", ":", "\r", "\u{7f}", "\u{1}", "!", "?", "$", "\u{2028}", "l",
];
const CORE: &[&str] = &["a", "\"", "\\", "n", "\n", " ", "{", "\u{e9}", "0", "N"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// defined, self-recursive, called
    Cycle,
    /// called, but undefined
    Undefined,
    /// no IR: known from the executable only
    NoIr,
    /// as the alias by which main calls a plainly named function
    Alias,
}

fn usable(name: &str, kind: Kind) -> bool {
    // reserved for mapping symbols; the node of unknown code; symbol versions; mangled names
    !(name.is_empty()
        || name == "$a"
        || name == "$x"
        || name == "$t"
        || name == "$d"
        || name.starts_with("$a.")
        || name.starts_with("$x.")
        || name.starts_with("$t.")
        || name.starts_with("$d.")
        || name == "?"
        || name == "main"
        || (kind == Kind::Undefined && name.contains('@')))
}

/// many names in one program; every one of them is a node of its own
fn run(w: &mut Worker, names: &[(String, Kind)], arch: Arch, with_stack: bool, marked: bool) -> Exec {
    let mut p = Prog::new(arch);
    let mut want = Want::new();
    let mut calls = vec![];
    want.node("main", if with_stack { Some(8) } else { None });
    for (i, (n, kind)) in names.iter().enumerate() {
        let stack = if with_stack { Some(4 * (i as u64 % 5 + 1)) } else { None };
        let mut ir = ir_name(n);
        if marked {
            // LLVM: do not mangle this name (the marker is not part of the symbol)
            ir = if ir.starts_with('"') { ir.replacen('"', "\"\\01", 1) } else { format!("\"\\01{}\"", ir) };
        }
        match kind {
            Kind::Cycle => {
                let k = p.funs.len();
                p.funs.push(Fun::new(arch, n, stack));
                if arch.thumb() {
                    p.funs[k].ops = body(arch, stack.unwrap_or(0), &[k]);
                }
                p.ll.push_str(&void_fn(&ir, &[&ir]));
                want.node(n, stack).edge(n, n).edge("main", n);
                calls.push(ir);
            }
            Kind::Undefined => {
                p.undef.push(n.clone());
                p.ll.push_str(&declare("void", &ir, ""));
                want.node(n, None).edge("main", n);
                calls.push(ir);
            }
            Kind::NoIr => {
                p.funs.push(Fun::new(arch, n, stack));
                want.node(n, stack);
            }
            Kind::Alias => {
                let mut f = Fun::new(arch, &format!("plain{}", i), stack);
                f.names.push((n.clone(), crate::elf::FUNC));
                let nm = format!("plain{}", i);
                if !with_stack {
                    f.names.truncate(1);
                    f.names.push((n.clone(), crate::elf::NOTYPE));
                }
                p.funs.push(f);
                p.ll.push_str(&void_fn(&nm, &[]));
                want.node(&nm, stack).edge("main", &nm);
                calls.push(ir);
            }
        }
    }
    p.ll.push_str(&define("void", "main", "", &calls.iter().map(|c| format!("call void @{}()", c)).collect::<Vec<_>>()));
    let m = p.funs.len();
    p.funs.push(Fun::new(arch, "main", if with_stack { Some(8) } else { None }));
    if arch.thumb() {
        let called: Vec<usize> = (0..m).filter(|&i| want.nodes["main"].callees.contains(&p.funs[i].names[0].0)).collect();
        p.funs[m].ops = body(arch, 8, &called);
    }
    let r = p.run(w, &[]);
    want.judge(&r)?;
    let g = r.graph().unwrap();
    let cycles = names.iter().filter(|n| n.1 == Kind::Cycle).count();
    ensure!(g.clusters.len() == cycles || !with_stack, "clusters", "{} clusters, {} cycles: {}", g.clusters.len(), cycles, r.brief());
    for n in &g.nodes {
        ensure!(n.max.is_some() == with_stack, "max-line", "{:?}: max {:?} although stack sizes are {}", n.name, n.max, if with_stack { "known" } else { "unknown" });
    }
    Ok(format!("{} nodes", g.nodes.len()))
}

pub fn check(ctx: &Ctx) {
    let kinds = [Kind::Cycle, Kind::Undefined, Kind::NoIr, Kind::Alias];
    // every name of up to two characters, alone with main
    let mut names: Vec<String> = ALPHABET.iter().map(|s| s.to_string()).collect();
    for a in ALPHABET {
        for b in ALPHABET {
            names.push(format!("{}{}", a, b));
        }
    }
    for a in CORE {
        for b in CORE {
            for c in CORE {
                names.push(format!("{}{}{}", a, b, c));
                if ctx.thorough {
                    for d in CORE {
                        names.push(format!("{}{}{}{}", a, b, c, d));
                    }
                }
            }
        }
    }
    // whole words
    for s in ["foo bar", "a\\nmax = 3", "a\nmax = 3\nlocal = 4", "x\" style=dashed", "\"]", "0 -> 1", "digraph {", "a\\\"b", "\\\\", "\\\\\\\"", "a\\l\\r\\N\\G\\E\\T", "local = 4", "\u{0645}\u{0631}\u{062d}", "<b>x</b>", "<html>", "{a|b}", "i32 ()*", "\\22", "a\\5Cb", "%s%n", "//x", "/* x */", "#define"] {
        names.push(s.to_string());
    }
    let names = &names;
    ctx.explore(
        "names",
        0,
        |c| {
            let i = c.pick(names.len());
            let kind = *c.of(&kinds);
            if !usable(&names[i], kind) || (!ctx.thorough && i > 42 && (i + kind as usize) % 2 == 1) {
                return None;
            }
            Some((vec![(names[i].clone(), kind)], if i % 3 == 0 && kind != Kind::Alias { Arch::V7 } else { Arch::A64 }, true, i % 5 == 4 && !names[i].starts_with('\u{1}')))
        },
        |w, (n, a, s, m)| run(w, n, *a, *s, *m),
    );
    // many of them together
    ctx.explore(
        "together",
        0,
        |c| {
            let k = c.pick(names.len() / 20 + 1);
            let rot = c.pick(4);
            let v: Vec<(String, Kind)> = names.iter().enumerate().skip(k * 20).take(20).map(|(i, n)| (n.clone(), kinds[(i + rot) % 4])).filter(|(n, k)| usable(n, *k)).collect();
            let mut seen = std::collections::BTreeSet::new();
            let v: Vec<(String, Kind)> = v.into_iter().filter(|n| seen.insert(n.0.clone())).collect();
            Some((v, *c.of(&[Arch::A64, Arch::V7, Arch::X64]), c.flag()))
        },
        |w, (n, a, s)| {
            let s = *s || a.thumb();
            run(w, n, *a, s, false)
        },
    );
    // demangled names with special characters; shortened or not
    ctx.explore(
        "demangled",
        0,
        |c| {
            let esc = [("$u22$", "\""), ("$u5c$", "\\"), ("$u7b$", "{"), ("$u7d$", "}"), ("$LT$", "<"), ("$GT$", ">"), ("$u20$", " "), ("$RF$", "&"), ("$BP$", "*"), ("$u5b$", "["), ("$u3b$", ";"), ("$u27$", "'"), ("$C$", ",")];
            let a = c.pick(esc.len());
            let b = c.pick(esc.len());
            let short = c.flag();
            let dup = c.flag();
            let el = format!("_{}x{}", esc[a].0, esc[b].0);
            let sym = |h: &str| format!("_ZN3app{}{}17h{}E", el.len(), el, h);
            let path = format!("app::{}x{}", esc[a].1, esc[b].1);
            Some((sym("0123456789abcdef"), if dup { Some(sym("1111111111111111")) } else { None }, path, short))
        },
        |w, (s, d, path, other)| {
            let mut p = Prog::new(Arch::A64);
            let mut want = Want::new();
            want.node("main", Some(8));
            let mut calls = vec![s.clone()];
            calls.extend(d.clone());
            for (i, c) in calls.iter().enumerate() {
                let label = if d.is_some() { format!("{}::h{}", path, if i == 0 { "0123456789abcdef" } else { "1111111111111111" }) } else { path.clone() };
                p.funs.push(Fun::new(Arch::A64, c, Some(4)));
                p.ll.push_str(&void_fn(&ir_name(c), &[]));
                want.node(&label, Some(4)).edge("main", &label);
            }
            if *other {
                p.funs.push(Fun::new(Arch::A64, "x\\y", Some(4)));
                want.node("x\\y", Some(4));
            }
            p.funs.push(Fun::new(Arch::A64, "main", Some(8)));
            p.ll.push_str(&define("void", "main", "", &calls.iter().map(|c| format!("call void @{}()", ir_name(c))).collect::<Vec<_>>()));
            want.judge(&p.run(w, &[]))?;
            Ok(format!("{}", path))
        },
    );
    // signatures that mention named types
    ctx.explore(
        "type-names",
        0,
        |c| {
            let n = 1 + c.pick(2);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(c.of(ALPHABET));
            }
            if s.contains('\u{2028}') {
                return None;
            }
            Some((s, c.flag()))
        },
        |w, (t, defined)| {
            let mut p = Prog::new(Arch::A64);
            let ty = format!("%{}*", if t.chars().all(|c| c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '$') && !t.starts_with(|c: char| c.is_ascii_digit()) { t.clone() } else { quote(t) });
            p.funs.push(Fun::new(Arch::A64, "main", Some(8)));
            p.funs.push(Fun::new(Arch::A64, "f", Some(4)));
            p.ll.push_str(&define("void", "main", "", &[format!("call void %p({} null)", ty)]));
            p.ll.push_str(&if *defined { define("void", "f", &format!("{} %x", ty), &[]) } else { declare("void", "f", &ty) });
            let r = p.run(w, &[]);
            let g = match r.graph() {
                Some(g) => g,
                // a loud failure is not a malformed graph, but nothing here justifies one
                None => return fail("no-graph", format!("type name {:?}: {}", t, r.brief())),
            };
            let d: Vec<usize> = (0..g.nodes.len()).filter(|&i| g.nodes[i].dashed).collect();
            ensure!(d.len() == 1 && g.callees(d[0]) == ["f"], "dashed", "type name {:?}: {}", t, r.brief());
            ensure!(g.nodes[d[0]].name.starts_with("void (") && g.nodes[d[0]].name.ends_with(")*"), "label", "type name {:?}: {}", t, r.brief());
            Ok(format!("{:?}", g.nodes[d[0]].name))
        },
    );
    // many clusters
    super::graphs::explore_cycle_shapes(ctx);
    ctx.assume("names reserved for mapping symbols ($a, $d, $t, $x and these followed by a dot) and names that are not valid UTF-8 are left out");
}

fn quote(n: &str) -> String {
    let mut o = String::from("\"");
    for b in n.bytes() {
        if (0x20..0x7f).contains(&b) && b != b'"' && b != b'\\' {
            o.push(b as char)
        } else {
            o.push_str(&format!("\\{:02X}", b))
        }
    }
    o.push('"');
    o
}
