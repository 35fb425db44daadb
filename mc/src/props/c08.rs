//! C08: every value of the immediate fields of BL and B.
use crate::ctx::{Ctx, Exec};
use crate::ensure;
use crate::run::Worker;
use crate::thumbimg::*;
use crate::world::Arch;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Enc {
    /// cond, imm8
    T1(u32, u32),
    /// imm11
    T2(u32),
    /// cond, S, J1, J2, imm6, imm11
    T3(u32, u32, u32, u32, u32, u32),
    /// S, J1, J2, imm10, imm11
    T4(u32, u32, u32, u32, u32),
    Bl(u32, u32, u32, u32, u32),
}
use Enc::*;

fn sext(v: u32, bits: u32) -> i64 {
    let s = 32 - bits;
    (((v << s) as i32) >> s) as i64
}

impl Enc {
    fn halfwords(self) -> Vec<u16> {
        match self {
            T1(c, i) => vec![(0xd000 | c << 8 | i) as u16],
            T2(i) => vec![(0xe000 | i) as u16],
            T3(c, s, j1, j2, i6, i11) => vec![(0xf000 | s << 10 | c << 6 | i6) as u16, (0x8000 | j1 << 13 | j2 << 11 | i11) as u16],
            T4(s, j1, j2, i10, i11) => vec![(0xf000 | s << 10 | i10) as u16, (0x9000 | j1 << 13 | j2 << 11 | i11) as u16],
            Bl(s, j1, j2, i10, i11) => vec![(0xf000 | s << 10 | i10) as u16, (0xd000 | j1 << 13 | j2 << 11 | i11) as u16],
        }
    }
    /// relative to the instruction's address + 4
    fn offset(self) -> i64 {
        match self {
            T1(_, i) => sext(i << 1, 9),
            T2(i) => sext(i << 1, 12),
            T3(_, s, j1, j2, i6, i11) => sext(s << 20 | j2 << 19 | j1 << 18 | i6 << 12 | i11 << 1, 21),
            T4(s, j1, j2, i10, i11) | Bl(s, j1, j2, i10, i11) => {
                let i1 = 1 ^ j1 ^ s;
                let i2 = 1 ^ j2 ^ s;
                sext(s << 24 | i1 << 23 | i2 << 22 | i10 << 12 | i11 << 1, 25)
            }
        }
    }
    fn link(self) -> bool {
        matches!(self, Bl(..))
    }
}

/// Places one function per encoding and the functions branched to. All names and what they call.
fn place(v6: bool, base: u64, encs: &[Enc], before: &[u16], after: &[u16], sized: bool) -> (Image, BTreeMap<String, BTreeSet<String>>) {
    let mut im = Image::new(v6, base);
    let mut want: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    // start -> (end, name)
    let mut used: BTreeMap<u64, (u64, String)> = BTreeMap::new();
    let free = |used: &BTreeMap<u64, (u64, String)>, a: u64, b: u64| used.range(..b).next_back().map(|(_, (e, _))| *e <= a).unwrap_or(true);
    let lo = encs.iter().map(|e| -e.offset()).max().unwrap_or(0).max(0) as u64;
    let start = base + (lo + 64) / 4 * 4;
    let blen = 2 * before.len() as u64;
    let mut rejected = vec![];
    let mut cursor = start;
    for (k, e) in encs.iter().enumerate() {
        let hs = e.halfwords();
        let flen = blen + 2 * (hs.len() + after.len()) as u64;
        let mut tries = 0;
        let mut a = cursor;
        loop {
            tries += 1;
            assert!(tries < 1_000_000, "cannot place {:?}", e);
            let t = (a as i64 + blen as i64 + 4 + e.offset()) as u64;
            let inside = t >= a && t < a + flen;
            let ok = free(&used, a, a + flen)
                && if inside {
                    // a call into the middle of a function does not exist
                    !e.link() || t == a
                } else {
                    t >= base && (used.get(&t).is_some() || (free(&used, t, t + 2) && !(t < a + flen && t + 2 > a)))
                };
            if inside && e.link() && t != a {
                rejected.push(k);
                break;
            }
            if !ok {
                a += 4;
                continue;
            }
            let name = format!("t{}", k);
            let mut all = before.to_vec();
            all.extend(&hs);
            all.extend(after);
            used.insert(a, (a + flen, name.clone()));
            im.items.push(Item { addr: a, name: name.clone(), bytes: hws(&all), size: if sized { None } else { Some(0) } });
            let mut set = BTreeSet::new();
            if inside {
                if e.link() {
                    set.insert(name.clone());
                }
            } else {
                let callee = match used.get(&t) {
                    Some((_, n)) => n.clone(),
                    None => {
                        let n = format!("x{}", k);
                        used.insert(t, (t + 2, n.clone()));
                        im.item(t, &n, &RET);
                        want.insert(n.clone(), BTreeSet::new());
                        n
                    }
                };
                set.insert(callee);
            }
            want.insert(name, set);
            break;
        }
        cursor = cursor.max(start);
        if tries > 64 {
            cursor = a;
        }
    }
    if !sized {
        // a function without size ends where the next one starts
        let mut gaps = vec![];
        for (_, (e, _)) in &used {
            if !used.contains_key(e) && free(&used, *e, *e + 2) {
                gaps.push(*e);
            }
        }
        for (i, g) in gaps.iter().enumerate() {
            let n = format!("g{}", i);
            im.item(*g, &n, &RET);
            want.insert(n, BTreeSet::new());
        }
    }
    im.tag(base, "$t");
    im.len = im.end() - base + 8;
    (im, want)
}

fn judge(w: &mut Worker, im: &Image, want: &BTreeMap<String, BTreeSet<String>>, encs: &[Enc]) -> Exec {
    let r = im.run(w);
    let g = match r.graph() {
        Some(g) => g,
        None => return crate::ctx::fail("no-graph", format!("no graph for {:?}..: {}", encs.first(), r.brief())),
    };
    let got = edges(g);
    ensure!(got.len() == want.len() && g.nodes.len() == want.len(), "nodes", "{} nodes, expected {}", g.nodes.len(), want.len());
    let once: BTreeSet<_> = g.edges.iter().collect();
    ensure!(once.len() == g.edges.len(), "duplicate", "an edge is printed more than once for {:?}..: {:?}", encs.first(), g.edges);
    for (n, s) in want {
        let x = got.get(n);
        if x != Some(s) {
            let k = n[1..].parse::<usize>().ok();
            let it = im.items.iter().find(|i| &i.name == n).unwrap();
            return crate::ctx::fail(
                "edges",
                format!("{:?} of {} at {:#x} ({:02x?}) leads to {:?}, expected {:?}", k.and_then(|k| encs.get(k)), n, it.addr, it.bytes, x, s),
            );
        }
    }
    Ok(format!("{:?} {}", encs.first(), want.len()))
}

fn sweep(ctx: &Ctx, space: &str, v6: bool, bases: &[u64], encs: Vec<Enc>, chunk: usize) {
    let chunks: Vec<Vec<Enc>> = {
        // deal out so that every chunk mixes near and far
        let n = (encs.len() + chunk - 1) / chunk;
        (0..n).map(|i| encs.iter().skip(i).step_by(n).copied().collect()).collect()
    };
    ctx.explore(
        space,
        0,
        |c| {
            let b = *c.of(bases);
            let i = c.pick(chunks.len());
            Some((b, i))
        },
        |w, &(b, i)| {
            let (im, want) = place(v6, b, &chunks[i], &[], &[], true);
            judge(w, &im, &want, &chunks[i])
        },
    );
    ctx.add("encodings", (encs.len() * bases.len()) as u64);
    ctx.model((encs.len() * bases.len()) as u64, (encs.len() * bases.len()) as u64);
}

const BASES: &[u64] = &[0x0, 0x0800_0000, 0x2000_0000, 0x9000_0000, 0x7fff_fe00];

/// Every sequence of calls and tail branches of one function, with repetitions, that may also call
/// in its IR what its machine code calls.
fn repeated(ctx: &Ctx) {
    const V7: &[&str] = &["bl", "b.w", "b", "beq.w", "beq"];
    const V6: &[&str] = &["bl", "b", "beq"];
    for v6 in [false, true] {
        let kinds = if v6 { V6 } else { V7 };
        ctx.explore(
            &format!("repeated-{}", if v6 { "V6" } else { "V7" }),
            0,
            |c| {
                let n = 1 + c.pick(if ctx.thorough { 4 } else { 3 });
                // IR of the function: none, calls x, calls y, calls both
                let ir = c.pick(4);
                // to: x, y or itself
                let mut seq = vec![];
                for _ in 0..n {
                    let k = *c.of(kinds);
                    let to = c.pick(3);
                    if to == 2 && seq.iter().any(|(_, t)| *t == 2) {
                        return None;
                    }
                    seq.push((k, to));
                }
                Some((ir, seq))
            },
            |w, (ir, seq)| {
                let base = 0x800_0000u64;
                let mut at = base + 16;
                let mut bytes = vec![];
                let mut want: BTreeMap<String, BTreeSet<String>> = ["f", "x", "y"].iter().map(|n| (n.to_string(), BTreeSet::new())).collect();
                for &(k, to) in seq {
                    // x lies before the function, y behind it
                    let t = [base, base + 64, base + 16][to] as i64;
                    let off = t - at as i64 - 4;
                    let u = off as u32;
                    let e = match k {
                        "bl" | "b.w" => {
                            let s = u >> 31;
                            let (j1, j2) = (1 ^ s ^ (u >> 23 & 1), 1 ^ s ^ (u >> 22 & 1));
                            (if k == "bl" { Bl } else { T4 })(s, j1, j2, u >> 12 & 0x3ff, u >> 1 & 0x7ff)
                        }
                        "b" => T2(u >> 1 & 0x7ff),
                        "beq.w" => T3(0, u >> 31, u >> 18 & 1, u >> 19 & 1, u >> 12 & 63, u >> 1 & 0x7ff),
                        _ => T1(0, u >> 1 & 0xff),
                    };
                    assert_eq!(e.offset(), off);
                    let h = hws(&e.halfwords());
                    at += h.len() as u64;
                    bytes.extend(h);
                    if to < 2 || k == "bl" {
                        want.get_mut("f").unwrap().insert(["x", "y", "f"][to].into());
                    }
                }
                let mut im = Image::new(v6, base);
                im.item(base, "x", &RET).item(base + 16, "f", &bytes).item(base + 64, "y", &RET).tag(base, "$t");
                im.len = 80;
                let calls: Vec<&str> = ["x", "y"].iter().enumerate().filter(|(i, _)| *ir >> i & 1 == 1).map(|x| *x.1).collect();
                for n in &calls {
                    want.get_mut("f").unwrap().insert(n.to_string());
                }
                if *ir > 0 {
                    for n in ["x", "y"] {
                        im.ll.push_str(&format!("define void @{}() {{\nstart:\n  ret void\n}}\n\n", n));
                    }
                    im.ll.push_str("define void @f() {\nstart:\n");
                    for n in calls {
                        im.ll.push_str(&format!("  call void @{}()\n", n));
                    }
                    im.ll.push_str("  ret void\n}\n\n");
                }
                judge(w, &im, &want, &[])
            },
        );
    }
}

/// Functions with and without size, with and without a mapping symbol of their own, with padding
/// and literals in between: where the one ends decides whose calls are whose.
fn extents(ctx: &Ctx) {
    #[derive(Clone, Copy, Debug)]
    struct F {
        /// 0: nothing, 1: call of x, 2: call of y, 3: branch to x
        body: usize,
        sized: bool,
        tag: bool,
        /// 0: nothing, 1: padding, 2: literal that looks like a call of z
        gap: usize,
    }
    let max = if ctx.thorough { 4 } else { 3 };
    for n in 2..=max {
        ctx.explore(
            &format!("extents-{}", n),
            0,
            |c| {
                let mut fs: Vec<F> = vec![];
                for i in 0..n {
                    let body = c.pick(4);
                    let sized = c.flag();
                    let must = i == 0 || fs[i - 1].gap == 2;
                    let tag = must || c.flag();
                    let gap = c.pick(3);
                    fs.push(F { body, sized, tag, gap });
                }
                let v6 = c.flag();
                Some((fs, v6))
            },
            |w, (fs, v6)| {
                let base = 0x800_0000u64;
                let mut im = Image::new(*v6, base);
                let mut want: BTreeMap<String, BTreeSet<String>> = ["x", "y", "z"].iter().map(|n| (n.to_string(), BTreeSet::new())).collect();
                im.item(base, "x", &RET).item(base + 4, "y", &RET).item(base + 8, "z", &RET).tag(base, "$t");
                let mut a = base + 12;
                for (i, f) in fs.iter().enumerate() {
                    if f.tag {
                        im.tag(a, "$t");
                    }
                    let mut by = vec![0x00, 0xbf];
                    let mut set = BTreeSet::new();
                    let off = |at: u64, t: u64| t as i64 - at as i64 - 4;
                    match f.body {
                        1 | 2 => {
                            let t = [base, base + 4][f.body - 1];
                            by.extend(crate::world::enc_bl(off(a + 2, t), true));
                            set.insert(["x", "y"][f.body - 1].to_string());
                        }
                        3 => {
                            by.extend(hws(&T2((off(a + 2, base) >> 1) as u32 & 0x7ff).halfwords()));
                            set.insert("x".into());
                        }
                        _ => by.extend(RET),
                    }
                    let name = format!("f{}", i);
                    let len = by.len() as u64;
                    im.items.push(Item { addr: a, name: name.clone(), bytes: by, size: if f.sized { None } else { Some(0) } });
                    want.insert(name, set);
                    a += len;
                    match f.gap {
                        1 => {
                            im.raw.push((a, hws(&[0xbf00])));
                            a += 2;
                        }
                        2 => {
                            im.tag(a, "$d");
                            im.raw.push((a, crate::world::enc_bl(off(a, base + 8), true)));
                            a += 4;
                        }
                        _ => {}
                    }
                }
                im.len = a - base;
                judge(w, &im, &want, &[])
            },
        );
    }
}

pub fn check(ctx: &Ctx) {
    let bits = |n: u32| 0..1u32 << n;
    let sjj: Vec<(u32, u32, u32)> = bits(3).map(|x| (x >> 2, x >> 1 & 1, x & 1)).collect();
    // quick: boundary values of one field times every value of the other
    let edge11 = [0u32, 1, 2, 0x3ff, 0x400, 0x555, 0x7fe, 0x7ff];
    let edge10 = [0u32, 1, 0x0ff, 0x100, 0x1ff, 0x200, 0x3fe, 0x3ff];
    for v6 in [false, true] {
        let v = if v6 { "V6" } else { "V7" };
        let mut t1 = vec![];
        for c in 0..14 {
            for i in bits(8) {
                t1.push(T1(c, i));
            }
        }
        sweep(ctx, &format!("B-T1-{}", v), v6, BASES, t1, 256);
        sweep(ctx, &format!("B-T2-{}", v), v6, BASES, bits(11).map(T2).collect(), 256);
        let far = |f: fn(u32, u32, u32, u32, u32) -> Enc, thorough: bool| {
            let mut e = vec![];
            for &(s, a, b) in &sjj {
                for i11 in bits(11) {
                    for &i10 in if thorough { &edge10[..] } else { &[0, 0x3ff] } {
                        e.push(f(s, a, b, i10, i11));
                    }
                }
                for i10 in bits(10) {
                    for &i11 in if thorough { &edge11[..] } else { &[0, 0x7ff] } {
                        e.push(f(s, a, b, i10, i11));
                    }
                }
            }
            e
        };
        sweep(ctx, &format!("BL-{}", v), v6, if ctx.thorough { BASES } else { &[0x0800_0000] }, far(Bl, ctx.thorough), 1024);
        if !v6 {
            sweep(ctx, "B-T4", v6, if ctx.thorough { BASES } else { &[0x2000_0000] }, far(T4, ctx.thorough), 1024);
            let mut t3 = vec![];
            for c in 0..14 {
                for &(s, a, b) in &sjj {
                    for &i6 in &[0, 1, 31, 32, 62, 63] {
                        for i11 in edge11 {
                            t3.push(T3(c, s, a, b, i6, i11));
                        }
                    }
                }
            }
            for &(s, a, b) in &sjj {
                for i6 in bits(6) {
                    for i11 in edge11 {
                        t3.push(T3(1, s, a, b, i6, i11));
                    }
                }
                for i11 in bits(11) {
                    for &i6 in &[0, 63] {
                        t3.push(T3(11, s, a, b, i6, i11));
                    }
                }
            }
            if ctx.thorough {
                // the whole encoding space of one condition
                for x in bits(20) {
                    t3.push(T3(12, x >> 19, x >> 18 & 1, x >> 17 & 1, x >> 11 & 63, x & 0x7ff));
                }
            }
            sweep(ctx, "B-T3", v6, if ctx.thorough { &BASES[..2] } else { &[0x0800_0000] }, t3, 1024);
        }
        // positions: what precedes and follows in the function, functions without size
        let before: &[&[u16]] = &[&[], &[0xbf00], &[0xbf00, 0xb580], &[0x4770, 0x4770, 0x4770], &[0xf3ef, 0x8005], &[0xbf00, 0xf3ef, 0x8005], &[0x2000; 9]];
        let after: &[&[u16]] = &[&[], &[0xbf00], &[0x4770, 0xbf00], &[0xf3ef, 0x8005, 0xbf00], &[0x2000; 9]];
        ctx.explore(
            &format!("positions-{}", v),
            0,
            |c| {
                let b = *c.of(before);
                let a = *c.of(after);
                let base = *c.of(BASES);
                let sized = c.flag();
                let target = *c.of(if v6 { Arch::V6.targets() } else { Arch::V7.targets() });
                Some((b, a, base, sized, target))
            },
            |w, &(b, a, base, sized, target)| {
                let mut encs = vec![];
                for i in -26..=26i32 {
                    encs.push(T1((i & 7) as u32, (i & 0xff) as u32));
                    encs.push(T2((i & 0x7ff) as u32));
                    let s = (i < 0) as u32;
                    encs.push(Bl(s, 1, 1, if i < 0 { 0x3ff } else { 0 }, (i & 0x7ff) as u32));
                    if !v6 {
                        encs.push(T4(s, 1, 1, if i < 0 { 0x3ff } else { 0 }, (i & 0x7ff) as u32));
                        encs.push(T3(3, s, s, s, if i < 0 { 0x3f } else { 0 }, (i & 0x7ff) as u32));
                    }
                }
                let (mut im, want) = place(v6, base, &encs, b, a, sized);
                im.target = Some(target);
                judge(w, &im, &want, &encs)
            },
        );
    }
    repeated(ctx);
    extents(ctx);
    ctx.assume("branch targets are function starts inside .text; branches to the middle of another function do not occur");
    super::views::check(ctx, super::views::View::Machine);
}
