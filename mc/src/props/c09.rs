//! C09: every 16-bit instruction and every 32-bit prefix in front of calls; every layout of code and
//! data up to a bound.
use crate::ctx::{fail, Ctx, Exec};
use crate::run::Worker;
use crate::thumbimg::*;
use crate::world::{enc_bl, Arch};
use std::collections::{BTreeMap, BTreeSet};

fn is32(h: u16) -> bool {
    h >= 0xe800
}

/// a 16-bit instruction of the architecture that is no branch with an immediate
fn valid16(v6: bool, h: u16) -> bool {
    if is32(h) {
        return false;
    }
    match h >> 8 {
        0xd0..=0xdd | 0xe0..=0xe7 => false,
        0x45 => h & 0xc0 != 0,
        0x47 => h & 7 == 0 && (h >> 3) & 15 != 15,
        0xb1 | 0xb3 | 0xb9 | 0xbb => !v6,
        0xb4 | 0xbc => h & 0xff != 0,
        0xb6 => (0xb660..0xb680).contains(&h) && h & 0b1100 == 0 && h & 3 != 0,
        0xb7 | 0xb8 => false,
        0xba => h & 0xc0 != 0x80,
        0xbf => {
            if h & 15 == 0 {
                (h >> 4) & 15 <= 4
            } else {
                // IT with a condition, AL only alone
                let (c, m) = ((h >> 4) & 15, h & 15);
                !v6 && c != 15 && (c != 14 || m.count_ones() == 1)
            }
        }
        0xc0..=0xcf => h & 0xff != 0,
        _ => true,
    }
}

/// not a branch; any other 32-bit pattern has its length from the first halfword
fn valid32(v6: bool, a: u16, b: u16) -> bool {
    if !is32(a) {
        return false;
    }
    if v6 {
        // DSB, DMB, ISB, MRS, MSR, UDF
        return (a == 0xf3bf && matches!(b, 0x8f40..=0x8f6f)) || (a == 0xf3ef && b & 0xf000 == 0x8000) || (a & 0xfff0 == 0xf380 && b & 0xff00 == 0x8800) || (a & 0xfff0 == 0xf7f0 && b & 0xf000 == 0xa000);
    }
    if a >> 11 == 0b11110 && b & 0x8000 != 0 {
        let cond = (a >> 6) & 15;
        return match (b >> 12) & 0b101 {
            0b000 => cond >> 1 == 7,
            _ => false,
        };
    }
    // push.w of nothing does not exist
    if a == 0xe92d && b & 0x5fff == 0 {
        return false;
    }
    // (as Armv7-M has it) coprocessor and SIMD space included
    true
}

/// Functions of the given halfwords, each followed by calls of `a` and `b`.
fn image(v6: bool, base: u64, seqs: &[Vec<u16>]) -> Image {
    let mut im = Image::new(v6, base);
    let mut a = base;
    im.item(base, "a", &RET);
    im.item(base + 4, "b", &RET);
    im.tag(base, "$t");
    a += 8;
    for (k, s) in seqs.iter().enumerate() {
        let mut by = hws(s);
        for t in [base, base + 4] {
            let pc = a + by.len() as u64 + 4;
            by.extend(enc_bl(t as i64 - pc as i64, true));
        }
        by.extend(RET);
        let n = by.len() as u64;
        im.item(a, &format!("t{}", k), &by);
        a += (n + 3) / 4 * 4;
    }
    im
}

fn judge(w: &mut Worker, im: &Image, want: &BTreeMap<String, BTreeSet<String>>) -> Exec {
    let r = im.run(w);
    let g = match r.graph() {
        Some(g) => g,
        None => return fail("no-graph", format!("no graph: {} {}", r.brief(), r.stderr.lines().find(|l| l.contains("BUG")).unwrap_or(""))),
    };
    let mut got = edges(g);
    got.remove("?");
    for s in got.values_mut() {
        s.remove("?");
    }
    if &got != want {
        for (n, s) in want {
            if got.get(n) != Some(s) {
                let it = im.items.iter().find(|i| &i.name == n).unwrap();
                return fail("edges", format!("function {} {:02x?} leads to {:?}, expected {:?} (tags {:x?})", n, it.bytes, got.get(n), s, if im.tags.len() < 40 { &im.tags[..] } else { &[] }));
            }
        }
        return fail("nodes", format!("functions {:?}", got.keys().collect::<Vec<_>>()));
    }
    Ok(format!("{:?}", im.items.last().map(|i| &i.bytes)))
}

fn seqs(ctx: &Ctx, space: &str, v6: bool, all: Vec<Vec<u16>>) {
    let chunk = 2048;
    let n = (all.len() + chunk - 1) / chunk;
    ctx.explore(
        space,
        0,
        |c| {
            let k = c.pick(n.max(1));
            Some(k)
        },
        |w, &k| {
            let part = &all[k * chunk..((k + 1) * chunk).min(all.len())];
            let im = image(v6, 0x8000, part);
            let ab: BTreeSet<String> = ["a".to_string(), "b".to_string()].into();
            let mut want: BTreeMap<String, BTreeSet<String>> = (0..part.len()).map(|k| (format!("t{}", k), ab.clone())).collect();
            want.insert("a".into(), BTreeSet::new());
            want.insert("b".into(), BTreeSet::new());
            judge(w, &im, &want)
        },
    );
    ctx.add("instruction_sequences", all.len() as u64);
    ctx.model(all.len() as u64, all.len() as u64);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Seg {
    Code,
    /// bytes of data, looking like calls
    Data(usize),
    /// a second data mapping symbol inside data
    Data2(usize),
    /// mapping symbol of data without data
    Empty,
}
use Seg::*;

#[derive(Clone, Debug)]
struct Layout {
    v6: bool,
    base: u64,
    segs: Vec<Seg>,
    /// what follows: nothing / a function with tag / a function without tag / function in another
    /// section far above / data to the end of the section / odd data
    tail: usize,
    suffix: bool,
    order: usize,
    sized: bool,
    before: usize,
    target: usize,
    /// functions at this offset modulo 4
    at: u64,
}

fn build(l: &Layout) -> (Image, BTreeMap<String, BTreeSet<String>>) {
    let mut im = Image::new(l.v6, l.base);
    let mut want: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut count = 0;
    let mut tag = |im: &mut Image, a: u64, s: &str| {
        count += 1;
        im.tag(a, &if l.suffix { format!("{}.{}", s, count) } else { s.to_string() });
    };
    let b = l.base;
    if l.before == 1 {
        // a data section in front of .text
        tag(&mut im, b.saturating_sub(0x100), "$d");
    }
    if l.before == 2 {
        tag(&mut im, 0x2000_0000 - (b == 0x2000_0000) as u64 * 0x100, "$d");
    }
    tag(&mut im, b, "$t");
    for (i, n) in ["y", "c0", "c1", "c2", "c3", "c4"].iter().enumerate() {
        im.item(b + 4 * i as u64, n, &RET);
        want.insert(n.to_string(), BTreeSet::new());
    }
    let start = b + 32 + l.at;
    let mut a = start;
    let mut by: Vec<u8> = vec![];
    let mut set = BTreeSet::new();
    let call = |at: u64, t: u64| enc_bl(t as i64 - at as i64 - 4, true);
    let mut code = false;
    for (i, s) in l.segs.iter().enumerate() {
        match s {
            Code => {
                if !code {
                    tag(&mut im, a, "$t");
                }
                code = true;
                by.extend([0x00, 0xbf]);
                a += 2;
                by.extend(call(a, b + 4 + 4 * i as u64));
                a += 4;
                set.insert(format!("c{}", i));
            }
            Data(n) | Data2(n) => {
                tag(&mut im, a, "$d");
                code = false;
                let end = a + *n as u64;
                if matches!(s, Data2(_)) {
                    tag(&mut im, a + 2, "$d");
                }
                while a < end {
                    // what follows looks like a call of y at its own position
                    let x = call(a, b);
                    for v in x {
                        if a < end {
                            by.push(v);
                            a += 1;
                        }
                    }
                }
                // code is aligned
                if a % 2 == 1 {
                    by.push(0);
                    a += 1;
                }
            }
            Empty => {
                tag(&mut im, a, "$d");
                code = false;
            }
        }
    }
    let name = "f";
    let len = by.len() as u64;
    want.insert(name.into(), set);
    im.items.push(Item { addr: start, name: name.into(), bytes: by, size: if l.sized { None } else { Some(0) } });
    match l.tail {
        0 => im.len = a - b,
        1 | 2 => {
            a = (a + 3) / 4 * 4 + l.at;
            if l.tail == 1 || !code {
                tag(&mut im, a, "$t");
            }
            let x = call(a, b + 4);
            im.item(a, "g", &[&x[..], &RET].concat());
            want.insert("g".into(), ["c0".to_string()].into());
        }
        3 => {
            im.len = a - b;
            // code copied to RAM: another section
            let addr = if b < 0x2000_0000 { 0x2000_0000 } else { 0x100 };
            im.sections.push((".data".into(), addr, RET.to_vec()));
            tag(&mut im, addr, "$t");
        }
        4 => {
            tag(&mut im, a, "$d");
            im.raw.push((a, call(a, b)));
        }
        _ => unreachable!(),
    }
    match l.order {
        1 => {
            // by address, stable: data symbols before code symbols at one address
        }
        2 => im.tags.sort_by_key(|t| std::cmp::Reverse(t.0)),
        _ => im.tags.sort_by_key(|t| t.1.starts_with("$t")),
    }
    let _ = len;
    (im, want)
}

const KINDS: &[Seg] = &[Code, Data(4), Data(2), Data(6), Data(8), Data(3), Data2(4), Data2(6), Empty];
/// pieces beyond round sizes
const LONG: &[Seg] = &[Code, Data(254), Data(256), Data(260), Data(512), Data(514), Data(1024), Data(1028), Data(2050), Data(4096), Data(4100), Data(65536), Data(65540)];

fn layouts(ctx: &Ctx, space: &str, kinds: &[Seg], max: usize, budget: u32) {
    ctx.explore(
        space,
        budget,
        |c| {
            let n = 1 + c.pick(max);
            let segs: Vec<Seg> = (0..n).map(|_| *c.of(kinds)).collect();
            // an empty piece of data before data, or at the end, is no longer empty
            for w in segs.windows(2) {
                if w[0] == Empty && w[1] != Code {
                    return None;
                }
            }
            if segs.last() == Some(&Empty) {
                return None;
            }
            let tail = c.pick(5);
            // rarely: without size, and still followed by something
            let sized = c.dev(2) == 0;
            let v6 = c.dev(2) == 1;
            let base = *c.dev_of(&[0x8000u64, 0x0, 0x2000_0000, 0x9000_0000]);
            let suffix = c.dev(2) == 1;
            let order = c.dev(3);
            let before = c.dev(3);
            let target = c.dev(if v6 { 1 } else { 3 });
            let at = 2 * c.dev(2) as u64;
            if base == 0 && before == 1 {
                return None;
            }
            Some(Layout { v6, base, segs, tail, suffix, order, sized, before, target, at })
        },
        |w, l| {
            let (mut im, want) = build(l);
            im.target = Some(if l.v6 { Arch::V6 } else { Arch::V7 }.targets()[l.target]);
            judge(w, &im, &want)
        },
    );
}

pub fn check(ctx: &Ctx) {
    const SECOND: &[u16] = &[0x0000, 0xf000, 0xf800, 0xe92d, 0x4770, 0xb580, 0xd0fe, 0xe7fe, 0x8000, 0x8f5f, 0x0f00, 0xffff];
    const NEIGHBOURS: &[u16] = &[0xbf00, 0x4770, 0xb580, 0xbe00, 0xbf08, 0xb130, 0xdf00, 0xde00, 0xbd80, 0x4798, 0x4408, 0xb662, 0x0000, 0xba00, 0xa000, 0xc003, 0x4687];
    for v6 in [false, true] {
        let v = if v6 { "V6" } else { "V7" };
        let mut all = vec![];
        for h in 0..=0xffffu16 {
            if valid16(v6, h) {
                all.push(vec![h]);
            }
        }
        let ones: Vec<u16> = all.iter().map(|v| v[0]).collect();
        seqs(ctx, &format!("halfwords-{}", v), v6, all);
        let mut all = vec![];
        for a in 0xe800..=0xffffu16 {
            if v6 {
                // the few 32-bit instructions, with every second halfword
                if !(a == 0xf3bf || a == 0xf3ef || a & 0xfff0 == 0xf380 || a & 0xfff0 == 0xf7f0) {
                    continue;
                }
                for b in 0..=0xffffu16 {
                    if valid32(v6, a, b) {
                        all.push(vec![a, b]);
                    }
                }
            } else {
                for &b in SECOND {
                    if valid32(v6, a, b) {
                        all.push(vec![a, b]);
                    }
                }
            }
        }
        seqs(ctx, &format!("words-{}", v), v6, all);
        // neighbours of every kind
        let mut all = vec![];
        let step = if ctx.thorough { 1 } else { 7 };
        for &h in ones.iter().step_by(step) {
            for &n in NEIGHBOURS {
                if valid16(v6, n) {
                    all.push(vec![n, h]);
                    if ctx.thorough {
                        all.push(vec![h, n, h]);
                    }
                }
            }
            all.push(vec![h, 0xf3ef, 0x8005]);
            all.push(vec![0xf3ef, 0x8005, h]);
        }
        seqs(ctx, &format!("neighbours-{}", v), v6, all);
        if ctx.thorough && !v6 {
            let mut all = vec![];
            for a in 0xe800..=0xffffu16 {
                for b in (0..=0xffffu32).step_by(61) {
                    if valid32(v6, a, b as u16) {
                        all.push(vec![a, b as u16]);
                    }
                }
            }
            seqs(ctx, "words-V7-dense", v6, all);
        }
    }
    layouts(ctx, "layouts-3", KINDS, 3, 0);
    layouts(ctx, "layouts-2", KINDS, 2, 2);
    layouts(ctx, "layouts-long", LONG, 3, if ctx.thorough { 1 } else { 0 });
    if ctx.thorough {
        layouts(ctx, "layouts-4", KINDS, 4, 0);
        layouts(ctx, "layouts-3-2", KINDS, 3, 2);
    }
    ctx.assume("the image consists of instructions that exist in the architecture; mapping symbols mark every transition between code and data, as the ELF ABI for Arm demands");
}
