//! C10: every encoding of the instructions that move SP, and every short sequence of them, against a
//! machine that tracks SP.
use crate::ctx::{fail, Ctx};
use crate::thumbimg::*;
use crate::world::enc_bl;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Eff {
    /// bytes pushed (positive) or popped (negative)
    Sp(i64),
    /// SP becomes unknown
    Unknown,
    /// a branch inside the function
    Inside,
}
use Eff::*;

type Ins = (Vec<u16>, Eff);

/// ThumbExpandImm of the Arm architecture; None: unpredictable
fn expand(imm12: u32) -> Option<u32> {
    let b = imm12 & 0xff;
    if imm12 >> 10 == 0 {
        match (imm12 >> 8) & 3 {
            0 => Some(b),
            _ if b == 0 => None,
            1 => Some(b << 16 | b),
            2 => Some(b << 24 | b << 8),
            _ => Some(b << 24 | b << 16 | b << 8 | b),
        }
    } else {
        Some((0x80 | (imm12 & 0x7f)).rotate_right(imm12 >> 7))
    }
}

fn h(hs: &[u16], e: Eff) -> Ins {
    (hs.to_vec(), e)
}

/// all encodings of single instructions
fn singles(v6: bool) -> Vec<Ins> {
    let mut v = vec![];
    for l in 1..512u32 {
        v.push(h(&[(0xb400 | l) as u16], Sp(4 * l.count_ones() as i64)));
        v.push(h(&[(0xbc00 | l) as u16], Sp(-4 * l.count_ones() as i64)));
    }
    for i in 0..128u16 {
        v.push(h(&[0xb080 | i], Sp(4 * i as i64)));
        v.push(h(&[0xb000 | i], Sp(-4 * i as i64)));
    }
    for i in 0..256u16 {
        // reads of SP: add rd, sp, #imm; ldr, str relative to SP
        for op in [0xa800u16, 0xaf00, 0x9000, 0x9f00] {
            v.push(h(&[op | i], Sp(0)));
        }
    }
    for r in 0..16u16 {
        if r != 13 {
            // mov sp, r; add sp, r
            if r != 15 {
                v.push(h(&[0x4685 | r << 3], Unknown));
                v.push(h(&[0x4485 | r << 3], Unknown));
            }
            // mov r, sp; add r, sp
            if r != 15 {
                v.push(h(&[0x4668 | (r & 7) | (r & 8) << 4], Sp(0)));
                v.push(h(&[0x4468 | (r & 7) | (r & 8) << 4], Sp(0)));
            }
        }
    }
    if v6 {
        return v;
    }
    for l in 1..0x8000u32 {
        // PC and SP cannot be stored; a single register has another encoding, but may occur
        if l & 0x2000 != 0 {
            continue;
        }
        v.push(h(&[0xe92d, l as u16], Sp(4 * l.count_ones() as i64)));
    }
    for l in [0x4010u16, 0x8010, 0x1ff0, 0x9ff0] {
        v.push(h(&[0xe8bd, l], Sp(-4 * l.count_ones() as i64)));
        // without writeback
        v.push(h(&[0xe90d, l & 0x7fff], Sp(0)));
        v.push(h(&[0xe88d, l & 0x7fff], Sp(0)));
        v.push(h(&[0xe89d, l], Sp(0)));
        // other base register
        v.push(h(&[0xe92c, l & 0x0fff], Sp(0)));
        v.push(h(&[0xe927, l & 0x4f7f], Sp(0)));
    }
    for x in 0..0x1000u32 {
        let (i, imm3, imm8) = ((x >> 11) as u16, ((x >> 8) & 7) as u16, (x & 0xff) as u16);
        let second = imm3 << 12 | imm8;
        for rd in [13u16, 0, 7, 12] {
            let eff = |n: i64| if rd == 13 { Sp(n) } else { Sp(0) };
            if let Some(n) = expand(x) {
                for s in 0..2u16 {
                    v.push(h(&[0xf1ad | i << 10 | s << 4, second | rd << 8], eff(n as i64)));
                    // upwards by no more than the frames that occur
                    if n < 0x10000 {
                        v.push(h(&[0xf10d | i << 10 | s << 4, second | rd << 8], eff(-(n as i64))));
                    }
                }
            }
            v.push(h(&[0xf2ad | i << 10, second | rd << 8], eff(x as i64)));
            v.push(h(&[0xf20d | i << 10, second | rd << 8], eff(-(x as i64))));
        }
        // cmp.w sp, #imm
        if expand(x).is_some() {
            v.push(h(&[0xf1bd | i << 10, second | 0xf00], Sp(0)));
        }
        // into SP from another register
        if x % 37 == 0 && expand(x).is_some() {
            v.push(h(&[0xf1a7 | i << 10, second | 0xd00], Unknown));
            v.push(h(&[0xf107 | i << 10, second | 0xd00], Unknown));
            v.push(h(&[0xf2a7 | i << 10, second | 0xd00], Unknown));
        }
    }
    for rm in [0u16, 1, 7, 12] {
        v.push(h(&[0xebad, 0x0d00 | rm], Unknown));
        v.push(h(&[0xeb0d, 0x0d00 | rm], Unknown));
        v.push(h(&[0xebad, 0x0700 | rm], Sp(0)));
        v.push(h(&[0xeb0d, 0x0700 | rm], Sp(0)));
        v.push(h(&[0xea4f, 0x0d00 | rm], Unknown));
    }
    // ldr.w sp, [r0, #4]; [r0], #4; [r0, r1]; literal
    v.push(h(&[0xf8d0, 0xd004], Unknown));
    v.push(h(&[0xf850, 0xdb04], Unknown));
    v.push(h(&[0xf850, 0xd001], Unknown));
    v.push(h(&[0xf8df, 0xd004], Unknown));
    // vpush / vpop: double and single registers
    for vd in 0..32u16 {
        for n in 1..=16u16.min(32 - vd) {
            let (d, x) = (vd >> 4, vd & 15);
            v.push(h(&[0xed2d | d << 6, 0x0b00 | x << 12 | 2 * n], Sp(8 * n as i64)));
            v.push(h(&[0xecbd | d << 6, 0x0b00 | x << 12 | 2 * n], Sp(-8 * n as i64)));
        }
        for n in 1..=32 - vd {
            let (d, x) = (vd & 1, vd >> 1);
            v.push(h(&[0xed2d | d << 6, 0x0a00 | x << 12 | n], Sp(4 * n as i64)));
            v.push(h(&[0xecbd | d << 6, 0x0a00 | x << 12 | n], Sp(-4 * n as i64)));
        }
    }
    // single loads and stores: word, byte, halfword (signed loads, too)
    for (st, sp) in [(0xf84du16, 4), (0xf80d, 1), (0xf82d, 2), (0xf85d, 4), (0xf81d, 1), (0xf83d, 2), (0xf91d, 1), (0xf93d, 2)] {
        let _ = sp;
        for i in 0..256u16 {
            for rt in [0u16, 4, 12] {
                let lo = if i == 0 { 0 } else { i as i64 };
                v.push(h(&[st, rt << 12 | 0x0d00 | i], Sp(lo)));
                v.push(h(&[st, rt << 12 | 0x0900 | i], Sp(lo)));
                v.push(h(&[st, rt << 12 | 0x0f00 | i], Sp(-lo)));
                v.push(h(&[st, rt << 12 | 0x0b00 | i], Sp(-lo)));
                // no writeback; unprivileged
                v.push(h(&[st, rt << 12 | 0x0c00 | i], Sp(0)));
                v.push(h(&[st, rt << 12 | 0x0e00 | i], Sp(0)));
                // another base register
                v.push(h(&[(st & 0xfff0) | 7, rt << 12 | 0x0d00 | i], Sp(0)));
            }
        }
        // 12-bit offset
        v.push(h(&[st | 0x80, 0x4d04], Sp(0)));
        v.push(h(&[st | 0x80, 0x0d0f], Sp(0)));
    }
    for i in 0..256u16 {
        let n = 4 * i as i64;
        for (op, e) in [(0xe96du16, Sp(n)), (0xe86d, Sp(n)), (0xe9ed, Sp(-n)), (0xe8ed, Sp(-n)), (0xe94d, Sp(0)), (0xe9cd, Sp(0)), (0xe967, Sp(0))] {
            v.push(h(&[op, 0x0100 | i], e));
            v.push(h(&[op | 0x10, 0x0100 | i], e));
        }
    }
    v
}

fn core(v6: bool) -> Vec<Ins> {
    let mut v = vec![
        h(&[0xb410], Sp(4)),
        h(&[0xb5f0], Sp(20)),
        h(&[0xb081], Sp(4)),
        h(&[0xb0ff], Sp(508)),
        h(&[0xbc10], Sp(-4)),
        h(&[0xb001], Sp(-4)),
        h(&[0xb07f], Sp(-508)),
        h(&[0x466f], Sp(0)),
        h(&[0xbf00], Sp(0)),
        h(&[0x46bd], Unknown),
    ];
    if !v6 {
        v.extend([
            h(&[0xe92d, 0x41f0], Sp(24)),
            h(&[0xe8bd, 0x41f0], Sp(-24)),
            h(&[0xf5ad, 0x6d80], Sp(1024)),
            h(&[0xf50d, 0x6d80], Sp(-1024)),
            h(&[0xed2d, 0x8b10], Sp(64)),
            h(&[0xecbd, 0x8b10], Sp(-64)),
            h(&[0xf84d, 0x0d08], Sp(8)),
            h(&[0xf85d, 0x0b08], Sp(-8)),
        ]);
    }
    v
}

/// in-function branches (to the next instruction or to themselves)
fn inside(v6: bool) -> Vec<Ins> {
    let mut v = vec![h(&[0xe7ff], Inside), h(&[0xd0ff], Inside), h(&[0xe7fe], Inside), h(&[0xd8fe], Inside), h(&[0x4487], Inside)];
    if !v6 {
        v.extend([
            h(&[0xb100], Inside),
            h(&[0xb900], Inside),
            h(&[0xf000, 0xb800], Inside),
            h(&[0xf000, 0x8000], Inside),
            h(&[0xf43f, 0xaffe], Inside),
            h(&[0xf7ff, 0xbffe], Inside),
            h(&[0xe8df, 0xf000], Inside),
            h(&[0xe8d1, 0xf012], Inside),
        ]);
    }
    v
}

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Range(u64, u64),
    Unknown,
    /// either unknown or in the range
    Any(u64, u64),
}

fn want(seq: &[Ins]) -> Want {
    let mut depth = 0i64;
    let mut peak = 0i64;
    let mut sum = 0i64;
    let mut unknown = false;
    let mut branch = false;
    for (_, e) in seq {
        match e {
            Sp(n) => {
                depth += n;
                peak = peak.max(depth);
                sum += (*n).max(0);
            }
            Unknown => unknown = true,
            Inside => branch = true,
        }
    }
    if branch && !unknown {
        return if sum == 0 { Want::Range(0, 0) } else { Want::Unknown };
    }
    if unknown {
        return Want::Unknown;
    }
    Want::Range(peak as u64, sum as u64)
}

fn sweep(ctx: &Ctx, space: &str, v6: bool, all: &(dyn Fn(usize) -> Vec<Ins> + Sync), total: usize, tail: &'static [u16], with_data: bool) {
    let chunk = 2000;
    let n = (total + chunk - 1) / chunk;
    ctx.explore(
        space,
        0,
        |c| Some(c.pick(n)),
        |w, &k| {
            let mut im = Image::new(v6, 0x8000);
            let mut wants: BTreeMap<String, (Want, Vec<Ins>)> = BTreeMap::new();
            im.item(0x8000, "first", &RET);
            im.tag(0x8000, "$t");
            let mut a = 0x8004;
            for x in k * chunk..((k + 1) * chunk).min(total) {
                let s = all(x);
                let name = format!("t{}", x);
                let mut by: Vec<u8> = s.iter().flat_map(|i| hws(&i.0)).collect();
                if tail.is_empty() {
                    by.extend(enc_bl(0x8000 - (a + by.len() as i64) - 4, false));
                } else {
                    by.extend(hws(tail));
                }
                if with_data {
                    im.tag(a as u64 + by.len() as u64, "$d");
                    by.extend(hws(&[0xb5ff, 0xb0ff, 0xe92d, 0x4fff, 0xe7fe]));
                }
                im.item(a as u64, &name, &by);
                if with_data {
                    im.tag(a as u64, "$t");
                }
                a += (by.len() as i64 + 3) / 4 * 4;
                wants.insert(name, (want(&s), s));
            }
            let r = im.run(w);
            let g = match r.graph() {
                Some(g) => g,
                None => {
                    let bug = r.stderr.lines().find(|l| l.contains("BUG")).unwrap_or("").to_string();
                    let name = bug.split('`').nth(1).unwrap_or("").to_string();
                    return fail("no-graph", format!("no graph: {} {} {:x?}", r.brief(), bug, wants.get(&name)));
                }
            };
            for node in &g.nodes {
                if let Some((want, s)) = wants.get(&node.name) {
                    let ok = match want {
                        Want::Range(lo, hi) => node.local.map(|l| *lo <= l && l <= *hi).unwrap_or(false),
                        Want::Unknown => node.local.is_none(),
                        Want::Any(lo, hi) => node.local.map(|l| *lo <= l && l <= *hi).unwrap_or(true),
                    };
                    if !ok {
                        return fail("local", format!("{:x?} (then {:x?}): local {:?}, expected {:?}", s, tail, node.local, want));
                    }
                }
            }
            let n = g.nodes.iter().filter(|n| wants.contains_key(&n.name)).count();
            if n != wants.len() {
                return fail("nodes", format!("{} of {} functions", n, wants.len()));
            }
            Ok(format!("{} {:?}", space, k))
        },
    );
    ctx.add("functions", total as u64);
    ctx.model(total as u64, total as u64);
}

/// every branch encoding that can reach from byte offset `at` to `to`
fn branches(at: i64, to: i64, v6: bool) -> Vec<Vec<u16>> {
    let off = to - at - 4;
    let mut v = vec![];
    if (-256..=254).contains(&off) {
        v.push(vec![0xd100 | ((off >> 1) & 0xff) as u16]);
    }
    if (-2048..=2046).contains(&off) {
        v.push(vec![0xe000 | ((off >> 1) & 0x7ff) as u16]);
    }
    if v6 {
        return v;
    }
    if (0..=126).contains(&off) {
        let i = ((off >> 6) & 1) as u16;
        let imm5 = ((off >> 1) & 31) as u16;
        v.push(vec![0xb100 | i << 9 | imm5 << 3 | 1]);
        v.push(vec![0xb900 | i << 9 | imm5 << 3 | 7]);
    }
    let wide: Vec<u16> = enc_bl(off, false).chunks(2).map(|b| u16::from_le_bytes([b[0], b[1]])).collect();
    v.push(wide);
    let bit = |n: i64| ((off >> n) & 1) as u16;
    v.push(vec![0xf000 | bit(20) << 10 | 3 << 6 | ((off >> 12) & 0x3f) as u16, 0x8000 | bit(18) << 13 | bit(19) << 11 | ((off >> 1) & 0x7ff) as u16]);
    v
}

/// branches from everywhere to everywhere in functions of `total` halfwords, and out of them
fn targets(ctx: &Ctx, v6: bool) {
    let lens: Vec<usize> = if ctx.thorough { vec![8, 10, 12, 14, 20, 32, 140, 150, 1100] } else { vec![8, 12, 140, 1100] };
    let v = if v6 { "V6" } else { "V7" };
    let count = std::sync::atomic::AtomicU64::new(0);
    ctx.explore(
        &format!("targets-{}", v),
        0,
        |c| {
            let total = *c.of(&lens);
            let frame = c.flag();
            let positions: Vec<usize> = if total <= 32 { (1..total - 3).collect() } else { vec![1, 2, total / 2, total - 5, total - 4] };
            Some((total, frame, *c.of(&positions)))
        },
        |w, &(total, frame, pos)| {
            let mut im = Image::new(v6, 0x8000);
            im.item(0x8000, "first", &RET);
            im.tag(0x8000, "$t");
            let mut wants: BTreeMap<String, (Want, Vec<u16>)> = BTreeMap::new();
            let mut a = 0x8004i64;
            let near: Vec<i64> = [0i64, pos as i64, total as i64].iter().flat_map(|m| (m - 3..=m + 3).collect::<Vec<_>>()).collect();
            let to: Vec<i64> = (0..=total as i64).filter(|t| total <= 32 || near.contains(t) || (t - pos as i64).abs() % 63 < 4).collect();
            for t in to.into_iter().map(Some).chain([None]) {
                let at = a + 2 * pos as i64;
                // (the offset stays the same wherever the function is, but for the function in front)
                let n = branches(at, t.map(|t| a + 2 * t).unwrap_or(0x8000), v6).len();
                for k in 0..n {
                    let at = a + 2 * pos as i64;
                    let code = match branches(at, t.map(|t| a + 2 * t).unwrap_or(0x8000), v6).into_iter().nth(k) {
                        Some(c) => c,
                        None => continue,
                    };
                    let mut hs = vec![0xbf00u16; total];
                    if frame {
                        hs[0] = 0xb410;
                        hs[total - 2] = 0xbc10;
                    }
                    hs[total - 1] = 0x4770;
                    hs[pos..pos + code.len()].copy_from_slice(&code);
                    let inside = matches!(t, Some(t) if t < total as i64);
                    if !inside && code[0] & 0xf500 == 0xb100 {
                        // CBZ can not be relocated: nothing makes it leave a function
                        continue;
                    }
                    let want = match (inside, frame) {
                        (_, false) => Want::Range(0, 0),
                        (false, true) => Want::Range(4, 4),
                        (true, true) => Want::Unknown,
                    };
                    let name = format!("t{}", wants.len());
                    im.item(a as u64, &name, &hws(&hs));
                    a += 2 * total as i64;
                    wants.insert(name, (want, code));
                }
            }
            im.item(a as u64, "last", &RET);
            let r = im.run(w);
            let g = match r.graph() {
                Some(g) => g,
                None => return fail("no-graph", format!("no graph: {}", r.brief())),
            };
            let mut n = 0;
            for node in &g.nodes {
                if let Some((want, code)) = wants.get(&node.name) {
                    n += 1;
                    let ok = match want {
                        Want::Range(lo, hi) => node.local.map(|l| *lo <= l && l <= *hi).unwrap_or(false),
                        _ => node.local.is_none(),
                    };
                    if !ok {
                        return fail("local", format!("{:x?} as halfword {} of {} ({}): local {:?}, expected {:?}", code, pos, total, node.name, node.local, want));
                    }
                }
            }
            if n != wants.len() {
                return fail("nodes", format!("{} of {} functions", n, wants.len()));
            }
            count.fetch_add(n as u64, std::sync::atomic::Ordering::Relaxed);
            Ok(format!("{} {} {} {}", total, frame, pos, n))
        },
    );
    let n = count.into_inner();
    ctx.add("functions", n);
    ctx.model(n, n);
}

pub fn check(ctx: &Ctx) {
    for v6 in [false, true] {
        targets(ctx, v6);
    }
    for v6 in [false, true] {
        let v = if v6 { "V6" } else { "V7" };
        let one = singles(v6);
        sweep(ctx, &format!("single-{}", v), v6, &|i| vec![one[i].clone()], one.len(), &[0x4770], false);
        // words made of the core instructions
        let ops = core(v6);
        let len = if ctx.thorough { 4 } else { 3 };
        let m = ops.len();
        sweep(ctx, &format!("sequences-{}", v), v6, &|i| word(&ops, i, len), m.pow(len as u32), &[0x4770], false);
        sweep(ctx, &format!("tail-call-{}", v), v6, &|i| word(&ops, i, 2), m * m, if v6 { &[0xbdf0] } else { &[] }, false);
        sweep(ctx, &format!("data-{}", v), v6, &|i| word(&ops, i, 2), m * m, &[0x4770], true);
        // one branch inside, at every position
        let br = inside(v6);
        let bn = br.len();
        sweep(
            ctx,
            &format!("branches-{}", v),
            v6,
            &|i| {
                let pos = i % 3;
                let b = (i / 3) % bn;
                let mut s = word(&ops, i / 3 / bn, 2);
                s.insert(pos, br[b].clone());
                s
            },
            3 * bn * m * m,
            // (a branch to the next instruction stays inside)
            &[0xbf00, 0xbf00, 0x4770],
            false,
        );
        // branches around nothing that lowers SP
        sweep(ctx, &format!("leaf-branches-{}", v), v6, &|i| vec![br[i % bn].clone(), h(&[0xbc10], Sp(-4)), br[i / bn].clone()], bn * bn, &[0xbf00, 0xbf00, 0x4770], false);
    }
    ctx.assume("stack switching by writing MSP or PSP (MSR) is out of scope; SP is moved downwards by the instructions an assembler emits for that");
    super::views::check(ctx, super::views::View::NoRecord);
}

fn word(ops: &[Ins], mut i: usize, len: usize) -> Vec<Ins> {
    let mut s = vec![];
    for _ in 0..len {
        s.push(ops[i % ops.len()].clone());
        i /= ops.len();
    }
    s
}
