//! C02: all digraphs up to N functions (with self loops) x weights; values against an independent
//! reference and, for soundness, against the explicit call-stack machine.
use super::graphs::*;
use crate::ctx::Ctx;
use crate::world::Arch;

pub fn check(ctx: &Ctx) {
    let all = |n: usize| -> Vec<u32> { (0..1u32 << (n * n)).collect() };
    let full = [None, Some(0), Some(8), Some(16)];
    for a in [Arch::A64, Arch::V7, Arch::V6, Arch::X64] {
        for n in 1..=2 {
            explore_graphs(ctx, &format!("dig{}-{:?}", n, a), a, n, &all(n), &full, 1, Mode::Direct);
        }
    }
    explore_graphs(ctx, "dig3-single", Arch::A64, 3, &all(3), &[None, Some(0), Some(8)], 1, Mode::Direct);
    explore_graphs(ctx, "dig3-A64", Arch::A64, 3, &all(3), &full, 12, Mode::Direct);
    explore_graphs(ctx, "dig3-V7", Arch::V7, 3, &all(3), &[None, Some(0), Some(8)], 16, Mode::Direct);
    explore_graphs(ctx, "dig2-indirect", Arch::A64, 2, &all(2), &full, 1, Mode::Indirect);
    // 4 functions without self loops
    let diag = 1u32 | 1 << 5 | 1 << 10 | 1 << 15;
    let d4: Vec<u32> = (0..1u32 << 16).filter(|m| m & diag == 0).collect();
    explore_graphs(ctx, "dig4-A64", Arch::A64, 4, &d4, &[Some(8), Some(0)], 64, Mode::Direct);
    if ctx.thorough {
        explore_graphs(ctx, "dig4-unk-A64", Arch::A64, 4, &d4, &[None, Some(0), Some(8)], 64, Mode::Direct);
        let d4: Vec<u32> = (0..1u32 << 16).collect();
        explore_graphs(ctx, "dig4-self-A64", Arch::A64, 4, &d4, &[Some(8), Some(0)], 64, Mode::Direct);
        explore_graphs(ctx, "dig3-V7-full", Arch::V7, 3, &all(3), &full, 16, Mode::Direct);
        explore_graphs(ctx, "dig3-indirect", Arch::A64, 3, &all(3), &[None, Some(0), Some(8)], 1, Mode::Indirect);
    }
    explore_cycle_shapes(ctx);
    ctx.assume("programs are synthetic artifacts (executable, object, IR, archive) as rustc/LLD lay them out; the build itself is played by a stand-in");
    super::views::check(ctx, super::views::View::Cycles);
}
