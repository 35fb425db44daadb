//! C01: all labelled DAGs with up to N functions x all weight assignments, packed into programs.
use super::graphs::*;
use crate::ctx::Ctx;
use crate::world::Arch;

pub fn check(ctx: &Ctx) {
    let dags = |n: usize| -> Vec<u32> { (0..1u32 << (n * n)).filter(|&m| is_dag(n, m)).collect() };
    let full = [None, Some(0), Some(8), Some(16)];
    let small = [None, Some(8), Some(24)];
    for n in 1..=3 {
        for a in [Arch::A64, Arch::V7, Arch::V6, Arch::X64] {
            explore_graphs(ctx, &format!("dag{}-{:?}", n, a), a, n, &dags(n), &full, 16, Mode::Direct);
        }
    }
    let d4 = dags(4);
    explore_graphs(ctx, "dag4-A64", Arch::A64, 4, &d4, &full, 40, Mode::Direct);
    explore_graphs(ctx, "dag4-V7", Arch::V7, 4, &d4, &small, 24, Mode::Direct);
    // edges realized by function pointers (fictitious nodes of zero size in between)
    explore_graphs(ctx, "dag3-indirect", Arch::A64, 3, &dags(3), &full, 1, Mode::Indirect);
    // large weights: sums beyond 32 bits
    let big = [None, Some(1 << 31), Some((1 << 33) + 8), Some(1)];
    explore_graphs(ctx, "dag3-big", Arch::A64, 3, &dags(3), &big, 16, Mode::Direct);
    // one long chain / wide fan per program: depth and width far beyond the enumerated sizes
    explore_shapes(ctx);
    if ctx.thorough {
        explore_graphs(ctx, "dag4-V7-full", Arch::V7, 4, &d4, &full, 24, Mode::Direct);
        let d5: Vec<u32> = {
            // DAGs on 5 vertices, self loops impossible: enumerate the 20 off-diagonal bits
            let pairs: Vec<u32> = (0..5).flat_map(|i| (0..5).filter(move |&j| j != i).map(move |j| (i * 5 + j) as u32)).collect();
            (0..1u32 << 20)
                .map(|b| pairs.iter().enumerate().filter(|(k, _)| b >> k & 1 == 1).map(|(_, p)| 1 << p).sum::<u32>())
                .filter(|&m| is_dag(5, m))
                .collect()
        };
        explore_graphs(ctx, "dag5-A64", Arch::A64, 5, &d5, &[None, Some(8), Some(24)], 60, Mode::Direct);
    }
    ctx.assume("programs are synthetic artifacts (executable, object, IR, archive) as rustc/LLD lay them out; the build itself is played by a stand-in");
    super::views::check(ctx, super::views::View::Acyclic);
}
