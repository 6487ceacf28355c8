use crate::ctx::*;
use crate::ensure;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use rusty_genes::*;
use std::collections::HashMap;

type G = u32;
#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Direct, Strategy }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Swap, Scramble, Inversion, Insertion, Duplicate }
fn apply(op: Op, how: How, g: &mut [G], rng: &mut EdgeRng) {
    match (op, how) {
        (Op::Swap, How::Direct) => swap_mutation(g, rng), (Op::Scramble, How::Direct) => scramble_mutation(g, rng),
        (Op::Inversion, How::Direct) => inversion_mutation(g, rng), (Op::Insertion, How::Direct) => insertion_mutation(g, rng),
        (Op::Duplicate, How::Direct) => duplicate_mutation(g, rng),
        (Op::Swap, _) => MutationStrategy::Swap.mutate(g, rng), (Op::Scramble, _) => MutationStrategy::Scramble.mutate(g, rng),
        (Op::Inversion, _) => MutationStrategy::Inversion.mutate(g, rng), (Op::Insertion, _) => MutationStrategy::Insertion.mutate(g, rng),
        (Op::Duplicate, _) => MutationStrategy::Duplicate.mutate(g, rng),
    }
}
pub fn effect_ok(op: Op, a: &[G], b: &[G]) -> Result<(), String> {
    let n = a.len();
    ensure!(b.len() == n, "length changed");
    if n < 2 { ensure!(a == b, "short genome changed to {b:?}"); return Ok(()) }
    let first = (0..n).find(|&i| a[i] != b[i]); let last = (0..n).rev().find(|&i| a[i] != b[i]);
    if op != Op::Duplicate { let (mut x, mut y) = (a.to_vec(), b.to_vec()); x.sort(); y.sort(); ensure!(x == y, "genes changed: {b:?}"); }
    // with repeated genes a valid choice may change nothing, or less than the whole segment
    let ok = match op {
        Op::Scramble => true,
        Op::Swap => { let d: Vec<usize> = (0..n).filter(|&i| a[i] != b[i]).collect(); match d.len() { 0 => (0..n).any(|i| (i + 1..n).any(|j| a[i] == a[j])), 2 => a[d[0]] == b[d[1]] && a[d[1]] == b[d[0]], _ => false } }
        Op::Inversion | Op::Insertion => {
            let (lo, hi) = match (first, last) { (Some(f), Some(l)) => (f, l), _ => (n, 0) };
            let test = |s: usize, e: usize| { let mut c = a.to_vec(); if op == Op::Inversion { c[s..e].reverse() } else { c[s..e].rotate_right(1) } c == b };
            if lo <= hi && (test(lo, hi + 1) || lo == hi) { lo != hi } else { (0..n).any(|s| s <= lo && (s + 2..=n).any(|e| e > hi && test(s, e))) }
        }
        Op::Duplicate => match (first, last) { (Some(f), Some(l)) => f == l && (0..n).any(|i| i != f && a[i] == b[f]), _ => (0..n).any(|i| (i + 1..n).any(|j| a[i] == a[j])) },
    };
    ensure!(ok, "{op:?} turned {a:?} into {b:?}");
    Ok(())
}
fn run(ctx: &mut Ctx, ops: &[Op]) {
    let one = |ctx: &mut Ctx, g: &[G]| for &op in ops { for how in [How::Direct, How::Strategy] {
        let (seed, edge): (u64, u32) = (ctx.rng.gen(), ctx.rng.gen_range(0..6));
        ctx.case(|| format!("{op:?} {how:?} genome={g:?} rng={seed}/{edge}"), || { let mut h = g.to_vec(); apply(op, how, &mut h, &mut EdgeRng::new(seed, edge)); effect_ok(op, g, &h) });
    } };
    for n in 0..9usize { for _ in 0..60 { one(ctx, &(0..n as u32).map(|x| x * 3 + 1).collect::<Vec<_>>()) } }
    // no choice may be systematically missing: over many draws every effect of the statement occurs on a short genome
    for &op in ops { for how in [How::Direct, How::Strategy] { for n in 2..5usize {
        ctx.case(|| format!("{op:?} {how:?}: 4000 draws on {n} distinct genes"), || {
            let base: Vec<G> = (0..n as u32).collect();
            let mut seen: HashMap<Vec<G>, u32> = HashMap::new();
            let mut g = EdgeRng::new(77, 0);
            for _ in 0..4000 { let mut h = base.clone(); apply(op, how, &mut h, &mut g); effect_ok(op, &base, &h)?; *seen.entry(h).or_default() += 1; }
            let changed = seen.iter().filter(|(k, _)| **k != base).count();
            ensure!(changed > 0, "never changes anything");
            Ok(())
        });
    } } }
    while ctx.more() {
        let big = ctx.rarely(40);
        let n = if big { ctx.rng.gen_range(300..4000) } else { ctx.size(0, 300) };
        let g: Vec<G> = if ctx.rng.gen() { let o: u32 = ctx.rng.gen_range(0..1000); (0..n as u32).map(|x| x * 7 + o).collect() } else { let m = ctx.rng.gen_range(1..5); (0..n).map(|_| ctx.rng.gen_range(0..m)).collect() };
        if !big && n > 60 && ctx.rng.gen_range(0..4) != 0 { continue }
        one(ctx, &g);
    }
}
pub fn c09(ctx: &mut Ctx) { run(ctx, &[Op::Swap, Op::Scramble, Op::Inversion, Op::Insertion]) }
pub fn c10(ctx: &mut Ctx) { run(ctx, &[Op::Duplicate]) }

fn even(name: &str, n: usize, counts: &HashMap<(usize, usize), u32>, want: &[((usize, usize), f64)]) -> Result<(), String> {
    let total: u32 = counts.values().sum();
    for (k, p) in want {
        let e = total as f64 * p; let c = counts.get(k).copied().unwrap_or(0) as f64;
        ensure!((c - e).abs() <= 8.0 * e.sqrt() + 8.0, "{name} n={n}: {k:?} occurred {c} times in {total}, expected about {e}");
    }
    for k in counts.keys() { ensure!(want.iter().any(|w| w.0 == *k), "{name} n={n}: impossible outcome {k:?}"); }
    Ok(())
}
pub fn c11(ctx: &mut Ctx) {
    for n in [0usize, 1] { ctx.case(|| format!("random_pair({n})"), || { ensure!(panics(|| random_pair(n, &mut EdgeRng::new(1, 0))), "accepted"); Ok(()) }); }
    ctx.case(|| "random_range(0)".into(), || { ensure!(panics(|| random_range(0, &mut EdgeRng::new(1, 0))), "accepted"); Ok(()) });
    for (n, a, b) in [(5usize, 3usize, 2usize), (5, 1, 0), (9, 9, 1), (3, 3, 2), (100, 64, 63)] { ctx.case(|| format!("bounded_random_range({n},{a},{b})"), || { ensure!(panics(|| bounded_random_range(n, a, b, &mut EdgeRng::new(1, 0))), "accepted"); Ok(()) }); }
    for n in 2..8usize { ctx.case(|| format!("distribution of random_pair({n})"), || {
        let mut g = SmallRng::seed_from_u64(5); let mut c = HashMap::new();
        for _ in 0..60_000 { *c.entry(random_pair(n, &mut g)).or_default() += 1 }
        let w: Vec<_> = (0..n).flat_map(|i| (0..n).filter(move |&j| j != i).map(move |j| ((i, j), 1.0 / (n * (n - 1)) as f64))).collect();
        even("random_pair", n, &c, &w)
    }); }
    for n in 1..8usize { for lo in 0..=n { for hi in lo..=n {
        if !ctx.more() { break }
        ctx.case(|| format!("distribution of bounded_random_range({n},{lo},{hi})"), || {
            let mut g = SmallRng::seed_from_u64(6); let mut c = HashMap::new();
            for _ in 0..20_000 { let r = bounded_random_range(n, lo, hi, &mut g); *c.entry((r.start, r.end)).or_default() += 1 }
            let w: Vec<_> = (lo..=hi).flat_map(|l| (0..=n - l).map(move |s| ((s, s + l), 1.0 / (hi - lo + 1) as f64 / (n - l + 1) as f64))).collect();
            even("bounded_random_range", n, &c, &w)
        });
    } }
        ctx.case(|| format!("distribution of random_range({n})"), || {
            let mut g = SmallRng::seed_from_u64(7); let mut c = HashMap::new();
            for _ in 0..20_000 { let r = random_range(n, &mut g); *c.entry((r.start, r.end)).or_default() += 1 }
            let w: Vec<_> = (1..=n).flat_map(|l| (0..=n - l).map(move |s| ((s, s + l), 1.0 / n as f64 / (n - l + 1) as f64))).collect();
            even("random_range", n, &c, &w)
        });
    }
    // longer genomes: every length of the allowed range is drawn equally often, and starts lean to neither side
    let spread = |ctx: &mut Ctx, n: usize, lo: usize, hi: usize, seed: u64, whole: bool| ctx.case(|| format!("spread of {}({n}{}) over 4000 draws, rng={seed}", if whole { "random_range" } else { "bounded_random_range" }, if whole { String::new() } else { format!(",{lo},{hi}") }), || {
        let mut g = SmallRng::seed_from_u64(seed); let k = hi - lo + 1; let groups = k.min(8); let draws = 4000usize;
        let group = |l: usize| ((l - lo) as u128 * groups as u128 / k as u128) as usize;
        let mut count = vec![0f64; groups]; let (mut mean, mut free) = (0.0, 0usize);
        for _ in 0..draws {
            let r = if whole { random_range(n, &mut g) } else { bounded_random_range(n, lo, hi, &mut g) };
            ensure!(r.start <= r.end && r.end <= n && (lo..=hi).contains(&(r.end - r.start)), "returned {r:?}");
            count[group(r.end - r.start)] += 1.0;
            if r.end - r.start < n { mean += (r.start as f64 + 0.5) / ((n - (r.end - r.start)) as f64 + 1.0); free += 1 }
        }
        for (j, c) in count.iter().enumerate() {
            let first = (j as u128 * k as u128).div_ceil(groups as u128) as usize; let next = ((j + 1) as u128 * k as u128).div_ceil(groups as u128) as usize;
            let e = draws as f64 * (next - first) as f64 / k as f64;
            ensure!((c - e).abs() <= 8.0 * e.sqrt(), "lengths {} to {} occurred {c} times, expected about {e}", lo + first, lo + next - 1);
        }
        if free > 100 { let m = mean / free as f64; ensure!((m - 0.5).abs() <= 8.0 * (1.0 / 12.0 / free as f64).sqrt(), "the starts are spread about {m} of the way instead of one half"); }
        Ok(())
    });
    while ctx.more() {
        if ctx.rarely(40) {
            let n = match ctx.rng.gen_range(0..4) { 0 => ctx.size(1, 300), 1 => ctx.size(1, 5000), 2 => ctx.rng.gen_range(8..400), _ => ctx.rng.gen_range(1..1 << 40) };
            let lo = ctx.below(n + 1); let few = if ctx.rng.gen() { 6 } else { usize::MAX }; let hi = lo + ctx.below((n - lo + 1).min(few));
            let seed: u64 = ctx.rng.gen();
            if ctx.rng.gen_range(0..4) == 0 { spread(ctx, n, 1, n, seed, true) } else { spread(ctx, n, lo, hi, seed, false) }
            if n >= 2 { ctx.case(|| format!("spread of random_pair({n}) over 4000 draws, rng={seed}"), || {
                let mut g = SmallRng::seed_from_u64(seed); let (mut a, mut b, mut up) = (0.0, 0.0, 0.0);
                for _ in 0..4000 { let (x, y) = random_pair(n, &mut g); a += (x as f64 + 0.5) / n as f64 / 4000.0; b += (y as f64 + 0.5) / n as f64 / 4000.0; if x < y { up += 1.0 / 4000.0 } }
                ensure!((a - 0.5f64).abs() <= 0.04 && (b - 0.5f64).abs() <= 0.04 && (up - 0.5f64).abs() <= 0.065, "the first position is spread about {a}, the second about {b} of the way, and {up} of the pairs ascend"); Ok(())
            }); }
            continue;
        }
        let n = match ctx.rng.gen_range(0..8) { 0 => usize::MAX, 1 => usize::MAX - 1, 2 => 1 << 63, 3 => 1 << 32, _ => ctx.size(0, 100_000) };
        let (seed, edge): (u64, u32) = (ctx.rng.gen(), ctx.rng.gen_range(0..6));
        if n >= 2 { ctx.case(|| format!("random_pair({n}) rng={seed}/{edge}"), || { let (a, b) = random_pair(n, &mut EdgeRng::new(seed, edge)); ensure!(a < n && b < n && a != b, "returned ({a},{b})"); Ok(()) }); }
        if n >= 1 { ctx.case(|| format!("random_range({n}) rng={seed}/{edge}"), || { let r = random_range(n, &mut EdgeRng::new(seed, edge)); ensure!(r.start < r.end && r.end <= n, "returned {r:?}"); Ok(()) }); }
        let a = if n == usize::MAX { ctx.size(0, 100) } else { ctx.below(n + 1) }; let b = if n - a == usize::MAX { n } else { a + ctx.below(n - a + 1) };
        if a == 0 && b == usize::MAX { continue }
        ctx.case(|| format!("bounded_random_range({n},{a},{b}) rng={seed}/{edge}"), || { let r = bounded_random_range(n, a, b, &mut EdgeRng::new(seed, edge)); ensure!(r.start <= r.end && r.end <= n && r.end - r.start >= a && r.end - r.start <= b, "returned {r:?}"); Ok(()) });
    }
}
