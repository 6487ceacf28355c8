use crate::ctx::*;
use crate::ensure;
use rand::seq::SliceRandom;
use rand::Rng;
use rusty_genes::*;
use std::collections::{HashMap, HashSet};
use std::ops::Range;

type G = u32;
fn pos(s: &[G], g: G) -> usize { s.iter().position(|&x| x == g).unwrap() }
pub fn is_perm(a: &[G], b: &[G]) -> bool { let (mut a, mut b) = (a.to_vec(), b.to_vec()); a.sort(); b.sort(); a == b }

/// every pair of permutations up to length n, then random longer ones
fn pairs(ctx: &mut Ctx, exhaustive: usize, max: usize, mut f: impl FnMut(&mut Ctx, &[G], &[G])) {
    let label = [40u32, 7, 93, 12, 55, 31, 2, 78];
    for n in 0..=exhaustive {
        let ps = perms(n);
        for a in &ps { for b in &ps {
            if !ctx.more() { return }
            // beyond length 4 the first parent runs over a sample only
            if n >= 5 && (a.iter().fold(0usize, |h, &x| h * 31 + x + 1) % 8 != 0) { continue }
            let p1: Vec<G> = a.iter().map(|&i| label[i]).collect();
            let p2: Vec<G> = b.iter().map(|&i| label[i]).collect();
            f(ctx, &p1, &p2);
        } }
    }
    while ctx.more() {
        let n = if max >= 100 && ctx.rarely(60) { ctx.rng.gen_range(500..1500) } else { ctx.size(0, max) };
        let (p1, p2) = random_parents(ctx, n);
        f(ctx, &p1, &p2);
    }
}
fn random_parents(ctx: &mut Ctx, n: usize) -> (Vec<G>, Vec<G>) {
    let mut p1 = distinct(ctx, n);
    let mut p2 = p1.clone();
    match ctx.rng.gen_range(0..8) {
        0 => {}
        1 => p2.reverse(),
        2 if n > 0 => { let k = ctx.rng.gen_range(0..n); p2.rotate_left(k) }
        3 if n > 1 => for _ in 0..ctx.rng.gen_range(1..4) { let (i, j) = (ctx.rng.gen_range(0..n), ctx.rng.gen_range(0..n)); p2.swap(i, j) },
        4 if n > 1 => { let (i, j) = (ctx.rng.gen_range(0..n), ctx.rng.gen_range(0..n)); p2[i.min(j)..=i.max(j)].reverse() }
        _ => p2.shuffle(&mut ctx.rng),
    }
    if ctx.rng.gen() { std::mem::swap(&mut p1, &mut p2) }
    (p1, p2)
}
fn distinct(ctx: &mut Ctx, n: usize) -> Vec<G> {
    let mut v: Vec<G> = match ctx.rng.gen_range(0..4) {
        0 => (0..n as u32).collect(),
        1 => (0..n as u32).map(|i| u32::MAX - i).collect(),
        _ => { let mut s = HashSet::new(); while s.len() < n { s.insert(if ctx.rng.gen() { ctx.rng.gen() } else { ctx.rng.gen_range(0..(4 * n as u32 + 4)) }); } let mut v: Vec<_> = s.into_iter().collect(); v.sort(); v }
    };
    if ctx.rng.gen_range(0..8) != 0 { v.shuffle(&mut ctx.rng) }
    v
}
fn unequal(ctx: &mut Ctx, name: &'static str, f: impl Fn(&[G], &[G])) {
    for a in 0..6usize { for b in 0..6usize { if a != b {
        let p1: Vec<G> = (0..a as u32).collect(); let p2: Vec<G> = (0..b as u32).collect();
        ctx.case(|| format!("{name} of parents with different lengths {p1:?} {p2:?}"), || { ensure!(panics(|| f(&p1, &p2)), "accepted parents of different lengths"); Ok(()) });
    } } }
    for _ in 0..40 {
        let a = ctx.size(0, 300); let b = ctx.size(0, 300);
        if a != b { let p1: Vec<G> = (0..a as u32).collect(); let p2: Vec<G> = (0..b as u32).collect();
            ctx.case(|| format!("{name} of parents with lengths {a} and {b}"), || { ensure!(panics(|| f(&p1, &p2)), "accepted parents of different lengths"); Ok(()) }); }
    }
}
fn pivots(ctx: &mut Ctx, p1: &[G]) -> Vec<G> {
    if p1.len() <= 6 { p1.to_vec() } else { let i = ctx.below(p1.len()); vec![p1[i], p1[ctx.rng.gen_range(0..p1.len())]] }
}
fn ranges(ctx: &mut Ctx, n: usize) -> Vec<Range<usize>> {
    if n <= 5 { let mut v = vec![]; for a in 0..=n { for b in a..=n { v.push(a..b) } } v }
    else { (0..3).map(|_| { let (a, b) = (ctx.below(n + 1), ctx.below(n + 1)); match ctx.rng.gen_range(0..6) { 0 => 0..b, 1 => a..n, 2 => a..a, _ => a.min(b)..a.max(b) } }).collect() }
}

pub fn scx(p1: &[G], p2: &[G], pivot: G) -> Vec<G> {
    let n = p1.len();
    if n < 2 { return p1.to_vec() }
    let mut out = vec![pivot];
    while out.len() < n {
        let c = *out.last().unwrap();
        let n1 = p1[(pos(p1, c) + 1) % n]; let n2 = p2[(pos(p2, c) + 1) % n];
        out.push(match (out.contains(&n1), out.contains(&n2)) {
            (true, true) => *p1.iter().find(|g| !out.contains(g)).unwrap(),
            (true, false) => n2, (false, true) => n1,
            _ => if pos(p2, n1) < pos(p1, n2) { n1 } else { n2 },
        });
    }
    out
}
pub fn c01(ctx: &mut Ctx) {
    unequal(ctx, "sequential constructive crossover", |a, b| { sequential_constructive_crossover(a, b, 0); });
    ctx.case(|| "empty parents".into(), || { ensure!(sequential_constructive_crossover::<G>(&[], &[], 3).is_empty(), "not empty"); Ok(()) });
    pairs(ctx, 5, 300, |ctx, p1, p2| for g in pivots(ctx, p1) {
        ctx.case(|| format!("p1={p1:?} p2={p2:?} start={g}"), || {
            let (r, e) = (sequential_constructive_crossover(p1, p2, g), scx(p1, p2, g));
            ensure!(r == e, "returned {r:?}, the rule gives {e:?}"); Ok(())
        });
    });
}
/// the edge recombination rule, which leaves ties open
pub fn erx_ok(p1: &[G], p2: &[G], pivot: Option<G>, r: &[G]) -> Result<(), String> {
    let n = p1.len();
    if n < 2 { ensure!(r == p1, "changed a short genome: {r:?}"); return Ok(()) }
    ensure!(is_perm(r, p1), "not a permutation of the parents' genes: {r:?}");
    if let Some(p) = pivot { ensure!(r[0] == p, "starts with {} instead of {p}", r[0]); }
    let mut nb: HashMap<G, HashSet<G>> = HashMap::new();
    for p in [p1, p2] { for i in 0..n { let e = nb.entry(p[i]).or_default(); e.insert(p[(i + n - 1) % n]); e.insert(p[(i + 1) % n]); } }
    let mut used = HashSet::new();
    for i in 1..n {
        let (c, x) = (r[i - 1], r[i]);
        used.insert(c);
        let free = |g: &G| nb[g].iter().filter(|h| !used.contains(h)).count();
        let cand: Vec<G> = nb[&c].iter().copied().filter(|g| !used.contains(g)).collect();
        if cand.is_empty() { let f = *p1.iter().find(|g| !used.contains(g)).unwrap(); ensure!(x == f, "position {i}: {x} instead of the first unused gene {f} in {r:?}"); }
        else { ensure!(cand.contains(&x), "position {i}: {x} is not an unused neighbour of {c} in {r:?}");
            let m = cand.iter().map(free).min().unwrap(); ensure!(free(&x) == m, "position {i}: {x} has {} unused neighbours, another choice {m}, in {r:?}", free(&x)); }
    }
    Ok(())
}
pub fn c02(ctx: &mut Ctx) {
    unequal(ctx, "edge recombination crossover", |a, b| { edge_recombination_crossover(a, b, 0); });
    ctx.case(|| "empty parents".into(), || { ensure!(edge_recombination_crossover::<G>(&[], &[], 3).is_empty(), "not empty"); Ok(()) });
    pairs(ctx, 5, 150, |ctx, p1, p2| for g in pivots(ctx, p1) {
        ctx.case(|| format!("p1={p1:?} p2={p2:?} start={g}"), || erx_ok(p1, p2, Some(g), &edge_recombination_crossover(p1, p2, g)));
    });
}
pub fn pmx(p1: &[G], p2: &[G], r: Range<usize>) -> Vec<G> {
    if p1.len() < 2 { return p1.to_vec() }
    (0..p1.len()).map(|i| if r.contains(&i) { p1[i] } else { let mut g = p2[i]; while let Some(k) = r.clone().find(|&k| p1[k] == g) { g = p2[k] } g }).collect()
}
pub fn c03(ctx: &mut Ctx) {
    unequal(ctx, "partially mapped crossover", |a, b| { let m = a.len().min(b.len()); partially_mapped_crossover(a, b, 0..m); });
    pairs(ctx, 5, 300, |ctx, p1, p2| for r in ranges(ctx, p1.len()) {
        ctx.case(|| format!("p1={p1:?} p2={p2:?} range={r:?}"), || { let (a, e) = (partially_mapped_crossover(p1, p2, r.clone()), pmx(p1, p2, r.clone())); ensure!(a == e, "returned {a:?}, the rule gives {e:?}"); Ok(()) });
    });
}
pub fn ox(p1: &[G], p2: &[G], r: Range<usize>) -> Vec<G> {
    let n = p1.len();
    if n < 2 { return p1.to_vec() }
    let mut o = p1.to_vec();
    let seg: HashSet<G> = p1[r.clone()].iter().copied().collect();
    let rest: Vec<G> = (0..n).map(|k| p2[(r.end + k) % n]).filter(|g| !seg.contains(g)).collect();
    for (k, g) in rest.iter().enumerate() { o[(r.end + k) % n] = *g }
    o
}
pub fn c04(ctx: &mut Ctx) {
    unequal(ctx, "order crossover", |a, b| { let m = a.len().min(b.len()); order_crossover(a, b, 0..m); });
    pairs(ctx, 5, 300, |ctx, p1, p2| for r in ranges(ctx, p1.len()) {
        ctx.case(|| format!("p1={p1:?} p2={p2:?} range={r:?}"), || { let (a, e) = (order_crossover(p1, p2, r.clone()), ox(p1, p2, r.clone())); ensure!(a == e, "returned {a:?}, the rule gives {e:?}"); Ok(()) });
    });
}
pub fn cx(p1: &[G], p2: &[G]) -> Vec<G> {
    let n = p1.len();
    let mut cyc = vec![usize::MAX; n];
    let mut k = 0;
    for s in 0..n { if cyc[s] == usize::MAX { let mut i = s; while cyc[i] == usize::MAX { cyc[i] = k; i = pos(p2, p1[i]) } k += 1 } }
    (0..n).map(|i| if cyc[i] % 2 == 0 { p1[i] } else { p2[i] }).collect()
}
pub fn c05(ctx: &mut Ctx) {
    unequal(ctx, "cycle crossover", |a, b| { cycle_crossover(a, b); });
    pairs(ctx, 6, 400, |ctx, p1, p2| ctx.case(|| format!("p1={p1:?} p2={p2:?}"), || { let (a, e) = (cycle_crossover(p1, p2), cx(p1, p2)); ensure!(a == e, "returned {a:?}, the rule gives {e:?}"); Ok(()) }));
}
fn up(a: G, b: G) -> (G, G) { if a < b { (a, b) } else { (b, a) } }
fn cyc_pairs(g: &[G]) -> Vec<(G, G)> { (0..g.len()).map(|i| up(g[i], g[(i + 1) % g.len()])).collect() }
pub fn neighbours(g1: &[G], g2: &[G]) -> Vec<(G, G)> {
    if g1.len() < 2 || g2.len() < 2 { return vec![] }
    let (a, b) = if g1.len() <= g2.len() { (g1, g2) } else { (g2, g1) };
    let s: HashSet<_> = cyc_pairs(b).into_iter().collect();
    cyc_pairs(a).into_iter().filter(|p| s.contains(p)).collect()
}
pub fn partitions(g1: &[G], g2: &[G]) -> Vec<Vec<G>> {
    let nb = neighbours(g1, g2);
    let mut used = HashSet::new();
    let mut out = vec![];
    for &g in g1 {
        if used.contains(&g) { continue }
        let mut p = vec![g];
        used.insert(g);
        while let Some(x) = nb.iter().find_map(|&(a, b)| { let l = *p.last().unwrap(); if a == l && !used.contains(&b) { Some(b) } else if b == l && !used.contains(&a) { Some(a) } else { None } }) { p.push(x); used.insert(x); }
        out.push(p);
    }
    out
}
fn genomes(ctx: &mut Ctx, mut f: impl FnMut(&mut Ctx, &[G], &[G])) {
    // all pairs of distinct-gene genomes over 4 labels, unequal lengths included
    let label = [40u32, 7, 93, 12];
    let mut all: Vec<Vec<G>> = vec![vec![]];
    for n in 1..=4usize { for p in perms(4) { let v: Vec<G> = p[..n].iter().map(|&i| label[i]).collect(); if !all.contains(&v) { all.push(v) } } }
    for a in &all { for b in &all { if !ctx.more() { return } f(ctx, a, b) } }
    ctx.share(0.5);
    pairs(ctx, 5, 200, &mut f);
    ctx.share(1.0);
    while ctx.more() {
        let n = if ctx.rarely(60) { ctx.rng.gen_range(300..1500) } else { ctx.size(0, 200) };
        let (a, mut b) = random_parents(ctx, n);
        let k = ctx.rng.gen_range(0..=n); b.truncate(k);
        for _ in 0..ctx.rng.gen_range(0..4) { let x = ctx.rng.gen(); if !b.contains(&x) { let i = ctx.rng.gen_range(0..=b.len()); b.insert(i, x) } }
        if ctx.rng.gen() { f(ctx, &a, &b) } else { f(ctx, &b, &a) }
    }
}
pub fn c12(ctx: &mut Ctx) {
    genomes(ctx, |ctx, a, b| ctx.case(|| format!("genome1={a:?} genome2={b:?}"), || { let (r, e) = (common_neighbors(a, b), neighbours(a, b)); 
        if a.len().min(b.len()) == 2 { let d: HashSet<_> = r.iter().collect(); let f: HashSet<_> = e.iter().collect(); ensure!(d == f, "returned {r:?}, expected {e:?}") } else { ensure!(r == e, "returned {r:?}, expected {e:?}"); } Ok(()) }));
}
pub fn c13(ctx: &mut Ctx) {
    genomes(ctx, |ctx, a, b| ctx.case(|| format!("genome1={a:?} genome2={b:?}"), || { let (r, e) = (common_partitions(a, b), partitions(a, b)); ensure!(r == e, "returned {r:?}, expected {e:?}"); Ok(()) }));
}
pub fn c06(ctx: &mut Ctx) {
    pairs(ctx, 5, 120, |ctx, p1, p2| {
        let mode = ctx.rng.gen_range(0..5u32); let seed: u64 = ctx.rng.gen();
        ctx.case(|| format!("p1={p1:?} p2={p2:?} selector={mode} seed={seed}"), || {
            let mut left = partitions(p1, p2);
            let mut out: Vec<G> = vec![]; let mut err: Option<String> = None; let mut k = seed;
            let r = generalized_partition_2_crossover(p1, p2, |last, shown| {
                let mut a = shown.to_vec(); let mut b = left.clone(); a.sort(); b.sort();
                if a != b && err.is_none() { err = Some(format!("shown {a:?} but the partitions not yet placed are {b:?}")) }
                if last.copied() != out.last().copied() && err.is_none() { err = Some(format!("told the last gene is {last:?} after {out:?}")) }
                if err.is_some() { return 0 }
                k = k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let i = match mode { 0 => 0, 1 => shown.len() - 1, 2 => (k >> 33) as usize % shown.len(), 3 => shown.len() / 2, _ => out.len() % shown.len() };
                let p = shown[i].clone(); out.extend(&p);
                if let Some(x) = left.iter().position(|q| *q == p) { left.remove(x); }
                i
            });
            if let Some(e) = err { return Err(e) }
            ensure!(left.is_empty(), "partitions {left:?} never placed: {r:?}");
            ensure!(r == out, "returned {r:?} although the chosen partitions give {out:?}");
            ensure!(is_perm(&r, p1), "not a permutation: {r:?}");
            Ok(())
        });
    });
}
pub fn spx(p1: &[G], p2: &[G], k: usize) -> Vec<G> { (0..p1.len()).map(|i| if i < k { p1[i] } else { p2[i] }).collect() }
pub fn c07(ctx: &mut Ctx) {
    unequal(ctx, "single-point crossover", |a, b| { let m = a.len().min(b.len()); single_point_crossover(a, b, m); });
    unequal(ctx, "single-point crossover (point 0)", |a, b| { single_point_crossover(a, b, 0); });
    unequal(ctx, "single-point crossover (point at the end)", |a, b| { single_point_crossover(a, b, a.len().max(b.len())); });
    for n in 0..6usize { for k in (0..n + 3).chain([usize::MAX, usize::MAX - 1, 1 << 40]) {
        let a: Vec<G> = (0..n as u32).collect(); let b: Vec<G> = (0..n as u32).map(|x| x + 50).collect();
        ctx.case(|| format!("p1={a:?} p2={b:?} point={k}"), || { let (r, e) = (single_point_crossover(&a, &b, k), spx(&a, &b, k)); ensure!(r == e, "returned {r:?}, expected {e:?}"); Ok(()) });
    } }
    while ctx.more() {
        let n = if ctx.rarely(40) { ctx.rng.gen_range(400..5000) } else { ctx.size(0, 400) };
        let m = ctx.rng.gen_range(1..6u32);
        let a: Vec<G> = (0..n).map(|_| ctx.rng.gen_range(0..m)).collect(); let b: Vec<G> = (0..n).map(|_| ctx.rng.gen_range(0..m)).collect();
        let k = match ctx.rng.gen_range(0..8) { 0 => n, 1 => n + 1, 2 => usize::MAX, _ => ctx.below(n + 1) };
        ctx.case(|| format!("p1={a:?} p2={b:?} point={k}"), || { let (r, e) = (single_point_crossover(&a, &b, k), spx(&a, &b, k)); ensure!(r == e, "returned {r:?}, expected {e:?}"); Ok(()) });
    }
}
const STRATS: [CrossoverStrategy; 7] = [CrossoverStrategy::GeneralizedPartition2, CrossoverStrategy::SequentialConstructive, CrossoverStrategy::EdgeRecombination,
    CrossoverStrategy::PartiallyMapped, CrossoverStrategy::Order, CrossoverStrategy::Cycle, CrossoverStrategy::SinglePoint];
fn strategy_ok(s: CrossoverStrategy, p1: &[G], p2: &[G], r: &[G]) -> Result<(), String> {
    let n = p1.len();
    ensure!(r.len() == n, "offspring of length {} for parents of length {n}: {r:?}", r.len());
    let all_ranges = || (0..n).flat_map(move |a| (a + 1..=n).map(move |b| a..b));
    let ok = match s {
        CrossoverStrategy::GeneralizedPartition2 => {
            let mut parts = common_partitions(p1, p2); let mut i = 0;
            while i < n { match parts.iter().position(|p| r[i..].starts_with(p)) { Some(k) => { i += parts[k].len(); parts.remove(k); } None => return Err(format!("{r:?} is not a concatenation of the common partitions")) } }
            parts.is_empty()
        }
        CrossoverStrategy::SequentialConstructive => n < 2 && r == p1 || p1.contains(&r[0]) && sequential_constructive_crossover(p1, p2, r[0]) == r,
        CrossoverStrategy::EdgeRecombination => return erx_ok(p1, p2, None, r),
        CrossoverStrategy::PartiallyMapped => all_ranges().any(|x| partially_mapped_crossover(p1, p2, x) == r),
        CrossoverStrategy::Order => all_ranges().any(|x| order_crossover(p1, p2, x) == r),
        CrossoverStrategy::Cycle => cycle_crossover(p1, p2) == r,
        CrossoverStrategy::SinglePoint => (0..n).any(|k| single_point_crossover(p1, p2, k) == r),
    };
    ensure!(ok, "{r:?} is not what the crossover gives for any valid choice");
    Ok(())
}
pub fn c08(ctx: &mut Ctx) {
    for s in STRATS { for a in 1..8usize { for b in 1..8usize { if a != b {
        let p1: Vec<G> = (0..a as u32).collect(); let p2: Vec<G> = (0..b as u32).rev().collect();
        for seed in 0..3 { ctx.case(|| format!("{s:?} of parents with different lengths {p1:?} {p2:?} seed={seed}"), || { let mut g = EdgeRng::new(seed, 1); ensure!(panics(|| s.crossover(&p1, &p2, &mut g)), "accepted parents of different lengths"); Ok(()) }); }
    } } } }
    for s in STRATS { for _ in 0..20 { let (a, b) = (ctx.size(1, 200), ctx.size(1, 200)); if a != b { 
        let p1: Vec<G> = (0..a as u32).collect(); let p2: Vec<G> = (0..b as u32).rev().collect(); let seed: u64 = ctx.rng.gen();
        ctx.case(|| format!("{s:?} of parents with lengths {a} and {b} seed={seed}"), || { let mut g = EdgeRng::new(seed, 1); ensure!(panics(|| s.crossover(&p1, &p2, &mut g)), "accepted parents of different lengths"); Ok(()) }); } } }
    let mut one = |ctx: &mut Ctx, p1: &[G], p2: &[G]| {
        if p1.is_empty() { return }
        for s in STRATS {
            if p1.len() > 40 && matches!(s, CrossoverStrategy::PartiallyMapped | CrossoverStrategy::Order) && ctx.rng.gen_range(0..8) != 0 { continue }
            let seed: u64 = ctx.rng.gen(); let edge = ctx.rng.gen_range(0..5);
            ctx.case(|| format!("{s:?} p1={p1:?} p2={p2:?} rng={seed}/{edge}"), || { let mut g = EdgeRng::new(seed, edge); strategy_ok(s, p1, p2, &s.crossover(p1, p2, &mut g)) });
        }
    };
    ctx.share(0.6);
    pairs(ctx, 4, 24, &mut one);
    ctx.share(1.0);
    while ctx.more() { let n = ctx.size(1, 120); let (a, b) = random_parents(ctx, n); one(ctx, &a, &b) }
}
