use crate::ctx::*;
use crate::ensure;
use crate::popn::*;
use rand::rngs::SmallRng;
use rand::{Rng, RngCore, SeedableRng};
use rusty_genes::*;
use std::cell::Cell;

fn strategy(ctx: &mut Ctx) -> SelectionStrategy {
    match ctx.rng.gen_range(0..6) {
        0 => SelectionStrategy::Tournament(if ctx.rarely(8) { ctx.rng.gen_range(1..5000) } else { ctx.size(1, 2000) }),
        1 => SelectionStrategy::RouletteWheel,
        2 => SelectionStrategy::Boltzmann(ctx.float(), loop { let c = ctx.float(); if c != 0.0 { break c } }),
        3 => SelectionStrategy::Rank,
        4 => SelectionStrategy::Linear(match ctx.rng.gen_range(0..3) { 0 => ctx.float(), 1 => [1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON, 2.0, 1.5, 0.0, f64::NAN, f64::INFINITY][ctx.rng.gen_range(0..8)], _ => ctx.rng.gen_range(0.0..3.0) }),
        _ => SelectionStrategy::Elitist(loop { let r = ctx.ratio(); if r < 1.0 { break r } }),
    }
}
fn direct<R: Rng>(s: SelectionStrategy) -> Box<dyn SelectionMechanism<Ind, R>> {
    match s {
        SelectionStrategy::Tournament(k) => Box::new(TournamentSelection::new(k)), SelectionStrategy::RouletteWheel => Box::new(RouletteWheelSelection::new()),
        SelectionStrategy::Boltzmann(t, c) => Box::new(BoltzmannSelection::new(t, c)), SelectionStrategy::Rank => Box::new(RankSelection::new()),
        SelectionStrategy::Linear(b) => Box::new(LinearSelection::new(b)), SelectionStrategy::Elitist(r) => Box::new(ElitistSelection::new(r)),
    }
}
fn population(ctx: &mut Ctx) -> Vec<Ind> {
    let n = if ctx.rarely(30) { ctx.rng.gen_range(300..3000) } else { ctx.size(1, 300) };
    match ctx.rng.gen_range(0..3) { 0 => collection(ctx, n), 1 => (0..n).map(|i| Ind { id: i as u64, fit: ctx.float() }).collect(), _ => { let s = ctx.finite(); (0..n).map(|i| Ind { id: i as u64, fit: s + i as f64 }).collect() } }
}
pub fn c18(ctx: &mut Ctx) {
    while ctx.more() {
        let v = population(ctx); let s = strategy(ctx); let prep = ctx.rng.gen_range(0..4); let (seed, edge): (u64, u32) = (ctx.rng.gen(), ctx.rng.gen_range(0..7));
        ctx.case(|| format!("{s:?} prepared {prep} times rng={seed}/{edge} population {}", show(&v)), || {
            let p = Population::new(v.clone());
            let mut a = s.create_selector::<Ind, EdgeRng>(); let mut b = direct::<EdgeRng>(s);
            for _ in 0..prep { a.prepare(&p); b.prepare(&p); }
            let (mut ga, mut gb) = (EdgeRng::new(seed, edge), EdgeRng::new(seed, edge));
            // the parallel totals may round differently from one preparation to the next
            let exact = !matches!(s, SelectionStrategy::Boltzmann(..)) && (!matches!(s, SelectionStrategy::RouletteWheel) || p.iter().all(|i| i.fit.abs() < 1e9 && i.fit.fract() == 0.0));
            for k in 0..6 {
                for (name, (i, m)) in [("strategy", a.select(&p, &mut ga))] { ensure!(i < p.len() && std::ptr::eq(m, &p[i]), "{name}: selection {k} returned position {i} with {m:?}, population {}", show(&p)); }
                let (i, m) = b.select(&p, &mut gb);
                ensure!(i < p.len() && std::ptr::eq(m, &p[i]), "selection {k} returned position {i} with {m:?}, population {}", show(&p));
            }
            if exact {
                let (mut ga, mut gb) = (EdgeRng::new(seed ^ 1, edge), EdgeRng::new(seed ^ 1, edge));
                for k in 0..6 { let (i, j) = (a.select(&p, &mut ga).0, b.select(&p, &mut gb).0); ensure!(i == j, "selection {k}: the strategy selects {i}, the mechanism {j}"); }
            }
            Ok(())
        });
    }
}
fn ladder(n: usize) -> Population<Ind> { Population::new((0..n).map(|i| Ind { id: i as u64 * 7 + 1, fit: i as f64 }).collect()) }
fn frequencies(m: &dyn SelectionMechanism<Ind, SmallRng>, p: &Population<Ind>, want: &[f64]) -> Result<(), String> {
    let mut g = SmallRng::seed_from_u64(11);
    let total = 40_000;
    let mut c = vec![0u32; p.len()];
    for _ in 0..total { c[m.select(p, &mut g).0] += 1 }
    for i in 0..p.len() { let e = want[i] * total as f64; ensure!((c[i] as f64 - e).abs() <= 8.0 * e.sqrt() + if e == 0.0 { 0.0 } else { 8.0 }, "position {i} selected {} times in {total}, expected about {e}", c[i]); }
    Ok(())
}
pub fn c19(ctx: &mut Ctx) {
    ctx.share(0.5);
    for n in 1..7usize {
        let p = ladder(n);
        for size in [1usize, 2, 3, 5, 8, 21] { if !ctx.more() { break } ctx.case(|| format!("frequencies of tournament({size}) on {n}"), || {
            let q = |i: usize| ((i as f64) / n as f64).powi(size as i32);
            frequencies(&TournamentSelection::new(size), &p, &(0..n).map(|i| q(i + 1) - q(i)).collect::<Vec<_>>()) }); }
        ctx.case(|| format!("frequencies of rank on {n}"), || frequencies(&RankSelection::new(), &p, &(0..n).map(|i| (i + 1) as f64 * 2.0 / (n * (n + 1)) as f64).collect::<Vec<_>>()));
    }
    for n in 1..12usize { let p = ladder(n); for ratio in [0.0, 0.25, 0.5, 0.75, 0.9, 1.0 - f64::EPSILON / 2.0, 1.0 / 3.0, 2.0 / 3.0] {
        if !ctx.more() { break }
        ctx.case(|| format!("frequencies of elitist({ratio}) on {n}"), || { let lo = (n as f64 * ratio).floor() as usize; frequencies(&ElitistSelection::new(ratio), &p, &(0..n).map(|i| if i < lo { 0.0 } else { 1.0 / (n - lo) as f64 }).collect::<Vec<_>>()) });
    } }
    for n in [30usize, 100] { let p = ladder(n); 
        ctx.case(|| format!("frequencies of rank on {n}"), || frequencies(&RankSelection::new(), &p, &(0..n).map(|i| (i + 1) as f64 * 2.0 / (n * (n + 1)) as f64).collect::<Vec<_>>()));
        ctx.case(|| format!("frequencies of elitist(0.5) on {n}"), || frequencies(&ElitistSelection::new(0.5), &p, &(0..n).map(|i| if i < n / 2 { 0.0 } else { 2.0 / n as f64 }).collect::<Vec<_>>()));
    }
    // larger populations, in twenty groups of neighbours
    for n in [400usize, 1500, 6000] {
        let p = ladder(n);
        let grouped = |m: &dyn SelectionMechanism<Ind, SmallRng>, below: &dyn Fn(usize) -> f64| -> Result<(), String> {
            let mut g = SmallRng::seed_from_u64(13); let total = 4000; let mut c = [0u32; 20]; let cut = |k: usize| k * n / 20;
            for _ in 0..total { let i = m.select(&p, &mut g).0; c[(0..20).rfind(|&k| cut(k) <= i).unwrap()] += 1 }
            for k in 0..20 { let e = (below(cut(k + 1)) - below(cut(k))) * total as f64; ensure!((c[k] as f64 - e).abs() <= 8.0 * e.sqrt() + if e == 0.0 { 0.0 } else { 8.0 }, "positions {}..{} selected {} times in {total}, expected about {e}", cut(k), cut(k + 1), c[k]); }
            Ok(())
        };
        let x = |i: usize| i as f64 / n as f64;
        for size in [1usize, 2, 7, 40, 300] { ctx.case(|| format!("frequencies of tournament({size}) on {n}"), || grouped(&TournamentSelection::new(size), &|i| x(i).powi(size as i32))); }
        ctx.case(|| format!("frequencies of rank on {n}"), || grouped(&RankSelection::new(), &|i| (i * (i + 1)) as f64 / (n * (n + 1)) as f64));
        for ratio in [0.0, 0.5, 0.9] { ctx.case(|| format!("frequencies of elitist({ratio}) on {n}"), || { let lo = (n as f64 * ratio).floor() as usize; grouped(&ElitistSelection::new(ratio), &|i| if i < lo { 0.0 } else { (i - lo) as f64 / (n - lo) as f64 }) }); }
    }
    ctx.share(1.0);
    while ctx.more() {
        // whole numbers and quarters: every total is exact
        let n = ctx.size(1, 200);
        let q = [1.0, 0.25][ctx.rng.gen_range(0..2)]; let neg = ctx.rng.gen_range(0..3) == 0; let top = [3i64, 10, 1000][ctx.rng.gen_range(0..3)];
        let v: Vec<Ind> = (0..n).map(|i| Ind { id: i as u64, fit: q * ctx.rng.gen_range(if neg { -top } else { 0 }..=top) as f64 }).collect();
        let p = Population::new(v);
        let total: f64 = p.iter().map(|i| i.fit).sum();
        let r = if ctx.rng.gen() && total > 0.0 { let k = ctx.below(p.len()); (p[..=k].iter().map(|i| i.fit).sum::<f64>() / total).clamp(0.0, 1.0) } else { ctx.ratio() };
        let w = word_for(r).saturating_add([0, 1 << 11][ctx.rng.gen_range(0..2)]);
        let prep = ctx.rng.gen_range(0..4) != 0;
        ctx.case(|| format!("roulette prepared={prep} word={w:#x} population {}", show(&p)), || {
            let mut m = RouletteWheelSelection::new();
            if prep { SelectionMechanism::<Ind, ConstRng>::prepare(&mut m, &p) }
            let mut g = ConstRng::new(w); let r = g.value();
            let target = r * if prep { total } else { 0.0 };
            let mut cum = 0.0;
            let want = p.iter().position(|i| { cum += i.fit; cum >= target }).unwrap_or(p.len() - 1);
            let (i, _) = m.select(&p, &mut g);
            ensure!(i == want, "selected {i} instead of {want} for the draw {r} of the total {total}");
            Ok(())
        });
        let (t, c) = ([1.0, 2.0, 100.0, 0.5, -3.0, 1e3][ctx.rng.gen_range(0..6)] * q, [1.0, 0.5, 0.9, 0.99, 2.0, -1.0][ctx.rng.gen_range(0..6)]);
        let preps = ctx.rng.gen_range(0..5);
        ctx.case(|| format!("boltzmann({t},{c}) prepared {preps} times word={w:#x} population {}", show(&p)), || {
            let mut m = BoltzmannSelection::new(t, c);
            let mut temp = t;
            let mut tot = 0.0;
            for k in 0..preps { SelectionMechanism::<Ind, ConstRng>::prepare(&mut m, &p); temp *= c; ensure!(m.temperature() == temp && m.cooling_rate() == c, "temperature {} after {} preparations", m.temperature(), k + 1);
                tot = p.iter().map(|i| (i.fit / temp).exp()).sum::<f64>(); }
            let mut g = ConstRng::new(w); let r = g.value();
            let (i, _) = m.select(&p, &mut g);
            let target = r * tot;
            if !tot.is_finite() { return Ok(()) }
            let mut cum = 0.0;
            let cums: Vec<f64> = p.iter().map(|i| { cum += (i.fit / temp).exp(); cum }).collect();
            let tol = 1e-12 * p.len() as f64 * tot;
            // position i: the total before stays below the target and its own reaches it (or it is the last one)
            ensure!((i == 0 || cums[i - 1] < target + tol) && (i + 1 == p.len() || cums[i] >= target - tol), "selected {i} for the draw {r}; running totals {cums:?}");
            Ok(())
        });
        let b = match ctx.rng.gen_range(0..6) { 0 => 1.5, 1 => 2.0, 2 => ctx.rng.gen_range(-3.0..0.99), 3 => ctx.rng.gen_range(2.0..9.0), 4 => 1.0 + f64::EPSILON * ctx.rng.gen_range(1..1000) as f64, _ => ctx.rng.gen_range(1.01..2.0) };
        let m = ctx.size(1, 3000);
        ctx.case(|| format!("linear({b}) word={w:#x} on {m}"), || {
            let p = ladder(m);
            let mut g = ConstRng::new(w); let r = g.value();
            let (i, _) = LinearSelection::new(b).select(&p, &mut g);
            let x = m as f64 * (b - (b * b - 4.0 * (b - 1.0) * r).sqrt()) / 2.0 / (b - 1.0);
            let off = (m - 1 - i) as f64;
            if x.is_nan() { return Ok(()) }
            // the formula itself loses digits when the bias is close to 1
            let tol = 8.0 * f64::EPSILON * m as f64 * (1.0 + b * b) * (1.0 + 1.0 / (b - 1.0).abs());
            let fl = |y: f64| y.trunc().clamp(0.0, (m - 1) as f64);
            ensure!(off == fl(x) || (off >= fl(x - tol) && off <= fl(x + tol)), "selected {off} below the last position instead of the whole part of {x}");
            Ok(())
        });
    }
}
/// answers from a script, counting the selections
struct Script { picks: Vec<usize>, calls: Cell<usize> }
unsafe impl Sync for Script {}
impl<R: Rng> SelectionMechanism<Ind, R> for Script {
    fn prepare(&mut self, _: &Population<Ind>) {}
    fn select<'a>(&self, p: &'a Population<Ind>, _: &mut R) -> (usize, &'a Ind) { let k = self.calls.get(); self.calls.set(k + 1); let i = self.picks[k % self.picks.len()] % p.len(); (i, &p[i]) }
}
pub fn c20(ctx: &mut Ctx) {
    while ctx.more() {
        let v = population(ctx); let p = Population::new(v);
        let tries = match ctx.rng.gen_range(0..6) { 0 => 0, 1 => 1, 2 => ctx.size(0, 200), _ => ctx.rng.gen_range(0..8) };
        let e = ctx.below(p.len()); let len = ctx.rng.gen_range(1..40usize);
        let stay = ctx.rng.gen_range(0..30usize);
        let mut picks: Vec<usize> = (0..len).map(|_| ctx.rng.gen_range(0..p.len())).collect();
        for k in 0..stay.min(len) { picks[k] = e }
        let foreign = ctx.rng.gen_range(0..6) == 0;
        let ex = if foreign { Ind { id: u64::MAX, fit: 0.0 } } else { p[e].clone() };
        ctx.case(|| format!("scripted selections {picks:?}, {tries} tries, excluding {ex:?} of {}", show(&p)), || {
            let m = Script { picks: picks.clone(), calls: Cell::new(0) };
            let mut g = EdgeRng::new(3, 0);
            let want = (0..tries).map(|k| picks[k % picks.len()] % p.len()).enumerate().find(|(_, i)| p[*i] != ex);
            let got = m.select_distinct(&p, &mut g, tries, &ex);
            match (got, want) {
                (None, None) => ensure!(m.calls.get() == tries, "made {} selections for {tries} tries", m.calls.get()),
                (Some((i, c)), Some((k, j))) => { ensure!(i == j && std::ptr::eq(c, &p[i]), "returned position {i}, the first differing one is {j}"); ensure!(m.calls.get() == k + 1, "made {} selections although the one after {k} differed", m.calls.get()) }
                (a, b) => return Err(format!("returned {a:?}, expected {b:?}")),
            }
            Ok(())
        });
        let s = strategy(ctx); let (seed, edge): (u64, u32) = (ctx.rng.gen(), ctx.rng.gen_range(0..5)); let tries = ctx.rng.gen_range(0..12);
        ctx.case(|| format!("{s:?}, {tries} tries, rng={seed}/{edge}, excluding {ex:?} of {}", show(&p)), || {
            let mut m = s.create_selector::<Ind, EdgeRng>();
            m.prepare(&p);
            let (mut g, mut h) = (EdgeRng::new(seed, edge), EdgeRng::new(seed, edge));
            let got = m.select_distinct(&p, &mut g, tries, &ex).map(|x| x.0);
            let mut want = None;
            for _ in 0..tries { let (i, c) = m.select(&p, &mut h); if *c != ex { want = Some(i); break } }
            ensure!(got == want, "returned {got:?}, the first differing selection is {want:?}");
            ensure!(g.next_u64() == h.next_u64(), "another number of draws than the selections need");
            Ok(())
        });
    }
}
