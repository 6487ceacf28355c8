use crate::ctx::*;
use crate::ensure;
use rand::seq::SliceRandom;
use rand::Rng;
use rusty_genes::*;

/// Equality looks at the id alone; equal ids always carry the same fitness.
#[derive(Clone, Debug)]
pub struct Ind { pub id: u64, pub fit: f64 }
impl PartialEq for Ind { fn eq(&self, o: &Self) -> bool { self.id == o.id } }
impl Individual for Ind { fn fitness(&self) -> f64 { self.fit } }
pub fn key(v: &[Ind]) -> Vec<(u64, u64)> { v.iter().map(|i| (i.id, i.fit.to_bits())).collect() }
pub fn show(v: &[Ind]) -> String { v.iter().map(|i| format!("{}:{:?}", i.id, i.fit)).collect::<Vec<_>>().join(" ") }

/// individuals with few distinct fitness values, duplicates, and duplicates separated by equally fit others
pub fn collection(ctx: &mut Ctx, n: usize) -> Vec<Ind> {
    let vals: Vec<f64> = (0..ctx.rng.gen_range(1..7)).map(|_| ctx.float()).collect();
    let ids = match ctx.rng.gen_range(0..4) { 0 => 2, 1 => n as u64 / 2 + 1, 2 => 3 * n as u64 + 1, _ => ctx.rng.gen_range(1..12) };
    let spread = ctx.rng.gen_range(0..4) == 0;
    let mut v: Vec<Ind> = (0..n).map(|_| { let id = ctx.rng.gen_range(0..ids); let fit = if spread { (id as f64) * 0.37 - 3.0 } else { vals[(id.wrapping_mul(2654435761) >> 7) as usize % vals.len()] }; Ind { id, fit } }).collect();
    match ctx.rng.gen_range(0..6) { 0 => v.sort_by(|a, b| a.fit.total_cmp(&b.fit)), 1 => v.sort_by(|a, b| b.fit.total_cmp(&a.fit)), _ => v.shuffle(&mut ctx.rng) }
    v
}
pub fn check_population(p: &Population<Ind>, given: &[Ind]) -> Result<(), String> {
    let mut want: Vec<(u64, u64)> = key(given); want.sort(); want.dedup();
    let mut have = key(p); have.sort();
    ensure!(have == want, "holds {} but the distinct given individuals are {want:?}", show(p));
    ensure!(p.windows(2).all(|w| w[0].fit <= w[1].fit), "not in non-decreasing order: {}", show(p));
    let s = p.stats();
    let f: Vec<f64> = p.iter().map(|i| i.fit).collect();
    let (lo, hi) = (f.iter().copied().fold(f64::INFINITY, f64::min), f.iter().copied().fold(f64::NEG_INFINITY, f64::max));
    ensure!(s.count() == f.len(), "statistics count {} for {} members", s.count(), f.len());
    ensure!(s.min() == lo && s.max() == hi, "statistics min {} max {} for {f:?}", s.min(), s.max());
    ensure!(Some(s.arg_min()) == f.iter().position(|x| *x == lo) && f.get(s.arg_max()) == Some(&hi), "extreme positions {} {} for {f:?}", s.arg_min(), s.arg_max());
    let e: Stats = f.iter().copied().collect();
    let e = e.snapshot().unwrap();
    let same = |a: f64, b: f64| a == b || a.is_nan() && b.is_nan() || (a - b).abs() <= 1e-6 * (1.0 + hi.abs().max(lo.abs()));
    let big = hi.abs().max(lo.abs()) > 1e100;
    ensure!(big || same(s.avg(), e.avg()), "average {} of {f:?}", s.avg());
    ensure!(big || same(s.std(), e.std()), "deviation {} of {f:?}", s.std());
    ensure!(p.fittest().fit == hi && p.iter().any(|i| std::ptr::eq(i, p.fittest())), "fittest reported is {:?}", p.fittest());
    Ok(())
}
pub fn c14(ctx: &mut Ctx) {
    ctx.case(|| "empty collection".into(), || {
        match Population::<Ind>::try_from(Vec::with_capacity(7)) { Ok(_) => return Err("accepted".into()), Err(v) => ensure!(v.is_empty() && v.capacity() >= 7, "another collection came back") }
        ensure!(panics(|| Population::<Ind>::new(vec![])), "new accepted an empty collection");
        Ok(())
    });
    let one = |ctx: &mut Ctx, v: Vec<Ind>| ctx.case(|| format!("individuals (id:fitness) {}", show(&v)), || {
        let p = Population::new(v.clone()); check_population(&p, &v)?;
        let f = p.fittest().fit; let t = p.take_fittest(); ensure!(t.fit == f && v.contains(&t), "took {t:?} out");
        let q = Population::try_from(v.clone()).map_err(|_| "conversion refused".to_string())?; check_population(&q, &v)?;
        let members = key(&q); let w: Vec<Ind> = q.into(); ensure!(key(&w) == members, "conversion to a list gives {}", show(&w));
        let mut p = Population::new(vec![Ind { id: u64::MAX, fit: 0.25 }, Ind { id: u64::MAX - 1, fit: -7.0 }]);
        let mut w = v.clone(); p.replace(&mut w); check_population(&p, &v)
    });
    // all lists up to length 5 over 4 individuals of which some tie
    for fits in [[0.0, 1.0, 1.0, 1.0], [1.0, 1.0, 0.0, 2.0], [f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0], [-1.0, -1.0, -1.0, -1.0]] { for n in 1..=5u32 { for c in 0..4u32.pow(n) {
        if !ctx.more() { return }
        one(ctx, (0..n).map(|k| { let id = c / 4u32.pow(k) % 4; Ind { id: id as u64, fit: fits[id as usize] } }).collect());
    } } }
    while ctx.more() { let n = match ctx.rng.gen_range(0..40) { 0 => 5000, 1 => 2200, _ => ctx.size(1, 300) }; let v = collection(ctx, n); one(ctx, v) }
}
pub fn c15(ctx: &mut Ctx) {
    while ctx.more() {
        let steps = match ctx.rng.gen_range(0..400) { 0 => if ctx.rng.gen() { 66_000 + ctx.below(5000) } else { ctx.rng.gen_range(1000..10_000) }, 1..=8 => ctx.rng.gen_range(40..1200), _ => ctx.size(0, 40).min(40) };
        let flat = steps > 1200 || steps > 40 && ctx.rng.gen();
        let mut lists: Vec<Vec<Ind>> = (0..=steps).map(|_| { if flat { return vec![Ind { id: 1, fit: 0.5 }] } let n = ctx.rng.gen_range(1..if steps > 40 { 4 } else { 30 }); collection(ctx, n) }).collect();
        if !flat && ctx.rng.gen() { // equal or slowly moving best values
            let base = ctx.rng.gen_range(-3..4) as f64;
            for (k, l) in lists.iter_mut().enumerate() { let b = base + [0.0, 0.0, 1.0, -1.0, (k as f64) * 0.5, 1e-15][ctx.rng.gen_range(0..6)]; for i in l.iter_mut() { i.fit = b - (i.id % 5) as f64; } }
        }
        ctx.case(|| lists.iter().map(|l| format!("[{}]", show(l))).collect::<Vec<_>>().join(" then "), || {
            let mut p = Population::new(lists[0].clone());
            ensure!(p.generation() == 0 && p.stagnation() == 0, "new population has generation {} stagnation {}", p.generation(), p.stagnation());
            let mut stag = 0;
            let max = |v: &[Ind]| v.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max);
            for k in 1..lists.len() {
                let before = key(&p); let best = max(&p);
                let mut l = lists[k].clone();
                p.replace(&mut l);
                ensure!(key(&l) == before, "step {k} handed back {} instead of the previous members {before:?}", show(&l));
                check_population(&p, &lists[k])?;
                stag = if max(&p) > best { 0 } else { stag + 1 };
                ensure!(p.generation() == k, "generation {} after {k} replacements", p.generation());
                ensure!(p.stagnation() == stag, "stagnation {} instead of {stag} after {k} replacements", p.stagnation());
            }
            Ok(())
        });
    }
}
