use crate::ctx::*;
use crate::ensure;
use crate::ops::{effect_ok, Op};
use crate::popn::Ind;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use rusty_genes::one_max::*;
use rusty_genes::*;
use std::cmp::Ordering;

pub fn c27(ctx: &mut Ctx) {
    while ctx.more() {
        let (mut a, mut b) = match ctx.rng.gen_range(0..4) { 0 => (0.0, 1.0), 1 => { let a = ctx.ratio(); (a, ctx.ratio()) } _ => (ctx.finite(), ctx.finite()) };
        if a > b { std::mem::swap(&mut a, &mut b) }
        if !(b - a).is_finite() { continue }
        let (mut r, mut s) = (ctx.ratio(), ctx.ratio());
        if r > s { std::mem::swap(&mut r, &mut s) }
        ctx.case(|| format!("interpolate_f64({a:?},{b:?}) at {r:?} and {s:?}"), || {
            let (x, y) = (interpolate_f64(a, b, r), interpolate_f64(a, b, s));
            ensure!(interpolate_f64(a, b, 0.0) == a, "{} at ratio zero", interpolate_f64(a, b, 0.0));
            ensure!(x >= a && y >= a, "{x:?}, {y:?} below the minimum");
            ensure!(x <= y, "decreases from {x:?} to {y:?}");
            let one = interpolate_f64(a, b, 1.0); let tol = 4.0 * f64::EPSILON * (a.abs() + b.abs());
            ensure!((one - b).abs() <= tol && y <= b + tol, "{one:?} at ratio one");
            let exact = a + (b - a) * r; // the straight line
            ensure!((x - exact).abs() <= 2.0 * tol, "{x:?} is off the straight line {exact:?}");
            if (a, b) == (0.0, 1.0) || a >= 0.0 && b <= 1.0 { ensure!(y <= 1.0, "{y:?} exceeds 1"); }
            Ok(())
        });
        let cap = [10usize, 1000, 1 << 20, 1 << 53][ctx.rng.gen_range(0..4)];
        let lo = match ctx.rng.gen_range(0..3) { 0 => 0, 1 => ctx.size(0, 1000), _ => ctx.rng.gen_range(0..=cap) }; let hi = match ctx.rng.gen_range(0..3) { 0 => lo, 1 => lo + ctx.size(0, 1000), _ => ctx.rng.gen_range(lo.min(cap)..=cap).max(lo) };
        ctx.case(|| format!("interpolate_usize({lo},{hi}) at {r:?}"), || {
            let x = interpolate_usize(lo, hi, r);
            ensure!(x >= lo, "{x} below the minimum");
            let real = interpolate_f64(lo as f64, hi as f64, r);
            ensure!((x as f64 - real.floor()).abs() <= 2.0 * f64::EPSILON * hi as f64 && (hi > 1 << 40 || x as f64 == (lo as f64 + (hi - lo) as f64 * r).floor()), "{x} is not the whole part of {real}");
            if lo == 0 && hi > 0 && r < 1.0 { ensure!(x < hi, "{x} not below {hi}"); }
            Ok(())
        });
    }
}
pub fn c29(ctx: &mut Ctx) {
    let m = OneMaxEvolutionModel;
    while ctx.more() {
        let n = ctx.size(0, 3000);
        let d = ctx.rng.gen_range(0.0..=1.0);
        let bits: Vec<bool> = match ctx.rng.gen_range(0..6) { 0 => vec![true; n], 1 => vec![false; n], _ => (0..n).map(|_| ctx.rng.gen_bool(d)).collect() };
        let other: Vec<bool> = (0..n).map(|i| if ctx.rng.gen_range(0..4) == 0 { ctx.rng.gen() } else { !bits[i] }).collect();
        let seed: u64 = ctx.rng.gen();
        let s = |b: &[bool]| b.iter().map(|&x| if x { '1' } else { '0' }).collect::<String>();
        ctx.case(|| format!("bits {} other {} seed {seed}", s(&bits), s(&other)), || {
            let mut o = OneMax::from(bits.clone());
            ensure!(o.genome() == bits && o.fitness() == 0.0 && o.fitness().is_sign_positive(), "conversion gives {o:?}");
            m.evaluate(&mut o);
            ensure!(o.genome() == bits, "evaluation changed the bits to {}", s(o.genome()));
            let ones = bits.iter().filter(|b| **b).count();
            if n > 0 { ensure!(o.fitness() == ones as f64 / n as f64, "fitness {} for {ones} of {n}", o.fitness()); }
            let (c, e) = (o.clone(), o.fitness()); m.evaluate(&mut o); ensure!(n == 0 || o == c && o.fitness() == e, "second evaluation gives another result");
            let mut g = SmallRng::seed_from_u64(seed);
            let x = OneMax::new_random(&n, &mut g);
            ensure!(x.genome().len() == n, "random individual of length {}", x.genome().len());
            if n > 200 { let k = x.genome().iter().filter(|b| **b).count() as f64; ensure!((k - n as f64 / 2.0).abs() < 6.0 * (n as f64).sqrt(), "random bits are {k} ones of {n}"); }
            let mut mu = OneMax::from(bits.clone());
            m.mutate(&mut mu, &mut g);
            effect_ok(Op::Duplicate, &bits.iter().map(|&b| b as u32).collect::<Vec<_>>(), &mu.genome().iter().map(|&b| b as u32).collect::<Vec<_>>())?;
            if n > 0 {
                let p2 = OneMax::from(other.clone());
                let r = m.crossover(&OneMax::from(bits.clone()), &p2, &mut g);
                ensure!((0..=n).any(|k| r.genome()[..k.min(r.genome().len())] == bits[..k.min(r.genome().len())] && r.genome().len() == n && r.genome()[k..] == other[k..]), "crossover gives {}", s(r.genome()));
            }
            Ok(())
        });
    }
}
pub fn c30(ctx: &mut Ctx) {
    let vals = [0.0, -0.0, 1.0, -1.0, f64::NAN, -f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1.0 + f64::EPSILON];
    let one = |ctx: &mut Ctx, a: f64, b: f64, ia: u64, ib: u64| ctx.case(|| format!("fitness {a:?} (individual {ia}) and {b:?} (individual {ib})"), || {
        let (x, y) = (Ind { id: ia, fit: a }, Ind { id: ib, fit: b });
        let (wx, wy) = (IndividualWrapper::from(x.clone()), IndividualWrapper::from(y.clone()));
        let e = a.partial_cmp(&b);
        ensure!((wx == wy) == (a == b) && (wx != wy) == (a != b), "equality is {}", wx == wy);
        ensure!(wx.partial_cmp(&wy) == e, "partial order {:?}", wx.partial_cmp(&wy));
        ensure!(wx.cmp(&wy) == e.unwrap_or(Ordering::Equal), "total order {:?}", wx.cmp(&wy));
        ensure!((wx < wy) == (a < b) && (wx <= wy) == (a <= b) && (wx > wy) == (a > b) && (wx >= wy) == (a >= b), "comparison operators disagree with the fitness");
        ensure!(compare_fitness(&x, &y) == e.unwrap_or(Ordering::Equal), "compare_fitness {:?}", compare_fitness(&x, &y));
        ensure!(wx.id == ia && wx.fit.to_bits() == a.to_bits(), "reading through the wrapper gives {:?}", *wx);
        let t = wx.take();
        ensure!(t.id == ia && t.fit.to_bits() == a.to_bits(), "unwrapping gives {t:?}");
        let mut w = wy; w.id = 99; ensure!(w.take().id == 99, "writing through the wrapper is lost");
        Ok(())
    });
    for a in vals { for b in vals { for (x, y) in [(1, 1), (1, 2), (2, 1)] { one(ctx, a, b, x, y) } } }
    while ctx.more() { let a = ctx.float(); let b = if ctx.rng.gen_range(0..4) == 0 { a } else { ctx.float() }; let (x, y) = (ctx.rng.gen_range(0..3), ctx.rng.gen_range(0..3)); one(ctx, a, b, x, y); }
}
