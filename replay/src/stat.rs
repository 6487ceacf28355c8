use crate::ctx::*;
use crate::ensure;
use rand::Rng;
use rusty_genes::*;

fn bits(s: &Stats) -> (usize, [Option<u64>; 5], [Option<usize>; 2]) {
    let b = |x: Option<f64>| x.map(|v| if v.is_nan() { u64::MAX } else { v.to_bits() });
    (s.count(), [b(s.min()), b(s.max()), b(s.avg()), b(s.var()), b(s.std())], [s.arg_min(), s.arg_max()])
}
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() }
/// an iterator that says as little, or as much, about its length as it may
struct Hinted<'a> { v: &'a [f64], k: usize, low: usize, over: Option<usize> }
impl Iterator for Hinted<'_> {
    type Item = f64;
    fn next(&mut self) -> Option<f64> { let x = self.v.get(self.k).copied(); if x.is_some() { self.k += 1 } x }
    fn size_hint(&self) -> (usize, Option<usize>) { let left = self.v.len() - self.k; (left.saturating_sub(self.low), self.over.map(|o| left.saturating_add(o))) }
}
pub fn c16(ctx: &mut Ctx) {
    let one = |ctx: &mut Ctx, v: &[f64], cut: usize| ctx.case(|| format!("samples {v:?} collected up to {cut}"), || {
        let all: Stats = v.iter().copied().collect();
        let mut rec = Stats::default();
        for x in v { rec.record(*x) }
        let mut mix: Stats = v[..cut].iter().copied().collect();
        for x in &v[cut..] { mix.record(*x) }
        let n = v.len();
        let loose: Stats = Hinted { v, k: 0, low: n, over: None }.collect();
        let over: Stats = Hinted { v, k: 0, low: cut, over: Some(1 + n - cut) }.collect();
        let huge: Stats = Hinted { v, k: 0, low: n, over: Some(usize::MAX) }.collect();
        let kept: Stats = v.iter().copied().chain([f64::NAN, f64::NAN]).filter(|x| !x.is_nan()).collect();
        for (name, s) in [("collecting", &all), ("recording", &rec), ("collecting then recording", &mix), ("collecting without a size hint", &loose), ("collecting with a loose size hint", &over), ("collecting with a huge size hint", &huge), ("collecting what passes a filter", &kept)] {
            ensure!(bits(s) == bits(&rec), "{name} gives {:?}, recording gives {:?}", bits(s), bits(&rec));
            ensure!(s.count() == n, "{name}: count {} of {n}", s.count());
            if n == 0 {
                ensure!(s.min().is_none() && s.max().is_none() && s.arg_min().is_none() && s.arg_max().is_none() && s.avg().is_none() && s.var().is_none() && s.std().is_none() && s.snapshot().is_none(), "{name}: reports something for no samples");
                ensure!(PopulatedStats::try_from(*s).is_err(), "{name}: populated without samples");
                continue;
            }
            let lo = v.iter().copied().fold(f64::INFINITY, f64::min); let hi = v.iter().copied().fold(f64::NEG_INFINITY, f64::max);
            ensure!(s.min() == Some(lo) && s.max() == Some(hi), "{name}: min {:?} max {:?}", s.min(), s.max());
            ensure!(s.arg_min() == v.iter().position(|x| *x == lo) && s.arg_max() == v.iter().position(|x| *x == hi), "{name}: positions {:?} {:?}", s.arg_min(), s.arg_max());
            for (k, p) in [s.snapshot(), PopulatedStats::try_from(*s).ok()].into_iter().enumerate() {
                let Some(p) = p else { return Err(format!("{name}: no snapshot ({k})")) };
                ensure!(p.count() == n && p.arg_min() == s.arg_min().unwrap() && p.arg_max() == s.arg_max().unwrap() && same(p.min(), s.min().unwrap()) && same(p.max(), s.max().unwrap())
                    && same(p.avg(), s.avg().unwrap()) && same(p.var(), s.var().unwrap()) && same(p.std(), s.std().unwrap()), "{name}: snapshot {p:?} of {s:?}");
            }
        }
        Ok(())
    });
    let vals = [0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, -0.0];
    for n in 0..=4u32 { for c in 0..6u32.pow(n) { let v: Vec<f64> = (0..n).map(|k| vals[(c / 6u32.pow(k) % 6) as usize]).collect(); for cut in 0..=n as usize { if ctx.more() { one(ctx, &v, cut) } } } }
    while ctx.more() {
        let n = if ctx.rarely(60) { ctx.rng.gen_range(600..10_000) } else { ctx.size(0, 600) };
        let v: Vec<f64> = match ctx.rng.gen_range(0..3) { 0 => (0..n).map(|_| ctx.float()).collect(), 1 => { let m = ctx.rng.gen_range(1..6); (0..n).map(|_| ctx.rng.gen_range(0..m) as f64).collect() } _ => { let s = [1.0, -1.0][ctx.rng.gen_range(0..2)]; (0..n).map(|i| s * (i / 2) as f64).collect() } };
        let cut = ctx.rng.gen_range(0..=n);
        one(ctx, &v, cut);
    }
}
/// exact-enough reference: two passes with compensated summation
fn moments(v: &[f64]) -> (f64, f64, f64) {
    let sum = |it: &mut dyn Iterator<Item = f64>| { let (mut s, mut c) = (0.0f64, 0.0f64); for x in it { let t = s + x; c += if s.abs() >= x.abs() { (s - t) + x } else { (x - t) + s }; s = t } s + c };
    let n = v.len() as f64;
    let mut m = sum(&mut v.iter().copied()) / n;
    m += sum(&mut v.iter().map(|x| x - m)) / n;
    let d = sum(&mut v.iter().map(|x| x - m));
    let ss = sum(&mut v.iter().map(|x| (x - m) * (x - m))) - d * d / n;
    (m, if v.len() > 1 { ss / (n - 1.0) } else { 0.0 }, v.iter().map(|x| (x - m).abs()).fold(0.0, f64::max))
}
pub fn c17(ctx: &mut Ctx) {
    ctx.case(|| "no samples".into(), || { let s = Stats::default(); ensure!(s.avg().is_none() && s.var().is_none() && s.std().is_none(), "reports something"); Ok(()) });
    while ctx.more() {
        let n = if ctx.rarely(60) { ctx.rng.gen_range(800..10_000) } else { ctx.size(1, 800) };
        let scale = 10f64.powi(ctx.rng.gen_range(-30..30)); let off = [0.0, 0.0, 1.0, -1e3, 1e6][ctx.rng.gen_range(0..5)] * scale;
        let v: Vec<f64> = if ctx.rng.gen_range(0..4) == 0 { let m = ctx.rng.gen_range(1..6); (0..n).map(|_| off + scale * ctx.rng.gen_range(0..m) as f64).collect() } else { (0..n).map(|_| off + scale * ctx.rng.gen_range(-1.0..1.0)).collect() };
        let (pick, how) = (ctx.below(2 * n), ctx.rng.gen_range(0..=n));
        ctx.case(|| format!("samples {v:?} collected up to {how}, position {pick}"), || {
            let mut s: Stats = v[..how].iter().copied().collect();
            for x in &v[how..] { s.record(*x) }
            let mut p = s.snapshot().ok_or("no snapshot")?;
            let (m, var, dev) = moments(&v);
            let big = v.iter().map(|x| x.abs()).fold(0.0, f64::max);
            let e = f64::EPSILON * 16.0 * n as f64;
            let tm = e * big; let tv = e * big * dev * 4.0 + (e * big) * (e * big) + var * e;
            for (name, a, b, c) in [("statistics", s.avg().unwrap(), s.var().unwrap(), s.std().unwrap()), ("snapshot", p.avg(), p.var(), p.std())] {
                ensure!((a - m).abs() <= tm, "{name}: average {a}, the mean is {m}");
                ensure!((b - var).abs() <= tv, "{name}: variance {b}, the sample variance is {var}");
                ensure!(same(c, b.sqrt()) || (c - b.sqrt()).abs() <= 4.0 * f64::EPSILON * c, "{name}: deviation {c} for variance {b}");
                if n == 1 { ensure!(b == 0.0 && c == 0.0, "{name}: variance {b} of a single sample"); }
            }
            let q = p;
            let (min, max, low) = (p.min(), p.max(), pick < n);
            let r = panics(|| { let mut z = q; z.set_arg_min(pick); });
            ensure!(r != low, "setting position {pick} of {n} {}", if r { "panicked" } else { "was accepted" });
            let r = panics(|| { let mut z = q; z.set_arg_max(pick); });
            ensure!(r != low, "setting maximum position {pick} of {n} {}", if r { "panicked" } else { "was accepted" });
            if low {
                let am = p.arg_max();
                p.set_arg_min(pick);
                ensure!(p.arg_min() == pick && p.arg_max() == am, "setting the minimum's position gives {p:?}");
                p.set_arg_max(n - 1 - pick);
                ensure!(p.arg_min() == pick && p.arg_max() == n - 1 - pick, "setting the maximum's position gives {p:?}");
                ensure!(p.count() == n && same(p.min(), min) && same(p.max(), max) && same(p.avg(), q.avg()) && same(p.var(), q.var()) && same(p.std(), q.std()), "setting positions changed {q:?} to {p:?}");
            }
            Ok(())
        });
    }
}
