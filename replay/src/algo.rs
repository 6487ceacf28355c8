use crate::ctx::*;
use crate::ensure;
use crate::popn::Ind;
use object_pool::Pool;
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use rusty_genes::*;
use std::collections::HashSet;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub trait Mk: Rng + Send { fn mk() -> Self; }
static SEEDS: AtomicU64 = AtomicU64::new(1);
impl Mk for EdgeRng { fn mk() -> Self { EdgeRng::new(SEEDS.fetch_add(1, SeqCst), 1) } }
impl Mk for SmallRng { fn mk() -> Self { SmallRng::seed_from_u64(SEEDS.fetch_add(1, SeqCst)) } }
impl Mk for ConstRng { fn mk() -> Self { ConstRng::new(1 << 62) } }

/// An individual that records what was done to it.
#[derive(Clone, Debug)]
pub struct Tr { id: u64, fit: f64, hist: String }
impl PartialEq for Tr { fn eq(&self, o: &Self) -> bool { self.id == o.id } }
impl Individual for Tr { fn fitness(&self) -> f64 { self.fit } }
impl RandomIndividual<u64> for Tr { fn new_random<R: Rng>(a: &u64, rng: &mut R) -> Self { Tr { id: rng.next_u64() >> 1, fit: f64::NAN, hist: format!("r{a};") } } }

struct Breeder<R> { log: Mutex<String>, fit: f64, survive: Option<bool>, next: AtomicU64, _r: PhantomData<fn() -> R> }
impl<R: Mk> EvolutionModel for Breeder<R> {
    type Individual = Tr;
    type Rng = R;
    fn rng() -> R { R::mk() }
    fn crossover(&self, a: &Tr, b: &Tr, _: &mut R) -> Tr { self.log.lock().unwrap().push_str(&format!("x{},{};", a.id, b.id)); Tr { id: self.next.fetch_add(1, SeqCst), fit: f64::NAN, hist: format!("x{},{};", a.id, b.id) } }
    fn mutate(&self, i: &mut Tr, _: &mut R) { self.log.lock().unwrap().push_str("m;"); i.hist.push_str("m;"); }
    fn improve(&self, i: &mut Tr) { self.log.lock().unwrap().push_str("i;"); i.hist.push_str("i;"); }
    fn evaluate(&self, i: &mut Tr) { self.log.lock().unwrap().push_str("e;"); i.hist.push_str("e;"); i.fit = self.fit; }
    fn can_survive(&self, o: &Tr, p: &Tr, _: &Population<Tr>, _: &mut R) -> bool { self.survive.unwrap_or(o.fit >= p.fit) }
}
/// the same, with the survival rule of the library
struct Plain<R>(Breeder<R>);
impl<R: Mk> EvolutionModel for Plain<R> {
    type Individual = Tr;
    type Rng = R;
    fn rng() -> R { R::mk() }
    fn crossover(&self, a: &Tr, b: &Tr, r: &mut R) -> Tr { self.0.crossover(a, b, r) }
    fn mutate(&self, i: &mut Tr, r: &mut R) { self.0.mutate(i, r) }
    fn improve(&self, i: &mut Tr) { self.0.improve(i) }
    fn evaluate(&self, i: &mut Tr) { self.0.evaluate(i) }
}
struct Picks { picks: Vec<usize>, calls: AtomicUsize }
impl<R: Rng> SelectionMechanism<Tr, R> for Picks {
    fn prepare(&mut self, _: &Population<Tr>) {}
    fn select<'a>(&self, p: &'a Population<Tr>, _: &mut R) -> (usize, &'a Tr) { let k = self.calls.fetch_add(1, SeqCst); let i = self.picks[k % self.picks.len()] % p.len(); (i, &p[i]) }
}
pub fn c21(ctx: &mut Ctx) {
    ctx.case(|| "frequencies of crossing and mutating at rates 0.5 and 0.25".into(), || {
        let p = Population::new((0..8u64).map(|i| Tr { id: i, fit: i as f64, hist: String::new() }).collect());
        let m = Plain(Breeder::<SmallRng> { log: Mutex::default(), fit: 100.0, survive: None, next: AtomicU64::new(100), _r: PhantomData });
        let par = ReproductionParameters { crossover_rate: 0.5, mutation_rate: 0.25, parent_selector: Box::new(Picks { picks: (0..8).collect(), calls: AtomicUsize::new(0) }) };
        let mut g = SmallRng::seed_from_u64(4);
        let mut c = [0f64; 4];
        for _ in 0..20_000 { let o = m.breed(&p, &par, &mut g); c[o.hist.contains('x') as usize * 2 + o.hist.contains('m') as usize] += 1.0 }
        for (k, e) in [0.375, 0.125, 0.375, 0.125].iter().enumerate() { let e = e * 20_000.0; ensure!((c[k] - e).abs() < 8.0 * f64::sqrt(e), "neither/mutated/crossed/both: {c:?}"); }
        Ok(())
    });
    while ctx.more() {
        let n = ctx.size(1, 60).max(1);
        let vals: Vec<f64> = (0..3).map(|_| ctx.finite()).collect();
        let members: Vec<Tr> = (0..n as u64).map(|i| Tr { id: i, fit: if ctx.rng.gen() { vals[ctx.rng.gen_range(0..3)] } else { ctx.finite() }, hist: String::new() }).collect();
        let p = Population::new(members);
        let a = ctx.rng.gen_range(0..n);
        let mut picks: Vec<usize> = vec![a];
        for _ in 0..5 { picks.push(if ctx.rng.gen() { a } else { ctx.rng.gen_range(0..n) }) }
        let w = word_for(ctx.ratio());
        let r = ConstRng::new(w).value();
        let rate = |ctx: &mut Ctx| match ctx.rng.gen_range(0..5) { 0 => r, 1 => 0.0, 2 => 1.0, 3 => r + f64::EPSILON, _ => ctx.ratio() };
        let (cr, mr) = (rate(ctx), rate(ctx));
        let (p1, p2) = (&p[picks[0]], if n > 1 && r < cr { picks[1..4].iter().map(|&k| &p[k]).find(|x| x.id != p[picks[0]].id) } else { None });
        let top = p1.fit.max(p2.map_or(p1.fit, |q| q.fit)); let lowp = p1.fit.min(p2.map_or(p1.fit, |q| q.fit));
        let fit = match ctx.rng.gen_range(0..8) { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 => top, 4 => lowp, 5 => (top + lowp) / 2.0, 6 => top + 1.0, _ => ctx.float() };
        let survive = [None, None, None, Some(true), Some(false)][ctx.rng.gen_range(0..5)];
        let desc = || format!("population {:?} selections {picks:?} draw {r} rates {cr} {mr} offspring fitness {fit} survival {survive:?}", p.iter().map(|t| (t.id, t.fit)).collect::<Vec<_>>());
        ctx.case(desc, || {
            let m = Breeder::<ConstRng> { log: Mutex::default(), fit, survive, next: AtomicU64::new(100_000), _r: PhantomData };
            let par = ReproductionParameters { crossover_rate: cr, mutation_rate: mr, parent_selector: Box::new(Picks { picks: picks.clone(), calls: AtomicUsize::new(0) }) };
            let mut g = ConstRng::new(w);
            let (o, log) = if survive.is_none() { let m = Plain(m); let par = ReproductionParameters { crossover_rate: cr, mutation_rate: mr, parent_selector: par.parent_selector }; let o = m.breed(&p, &par, &mut g); let l = m.0.log.into_inner().unwrap(); (o, l) } else { let o = m.breed(&p, &par, &mut g); let l = m.log.into_inner().unwrap(); (o, l) };
            let tail = format!("{}i;e;", if r < mr { "m;" } else { "" });
            let hists: Vec<String> = match p2 { None => vec![tail.clone()], Some(q) => vec![format!("x{},{};{tail}", p1.id, q.id), format!("x{},{};{tail}", q.id, p1.id)] };
            ensure!(hists.contains(&log), "did {log:?} instead of {:?}", hists[0]);
            let ok = fit.is_finite() && survive.unwrap_or(fit >= top);
            if ok { ensure!(hists.contains(&o.hist) && (o.fit == fit) && (p2.is_some() || o.id == p1.id), "returned {o:?} instead of the offspring"); }
            else { ensure!(o.hist.is_empty() && o.fit == top && (o.id == p1.id || p2.map_or(false, |q| o.id == q.id)), "returned {o:?} instead of a copy of the fitter parent"); }
            Ok(())
        });
    }
}

/// Breeds numbered individuals and evaluates by a table.
struct Counter { bred: AtomicU64, table: Vec<f64>, evals: Vec<AtomicUsize> }
impl Counter { fn new(table: Vec<f64>) -> Self { let n = table.len(); Counter { bred: AtomicU64::new(0), table, evals: (0..n).map(|_| AtomicUsize::new(0)).collect() } } }
#[derive(Clone, Debug)]
pub struct Pl { at: usize, id: u64, fit: f64 }
impl PartialEq for Pl { fn eq(&self, o: &Self) -> bool { self.id == o.id } }
impl Individual for Pl { fn fitness(&self) -> f64 { self.fit } }
impl EvolutionModel for Counter {
    type Individual = Pl;
    type Rng = EdgeRng;
    fn rng() -> EdgeRng { EdgeRng::mk() }
    fn crossover(&self, a: &Pl, _: &Pl, _: &mut EdgeRng) -> Pl { a.clone() }
    fn mutate(&self, _: &mut Pl, _: &mut EdgeRng) {}
    fn evaluate(&self, i: &mut Pl) { if i.at < self.table.len() { self.evals[i.at].fetch_add(1, SeqCst); i.fit = self.table[i.at]; } }
    fn breed(&self, _: &Population<Pl>, _: &ReproductionParameters<Self>, _: &mut EdgeRng) -> Pl { Pl { at: usize::MAX, id: (1 << 40) + self.bred.fetch_add(1, SeqCst), fit: 0.0 } }
}
fn ga_params(size: usize, el: f64) -> GeneticAlgorithmParameters { GeneticAlgorithmParameters { population_size: size, elitism_rate: el, ..Default::default() } }
fn aga_params(size: usize, el: f64) -> AdaptiveGeneticAlgorithmParameters { AdaptiveGeneticAlgorithmParameters { population_size: size, elitism_rate: el, ..Default::default() } }
fn generation<A: EvolutionAlgorithm<Counter> + From<Counter>>(par: &A::Parameters, p: &Population<Pl>, size: usize, el: f64, placed: usize) -> Result<(), String> {
    let mut a = A::from(Counter::new(vec![]));
    a.configure(par);
    let k = (size as f64 * el).floor() as usize;
    let mut e = vec![];
    a.select_elites(p, &mut e);
    let ids = |v: &[Pl]| v.iter().map(|i| i.id).collect::<Vec<_>>();
    let want = ids(&p[p.len() - k.min(p.len())..]);
    ensure!(ids(&e) == want, "elite {:?} instead of {want:?}, the fittest {k} of {:?}", ids(&e), ids(p));
    let mut pre: Vec<Pl> = (0..3).map(|i| Pl { at: usize::MAX, id: 900 + i, fit: 0.5 }).collect();
    a.select_elites(p, &mut pre);
    ensure!(ids(&pre) == [&[900, 901, 902][..], &want].concat(), "selecting the elite changed what was there: {:?}", ids(&pre));
    let pool = Pool::new(2, EdgeRng::mk);
    for mut off in [e, (0..placed as u64).map(|i| Pl { at: usize::MAX, id: 5000 + i, fit: 0.5 }).collect()] {
        let before = ids(&off);
        let b0 = a.model().bred.load(SeqCst);
        a.generate_new_population(p, &mut off, &pool);
        ensure!(ids(&off).starts_with(&before), "members placed before ({before:?}) became {:?}", ids(&off));
        ensure!(off.len() == size.max(before.len()), "{} members for size {size} with {} placed before", off.len(), before.len());
        let fresh: HashSet<u64> = off[before.len()..].iter().map(|i| i.id).filter(|i| *i >= 1 << 40).collect();
        ensure!(fresh.len() == off.len() - before.len() && a.model().bred.load(SeqCst) - b0 == fresh.len() as u64, "{} of {} new members are newly bred, {} bred", fresh.len(), off.len() - before.len(), a.model().bred.load(SeqCst) - b0);
    }
    Ok(())
}
pub fn c22(ctx: &mut Ctx) {
    while ctx.more() {
        let size = ctx.size(1, 400); let el = match ctx.rng.gen_range(0..6) { 0 => 0.0, 1 => 1.0 - f64::EPSILON / 2.0, 2 => (ctx.below(size) as f64 / size as f64).min(0.999999), 3 => 0.5, _ => ctx.rng.gen_range(0.0..1.0) };
        let n = ctx.size(1, 300); let placed = match ctx.rng.gen_range(0..4) { 0 => size, 1 => size - 1, 2 => size + ctx.rng.gen_range(0..4), _ => ctx.size(0, size) };
        let ties = ctx.rng.gen_range(1..20u64); let adaptive: bool = ctx.rng.gen();
        ctx.case(|| format!("adaptive={adaptive} size={size} elitism={el:?} population of {n} placed={placed} ties={ties}"), || {
            let p = Population::new((0..n as u64).map(|i| Pl { at: usize::MAX, id: i, fit: (i % ties) as f64 }).collect());
            if adaptive { generation::<AdaptiveGeneticAlgorithm<Counter>>(&aga_params(size, el), &p, size, el, placed) } else { generation::<GeneticAlgorithm<Counter>>(&ga_params(size, el), &p, size, el, placed) }
        });
    }
}
pub fn c23(ctx: &mut Ctx) {
    while ctx.more() {
        let n = match ctx.rng.gen_range(0..30) { 0 => 3000, _ => ctx.size(0, 400) };
        let ids = ctx.rng.gen_range(1..=n.max(1) as u64 * 2);
        let few: Vec<f64> = (0..4).map(|_| if ctx.rng.gen_range(0..3) == 0 { f64::NAN } else { ctx.float() }).collect();
        let style = ctx.rng.gen_range(0..4);
        let by_id: Vec<f64> = (0..ids).map(|_| match style { 0 => few[ctx.rng.gen_range(0..4)], 1 => { let k = if ctx.rng.gen_range(0..3) == 0 { 3 } else { 4 }; [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0][ctx.rng.gen_range(0..k)] }, 2 => ctx.finite(), _ => if ctx.rng.gen_range(0..8) == 0 { f64::NAN } else { ctx.float() } }).collect();
        let v: Vec<Pl> = (0..n).map(|at| Pl { at, id: ctx.rng.gen_range(0..ids), fit: ctx.float() }).collect();
        let table: Vec<f64> = v.iter().map(|i| by_id[i.id as usize]).collect();
        let adaptive: bool = ctx.rng.gen();
        ctx.case(|| format!("adaptive={adaptive} individuals (id, evaluated fitness) {:?}", v.iter().map(|i| (i.id, by_id[i.id as usize])).collect::<Vec<_>>()), || {
            let mut want: Vec<u64> = v.iter().filter(|i| by_id[i.id as usize].is_finite()).map(|i| i.id).collect(); want.sort(); want.dedup();
            let m = Counter::new(table.clone());
            fn go<A: EvolutionAlgorithm<Counter> + From<Counter>>(m: Counter, v: Vec<Pl>) -> (Option<Population<Pl>>, A) { let a = A::from(m); let mut p = None; let failed = panics(|| p = Some(a.initialize_population(v))); if failed { p = None } (p, a) }
            let (p, evals) = if adaptive { let (p, a) = go::<AdaptiveGeneticAlgorithm<Counter>>(m, v.clone()); let e: Vec<usize> = a.model().evals.iter().map(|e| e.load(SeqCst)).collect(); (p, e) } else { let (p, a) = go::<GeneticAlgorithm<Counter>>(m, v.clone()); let e: Vec<usize> = a.model().evals.iter().map(|e| e.load(SeqCst)).collect(); (p, e) };
            if let Some(k) = evals.iter().position(|e| *e != 1) { return Err(format!("individual {k} was evaluated {} times", evals[k])) }
            let Some(p) = p else { ensure!(want.is_empty(), "panicked although {} valid individuals exist", want.len()); return Ok(()) };
            ensure!(!want.is_empty(), "accepted a list without any valid individual");
            let mut have: Vec<u64> = p.iter().map(|i| i.id).collect(); have.sort();
            ensure!(have == want, "population holds {have:?}, the valid individuals are {want:?}");
            ensure!(p.iter().all(|i| i.fit.to_bits() == by_id[i.id as usize].to_bits()), "a member does not carry its evaluated fitness");
            ensure!(p.generation() == 0, "starts at generation {}", p.generation());
            Ok(())
        });
    }
}

/// A noisy problem: crossover, mutation and improvement do whatever they like, survival accepts everything.
struct Wild { salt: u64, evals: AtomicUsize, anything: bool, seq: AtomicU64 }
fn mix(x: u64) -> u64 { let mut z = x.wrapping_add(0x9E3779B97F4A7C15); z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
impl Wild { fn value(&self, id: u64) -> f64 { let h = mix(id ^ self.salt); match h % 11 { 0 => f64::NAN, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, 3 | 4 => (h >> 40) as f64 % 5.0, _ => (h >> 20) as f64 / 1e9 - 3000.0 } } }
#[derive(Clone, Debug)]
struct Wi { id: u64, fit: f64 }
impl PartialEq for Wi { fn eq(&self, o: &Self) -> bool { self.id == o.id && self.fit == o.fit } }
impl Individual for Wi { fn fitness(&self) -> f64 { self.fit } }
impl RandomIndividual<u64> for Wi { fn new_random<R: Rng>(a: &u64, rng: &mut R) -> Self { Wi { id: rng.gen_range(0..=*a), fit: f64::NAN } } }
impl EvolutionModel for Wild {
    type Individual = Wi;
    type Rng = EdgeRng;
    fn rng() -> EdgeRng { EdgeRng::mk() }
    fn crossover(&self, a: &Wi, b: &Wi, r: &mut EdgeRng) -> Wi { Wi { id: if r.gen() { a.id } else { b.id ^ 1 }, fit: if r.gen() { a.fit } else { -1.0 } } }
    fn mutate(&self, i: &mut Wi, r: &mut EdgeRng) { i.id = r.gen_range(0..5000); i.fit = -2.0 }
    fn improve(&self, i: &mut Wi) { if i.id % 3 == 0 { i.id /= 2; i.fit = 1e6 } }
    fn evaluate(&self, i: &mut Wi) { self.evals.fetch_add(1, SeqCst); i.fit = if self.anything { self.value(mix(self.seq.fetch_add(1, SeqCst))) } else { self.value(i.id) } }
    fn can_survive(&self, o: &Wi, _: &Wi, _: &Population<Wi>, _: &mut EdgeRng) -> bool { self.anything || o.id % 2 == 0 }
}
fn strat(ctx: &mut Ctx) -> SelectionStrategy { match ctx.rng.gen_range(0..6) { 0 => SelectionStrategy::Tournament(ctx.rng.gen_range(1..6)), 1 => SelectionStrategy::RouletteWheel, 2 => SelectionStrategy::Boltzmann(10.0, 0.9), 3 => SelectionStrategy::Rank, 4 => SelectionStrategy::Linear(1.5), _ => SelectionStrategy::Elitist(0.3) } }
fn best(p: &Population<Wi>) -> f64 { p.iter().map(|i| i.fit).fold(f64::NEG_INFINITY, f64::max) }
pub fn c32(ctx: &mut Ctx) {
    while ctx.more() {
        let size = if ctx.rarely(25) { ctx.rng.gen_range(120..700) } else { ctx.size(2, 120) }; let k = ctx.rng.gen_range(1..size); let el = ((k as f64 + 0.5) / size as f64).min(0.9999); let gens = ctx.rng.gen_range(1..25usize);
        let k = (size as f64 * el).floor() as usize;
        let st = strat(ctx); let (cr, mr) = (ctx.ratio(), ctx.ratio()); let adaptive: bool = ctx.rng.gen(); let salt: u64 = ctx.rng.gen(); let anything: bool = ctx.rng.gen(); let span = [3u64, 50, 100_000][ctx.rng.gen_range(0..3)];
        let n0 = ctx.size(1, 200); let ids: Vec<u64> = (0..n0).map(|_| ctx.rng.gen_range(0..=span)).collect();
        ctx.case(|| format!("adaptive={adaptive} size={size} elitism={el:?} {st:?} rates {cr} {mr} salt={salt} anything={anything} ids={ids:?} generations={gens}"), || {
            let m = Wild { salt, evals: AtomicUsize::new(0), anything, seq: AtomicU64::new(0) };
            if !ids.iter().any(|i| m.value(*i).is_finite()) && !anything { return Ok(()) }
            let v: Vec<Wi> = ids.iter().map(|&id| Wi { id, fit: f64::NAN }).collect();
            let mut bests: Vec<f64> = vec![]; let mut sizes = vec![]; let mut worst_err = None;
            let mut cb = |p: &Population<Wi>| { bests.push(best(p)); sizes.push(p.len()); if p.iter().any(|i| !i.fit.is_finite()) { worst_err = Some(bests.len()) } bests.len() <= gens };
            let mut fin = None;
            let none_valid = panics(|| fin = Some(if adaptive {
                let mut par = aga_params(size, el); par.selection_strategy = st; par.crossover_rate_range = 0.0..cr; par.mutation_rate_range = mr..1.0;
                Evolution::<AdaptiveGeneticAlgorithm<Wild>, Wild>::from(AdaptiveGeneticAlgorithm::from(m)).evolve_population(v, &par, &mut cb)
            } else {
                let mut par = ga_params(size, el); par.selection_strategy = st; par.crossover_rate = cr; par.mutation_rate = mr;
                Evolution::<GeneticAlgorithm<Wild>, Wild>::from(GeneticAlgorithm::from(m)).evolve_population(v, &par, &mut cb)
            }));
            if none_valid && anything && bests.is_empty() { return Ok(()) } // no valid initial individual
            ensure!(!none_valid, "panicked");
            let fin = fin.unwrap();
            for g in 1..bests.len() { ensure!(bests[g] >= bests[g - 1], "best fitness fell from {} to {} at generation {g}", bests[g - 1], bests[g]); }
            for g in 1..sizes.len() { ensure!(sizes[g] <= size.max(k), "{} members in generation {g}", sizes[g]); }
            let t = fin.take_fittest();
            ensure!(t.fit >= bests[0] && t.fit == *bests.last().unwrap(), "returned fitness {} although the best seen is {:?}", t.fit, bests.last());
            Ok(())
        });
    }
}

// ---- C24: the driver, watched through an algorithm that logs its calls
struct Watch { inner: GeneticAlgorithm<Wild>, log: Mutex<Vec<String>>, initial: Mutex<Vec<usize>> }
impl From<Wild> for Watch { fn from(m: Wild) -> Self { Watch { inner: m.into(), log: Mutex::default(), initial: Mutex::default() } } }
struct WatchParams { ga: GeneticAlgorithmParameters, initial: usize, log: std::sync::Arc<Mutex<Vec<String>>> }
impl EvolutionParameters for WatchParams {
    fn initial_population_size(&self) -> usize { self.initial }
    fn max_population_size(&self) -> usize { self.ga.population_size.max(self.initial) }
    fn validate(&self) { self.ga.validate() }
}
impl EvolutionAlgorithm<Wild> for Watch {
    type Parameters = WatchParams;
    fn model(&self) -> &Wild { self.inner.model() }
    fn reproduction_parameters(&self) -> (&ReproductionParameters<Wild>, usize) { self.inner.reproduction_parameters() }
    fn configure(&mut self, p: &WatchParams) { p.log.lock().unwrap().push("configure".into()); self.inner.configure(&p.ga); *self.log.get_mut().unwrap() = vec![]; PARENT.with(|l| *l.borrow_mut() = Some(p.log.clone())) }
    fn initialize_population(&self, v: Vec<Wi>) -> Population<Wi> { self.initial.lock().unwrap().push(v.len()); say(format!("initialize {}", v.len())); self.inner.initialize_population(v) }
    fn prepare_for_next_population(&mut self, p: &Population<Wi>) { say(format!("prepare {}", p.generation())); self.inner.prepare_for_next_population(p) }
    fn select_elites(&self, p: &Population<Wi>, e: &mut Vec<Wi>) { if !e.is_empty() { say(format!("elites into {} members", e.len())) } self.inner.select_elites(p, e) }
    fn generate_new_population(&self, p: &Population<Wi>, o: &mut Vec<Wi>, pool: &Pool<EdgeRng>) { say("generate".into()); self.inner.generate_new_population(p, o, pool) }
    fn replace_population(&self, p: &mut Population<Wi>, o: &mut Vec<Wi>) { say("replace".into()); self.inner.replace_population(p, o) }
}
thread_local!(static PARENT: std::cell::RefCell<Option<std::sync::Arc<Mutex<Vec<String>>>>> = Default::default());
fn say(s: String) { PARENT.with(|l| if let Some(l) = &*l.borrow() { l.lock().unwrap().push(s) }) }
pub fn c24(ctx: &mut Ctx) {
    while ctx.more() {
        let long = ctx.rarely(60);
        let size = if long { ctx.rng.gen_range(1..6) } else { ctx.size(1, 80) }; let el = ctx.rng.gen_range(0.0..1.0); let gens = match ctx.rng.gen_range(0..4) { _ if long => ctx.rng.gen_range(200..1500), 0 => 0, 1 => 1, _ => ctx.rng.gen_range(0..20usize) }; let salt: u64 = ctx.rng.gen(); let initial = if long { ctx.rng.gen_range(1..6) } else { ctx.size(1, 60) };
        let st = strat(ctx); let how = ctx.rng.gen_range(0..3u32); let alg = ctx.rng.gen_range(0..3u32);
        let good = (0..4000u64).find(|i| Wild { salt, evals: AtomicUsize::new(0), anything: false, seq: AtomicU64::new(0) }.value(*i).is_finite()).unwrap();
        ctx.case(|| format!("algorithm {alg} entry {how} size={size} initial={initial} elitism={el:?} {st:?} salt={salt} stop after {gens} generations"), || {
            let m = Wild { salt, evals: AtomicUsize::new(0), anything: false, seq: AtomicU64::new(0) };
            let mut seen: Vec<(usize, Vec<(u64, u64)>, f64)> = vec![];
            let log = std::sync::Arc::new(Mutex::new(vec![]));
            let l2 = log.clone();
            let mut cb = |p: &Population<Wi>| { l2.lock().unwrap().push(format!("progress {}", p.generation())); seen.push((p.generation(), p.iter().map(|i| (i.id, i.fit.to_bits())).collect(), best(p))); seen.len() <= gens };
            let mut ga = ga_params(size, el); ga.selection_strategy = st; let mut aga = aga_params(size, el); aga.selection_strategy = st;
            enum Out { Pop(Population<Wi>), Ind(Wi) }
            let v: Vec<Wi> = (0..initial as u64).map(|i| Wi { id: if i == 0 { good } else { mix(salt ^ i) % 1000 }, fit: f64::NAN }).collect();
            let vn = v.len();
            fn go<A: EvolutionAlgorithm<Wild>>(e: &Evolution<A, Wild>, how: u32, par: &A::Parameters, v: Vec<Wi>, good: u64, cb: &mut dyn FnMut(&Population<Wi>) -> bool) -> Out {
                match how { 0 => Out::Pop(e.evolve_population(v, par, cb)), 1 => Out::Ind(e.evolve_individual(Wi { id: good, fit: 1.0 }, par, cb)), _ => Out::Ind(e.run(&5000u64, par, cb)) }
            }
            let mut out = None;
            let want_initial = match (how, alg) { (0, _) => vn, (_, 2) => initial, _ => size };
            let failed = panics(|| out = Some(match alg {
                0 => go(&Evolution::from(GeneticAlgorithm::from(m)), how, &ga, v.clone(), good, &mut cb),
                1 => go(&Evolution::from(AdaptiveGeneticAlgorithm::from(m)), how, &aga, v.clone(), good, &mut cb),
                _ => go(&Evolution::from(Watch::from(m)), how, &WatchParams { ga, initial, log: log.clone() }, v.clone(), good, &mut cb),
            }));
            // random initial individuals may all be invalid: then the evolution refuses to start
            if failed { ensure!(how == 2 && seen.is_empty(), "panicked"); return Ok(()) }
            ensure!(seen.len() == gens + 1, "callback asked {} times although it said stop after {gens} generations", seen.len());
            for (k, s) in seen.iter().enumerate() { ensure!(s.0 == k, "call {k} showed generation {}", s.0); }
            let last = seen.last().unwrap();
            match out.unwrap() {
                Out::Pop(p) => ensure!(p.generation() == gens && p.iter().map(|i| (i.id, i.fit.to_bits())).collect::<Vec<_>>() == last.1, "returned population differs from the one the callback saw last"),
                Out::Ind(i) => ensure!(i.fit == last.2 && last.1.contains(&(i.id, i.fit.to_bits())), "returned {i:?}, the best fitness seen last is {}", last.2),
            }
            let log = log.lock().unwrap();
            if alg == 2 {
                let mut want = vec!["configure".to_string(), format!("initialize {want_initial}")];
                for g in 0..=gens { want.push(format!("progress {g}")); if g < gens { want.push(format!("prepare {g}")); want.push("generate".into()); want.push("replace".into()); } }
                ensure!(*log == want, "did {:?} instead of {want:?}", *log);
            }
            Ok(())
        });
    }
}

// ---- C25 / C26
struct Quiet;
impl EvolutionModel for Quiet {
    type Individual = Ind;
    type Rng = EdgeRng;
    fn rng() -> EdgeRng { EdgeRng::mk() }
    fn crossover(&self, a: &Ind, _: &Ind, _: &mut EdgeRng) -> Ind { a.clone() }
    fn mutate(&self, _: &mut Ind, _: &mut EdgeRng) {}
    fn evaluate(&self, _: &mut Ind) {}
}
pub fn c25(ctx: &mut Ctx) {
    while ctx.more() {
        let (c0, c1, m0, m1) = (ctx.ratio(), ctx.ratio(), ctx.ratio(), ctx.ratio());
        let long = ctx.rarely(50);
        let interval = match ctx.rng.gen_range(0..5) { _ if long => ctx.rng.gen_range(40..1200), 0 => 0, 1 => 1, 2 => ctx.size(0, 40), _ => ctx.rng.gen_range(1..5) };
        let steps = ctx.rng.gen_range(1..10usize).max(if long || interval < 12 { interval * 2 + 2 } else { 0 });
        let style = ctx.rng.gen_range(0..4);
        let pops: Vec<Vec<Ind>> = (0..steps).map(|g| {
            let n = ctx.rng.gen_range(1..if long { 4 } else { 12u64 });
            let flat = ctx.rng.gen_range(0..4) == 0 || style == 1 && g == 0;
            let s = match style { 0 | 1 => 1.0, 2 => 10f64.powi(ctx.rng.gen_range(-20..20)), _ => [f64::MAX, 1e200, 5e-324, 1.0][ctx.rng.gen_range(0..4)] };
            (0..n).map(|i| Ind { id: i, fit: if flat { 0.5 } else { s * ctx.rng.gen_range(-1.0..1.0) } }).collect()
        }).collect();
        ctx.case(|| format!("crossover {c0:?}..{c1:?} mutation {m0:?}..{m1:?} interval {interval} populations {:?}", pops.iter().map(|p| p.iter().map(|i| i.fit).collect::<Vec<_>>()).collect::<Vec<_>>()), || {
            let mut a = AdaptiveGeneticAlgorithm::from(Quiet);
            a.configure(&AdaptiveGeneticAlgorithmParameters { population_size: 10, elitism_rate: 0.1, crossover_rate_range: c0..c1, mutation_rate_range: m0..m1, selection_strategy: SelectionStrategy::Rank, parameter_adjustment_interval: interval });
            let mut p = Population::new(pops[0].clone());
            let (mut ec, mut em, mut refstd) = (c1, m0, 0.0);
            for g in 0..pops.len() {
                if g > 0 { p.replace(&mut pops[g].clone()) }
                a.prepare_for_next_population(&p);
                let std = p.stats().std();
                if g == 0 { refstd = std } else if interval != 0 && g % interval == 0 {
                    let d = std / refstd; let d = if d.is_nan() { 0.0 } else { d.clamp(0.0, 1.0) };
                    ec = c0 + (c1 - c0) * d; em = m0 + (m1 - m0) * (1.0 - d);
                }
                let rp = a.reproduction_parameters().0;
                let (c, m) = (rp.crossover_rate, rp.mutation_rate);
                ensure!(!c.is_nan() && !m.is_nan(), "generation {g}: rates {c} {m}");
                let e = 1e-12;
                ensure!(c >= c0.min(c1) - e && c <= c0.max(c1) + e && m >= m0.min(m1) - e && m <= m0.max(m1) + e, "generation {g}: rates {c} {m} outside their ranges");
                let exact = g == 0 || interval == 0 || g < interval;
                ensure!((c - ec).abs() <= if exact { 0.0 } else { e } && (m - em).abs() <= if exact { 0.0 } else { e }, "generation {g}: rates {c} {m}, expected {ec} {em}");
                let flat = p.len() == 1 || p.iter().all(|i| i.fit == p[0].fit);
                if flat && g > 0 && interval != 0 && g % interval == 0 { ensure!((c - c0).abs() <= e && (m - m1).abs() <= e, "generation {g} without diversity: rates {c} {m}"); }
            }
            Ok(())
        });
    }
}
fn same_selector(a: &dyn SelectionMechanism<Ind, EdgeRng>, b: &dyn SelectionMechanism<Ind, EdgeRng>, seed: u64) -> Result<(), String> {
    let p = Population::new((0..23u64).map(|i| Ind { id: i, fit: (i * i) as f64 }).collect());
    let (mut g, mut h) = (EdgeRng::new(seed, 0), EdgeRng::new(seed, 0));
    for k in 0..24 { let (i, j) = (a.select(&p, &mut g).0, b.select(&p, &mut h).0); ensure!(i == j, "selection {k} of the configured selector is {i}, of the given strategy {j}"); }
    Ok(())
}
pub fn c26(ctx: &mut Ctx) {
    let odd = [0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1.0 - f64::EPSILON / 2.0, 1.0 + f64::EPSILON, -5e-324, 5e-324, 0.5, 2.0];
    while ctx.more() {
        let val = |ctx: &mut Ctx| match ctx.rng.gen_range(0..3) { 0 => odd[ctx.rng.gen_range(0..odd.len())], _ => ctx.ratio() };
        let nice = ctx.rng.gen_range(0..5) != 0;
        let fix = |ctx: &mut Ctx, v: f64| if nice && ctx.rng.gen_range(0..8) != 0 && !(0.0..1.0).contains(&v) { 0.25 } else { v };
        let size = match ctx.rng.gen_range(0..8) { 0 => 0, 1 => 1, 2 => 1 << 40, _ => ctx.size(0, 5000) };
        let mut v = || { let x = val(ctx); fix(ctx, x) };
        let (el, a, b, c, d) = (v(), v(), v(), v(), v());
        let st = match ctx.rng.gen_range(0..9) { 0 => SelectionStrategy::Tournament(ctx.size(0, 50)), 1 => SelectionStrategy::Elitist(val(ctx)), 2 => SelectionStrategy::Boltzmann(val(ctx), val(ctx)), 3 => SelectionStrategy::Linear(val(ctx)), _ => strat(ctx) };
        let interval = ctx.size(0, 50); let seed: u64 = ctx.rng.gen();
        let ok = |x: f64| x >= 0.0 && x <= 1.0; let st_ok = match st { SelectionStrategy::Tournament(k) => k != 0, SelectionStrategy::Elitist(r) => r >= 0.0 && r < 1.0, SelectionStrategy::Boltzmann(_, c) => c != 0.0, _ => true };
        let base = size != 0 && el >= 0.0 && el < 1.0;
        ctx.case(|| format!("genetic algorithm size={size} elitism={el:?} crossover={a:?} mutation={b:?} {st:?}"), || {
            let par = GeneticAlgorithmParameters { population_size: size, elitism_rate: el, crossover_rate: a, mutation_rate: b, selection_strategy: st };
            ensure!(par.initial_population_size() == size && par.max_population_size() == size, "sizes {} {}", par.initial_population_size(), par.max_population_size());
            let valid = base && ok(a) && ok(b);
            ensure!(panics(|| par.validate()) != valid, "validation {} these parameters", if valid { "rejects" } else { "accepts" });
            let mut g = GeneticAlgorithm::from(Quiet);
            let failed = panics(|| g.configure(&par));
            ensure!(failed != (valid && st_ok), "configuring {} these parameters", if failed { "rejects" } else { "accepts" });
            if failed { return Ok(()) }
            let (rp, n) = g.reproduction_parameters();
            ensure!(n == size && rp.crossover_rate == a && rp.mutation_rate == b, "applied size {n} rates {} {}", rp.crossover_rate, rp.mutation_rate);
            same_selector(&*rp.parent_selector, &*st.create_selector::<Ind, EdgeRng>(), seed)
        });
        ctx.case(|| format!("adaptive genetic algorithm size={size} elitism={el:?} crossover={a:?}..{b:?} mutation={c:?}..{d:?} {st:?} interval {interval}"), || {
            let par = AdaptiveGeneticAlgorithmParameters { population_size: size, elitism_rate: el, crossover_rate_range: a..b, mutation_rate_range: c..d, selection_strategy: st, parameter_adjustment_interval: interval };
            ensure!(par.initial_population_size() == size && par.max_population_size() == size, "sizes {} {}", par.initial_population_size(), par.max_population_size());
            let valid = base && ok(a) && ok(b) && ok(c) && ok(d);
            ensure!(panics(|| par.validate()) != valid, "validation {} these parameters", if valid { "rejects" } else { "accepts" });
            let mut g = AdaptiveGeneticAlgorithm::from(Quiet);
            let failed = panics(|| g.configure(&par));
            ensure!(failed != (valid && st_ok), "configuring {} these parameters", if failed { "rejects" } else { "accepts" });
            if failed { return Ok(()) }
            let p = Population::new((0..5u64).map(|i| Ind { id: i, fit: i as f64 }).collect());
            ensure!(g.reproduction_parameters().1 == size, "applied size {}", g.reproduction_parameters().1);
            same_selector(&*g.reproduction_parameters().0.parent_selector, &*st.create_selector::<Ind, EdgeRng>(), seed)?;
            g.prepare_for_next_population(&p);
            let rp = g.reproduction_parameters().0;
            ensure!(rp.crossover_rate == b && rp.mutation_rate == c, "generation zero has rates {} {}", rp.crossover_rate, rp.mutation_rate);
            Ok(())
        });
        let (x, y) = (val(ctx), val(ctx)); let (k, l) = (ctx.size(0, 50), ctx.size(0, 50));
        let same = |a: f64, b: f64| a == b || a.is_nan() && b.is_nan();
        ctx.case(|| format!("mechanisms with {x:?} then {y:?}, tournament {k} then {l}"), || {
            ensure!(panics(|| TournamentSelection::new(k)) == (k == 0), "tournament size {k}");
            let mut t = TournamentSelection::new(k.max(1)); ensure!(t.size() == k.max(1), "size reported as {}", t.size());
            ensure!(panics(|| t.set_size(l)) == (l == 0), "changing the tournament size to {l}"); ensure!(t.size() == if l == 0 { k.max(1) } else { l }, "size reported as {}", t.size());
            let vr = |r: f64| r >= 0.0 && r < 1.0;
            ensure!(panics(|| ElitistSelection::new(x)) != vr(x), "elitist ratio {x}");
            if vr(x) { let mut e = ElitistSelection::new(x); ensure!(e.ratio() == x, "ratio reported as {}", e.ratio()); ensure!(panics(|| e.set_ratio(y)) != vr(y), "changing the ratio to {y}"); ensure!(e.ratio() == if vr(y) { y } else { x }, "ratio reported as {}", e.ratio()); }
            ensure!(panics(|| BoltzmannSelection::new(y, x)) == (x == 0.0), "cooling rate {x}");
            if x != 0.0 { let mut b = BoltzmannSelection::new(y, x); ensure!(same(b.temperature(), y) && same(b.cooling_rate(), x), "reported as {} {}", b.temperature(), b.cooling_rate());
                ensure!(panics(|| b.set_cooling_rate(y)) == (y == 0.0), "changing the cooling rate to {y}"); ensure!(same(b.cooling_rate(), if y == 0.0 { x } else { y }), "cooling rate reported as {}", b.cooling_rate());
                b.set_temperature(x); ensure!(same(b.temperature(), x), "temperature reported as {}", b.temperature()); }
            let mut n = LinearSelection::new(x); ensure!(same(n.bias(), x), "bias reported as {}", n.bias()); n.set_bias(y); ensure!(same(n.bias(), y), "bias reported as {}", n.bias());
            Ok(())
        });
    }
}
pub fn c28(ctx: &mut Ctx) {
    while ctx.more() {
        let n = match ctx.rng.gen_range(0..30) { 0 => 4000, _ => ctx.size(0, 500) }; let old = ctx.size(0, 50); let arg = ctx.rng.gen_range(0..1000u64);
        let cap = ctx.rng.gen_range(0..3) * 30;
        ctx.case(|| format!("{old} existing, {n} more from {arg}"), || {
            let m = Breeder::<EdgeRng> { log: Mutex::default(), fit: 1.0, survive: None, next: AtomicU64::new(0), _r: PhantomData };
            let mut base: Vec<Tr> = Vec::with_capacity(cap);
            base.extend((0..old as u64).map(|i| Tr { id: i, fit: i as f64, hist: format!("old{i}") }));
            let k = |v: &[Tr]| v.iter().map(|t| (t.id, t.fit.to_bits(), t.hist.clone())).collect::<Vec<_>>();
            let mut v = base.clone();
            m.extend_population(&mut v, n, &arg);
            ensure!(v.len() == old + n && k(&v[..old]) == k(&base), "{} members, or the existing ones changed", v.len());
            ensure!(v[old..].iter().all(|t| t.hist == format!("r{arg};")), "a new member was not produced by the random constructor from the arguments");
            ensure!(m.log.lock().unwrap().is_empty(), "did {} on the way", m.log.lock().unwrap());
            let mut v = base.clone();
            let model = Tr { id: 77, fit: 3.5, hist: "model;".into() };
            m.extend_population_with(&mut v, n, model.clone());
            ensure!(v.len() == old + n && k(&v[..old]) == k(&base), "{} members, or the existing ones changed", v.len());
            if n > 0 { ensure!(k(&v[old..old + 1]) == k(&[model.clone()]), "the first new member is {:?}", v[old]); }
            for t in v.iter().skip(old + 1) { ensure!(t.hist == "model;m;" && t.id == 77, "a further member is {t:?}"); }
            Ok(())
        });
    }
}
