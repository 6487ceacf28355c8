%%prelude core f64 rng rngf f64leaf f64comm
%%include selhead
%%include tri
%%include drawn
%%raw
/// the running total of the first k of the numbers w, added in order
pub open spec fn run(w: Seq<F64>, k: int) -> F64 decreases k { if k <= 0 { f_zero() } else { f_add(run(w, k - 1), w[k - 1]) } }
/// r is the first position at which the running total reaches the target, or the last position if none does
pub open spec fn first_reaching(w: Seq<F64>, target: F64, r: int) -> bool {
    &&& 0 <= r < w.len()
    &&& forall|j: int| 0 <= j < r ==> !f_le(target, #[trigger] run(w, j + 1))
    &&& f_le(target, run(w, r + 1)) || r == w.len() - 1
}
pub open spec fn roulette_rule(w: Seq<F64>, total: F64, ds: Seq<Draw>, r: int) -> bool {
    ds.len() == 1 && match ds[0] { Draw::Unit { x } => first_reaching(w, f_mul(unit_f(x), total), r), _ => false }
}
/// r is a sum of the numbers w, added in whatever order and grouping
pub open spec fn sums(w: Seq<F64>, r: F64) -> bool { exists|v: Seq<F64>| #[trigger] is_sum(v, r) && v =~= w }
pub open spec fn boltzmann<I: Individual>(s: Seq<I>, temperature: F64) -> Seq<F64> { Seq::new(s.len(), |i: int| f_exp(f_div(s[i].fit(), temperature))) }
/// the highest of exactly `size` draws from 0..n
pub open spec fn tournament_rule(n: int, size: int, ds: Seq<Draw>, r: int) -> bool {
    exists|v: Seq<usize>| #[trigger] below_draws(0, n, v) == ds && v.len() == size && v.contains(r as usize) && 0 <= r < n && forall|i: int| 0 <= i < v.len() ==> v[i] <= r
}
/// one draw from n(n+1)/2 values, of which tri(r)+1 ..= tri(r+1) lead to r
pub open spec fn rank_rule(n: int, ds: Seq<Draw>, r: int) -> bool {
    ds.len() == 1 && match ds[0] { Draw::Below { lo, hi, v } => hi - lo == n * (n + 1) / 2 && tri(r) < v - lo + 1 <= tri(r + 1), _ => false }
}
/// one draw from the positions from floor(n * ratio) on
pub open spec fn elitist_rule(n: int, ratio: F64, ds: Seq<Draw>, r: int) -> bool {
    let bound = v_trunc(fv(f_floor(f_mul(f_of(n), ratio))));
    ds.len() == 1 && match ds[0] { Draw::Below { lo, hi, v } => hi - lo == n - bound && r == v - lo + bound, _ => false }
}
pub open spec fn linear_offset(n: int, b: F64, u: F64) -> int {
    v_trunc(fv(f_div(f_div(f_mul(f_of(n), f_sub(b, f_sqrt(f_sub(f_mul(b, b), f_mul(f_mul(f_lit(4, 1), f_sub(b, f_one())), u))))), f_lit(2, 1)), f_sub(b, f_one()))))
}
pub open spec fn capped(x: int, most: int) -> int { if x <= most { x } else { most } }
pub open spec fn linear_rule(n: int, b: F64, ds: Seq<Draw>, r: int) -> bool {
    ds.len() == 1 && match ds[0] { Draw::Unit { x } => r == n - 1 - capped(linear_offset(n, b, unit_f(x)), n - 1), _ => false }
}
%%trait SelectionMechanism
%%raw
    /// the mechanism's parameters are valid
    spec fn okay(&self) -> bool;
    /// position r is what the mechanism selects from the population with the draws ds
    spec fn rule(&self, s: Seq<I>, ds: Seq<Draw>, r: int) -> bool;
    /// what preparing changes
    spec fn readied(&self, s: Seq<I>, o: &Self) -> bool;
%%fn prepare declare
@spec
    requires old(self).okay(),
    ensures old(self).readied(population.individuals@, final(self)),
%%fn select declare
@spec
    requires self.okay(), 0 < population.individuals@.len() < 0x1_0000_0000,
    ensures extends(old(rng).log(), final(rng).log()), self.rule(population.individuals@, drawn(old(rng).log(), final(rng).log()), r.0 as int),
%%end
%%struct TournamentSelection
%%struct RouletteWheelSelection
%%struct BoltzmannSelection
%%struct RankSelection
%%struct ElitistSelection
%%struct LinearSelection
%%impl SelectionMechanism for TournamentSelection
%%fn prepare
%%raw
    open spec fn okay(&self) -> bool { self.size != 0 }
    open spec fn rule(&self, s: Seq<I>, ds: Seq<Draw>, r: int) -> bool { tournament_rule(s.len() as int, self.size as int, ds, r) }
    open spec fn readied(&self, s: Seq<I>, o: &Self) -> bool { self == o }
%%fn select
@clo 0
 -> (o: (usize, &'a I)) requires i < population.individuals@.len() ensures o.0 == i, *o.1 == population.individuals@[i as int]
%%end
%%impl SelectionMechanism for RouletteWheelSelection
%%fn prepare
@clo 0
 -> (o: F64) ensures o == i.fit()
%%raw
    open spec fn okay(&self) -> bool { true }
    open spec fn rule(&self, s: Seq<I>, ds: Seq<Draw>, r: int) -> bool { roulette_rule(fits(s), self.total_fitness, ds, r) }
    open spec fn readied(&self, s: Seq<I>, o: &Self) -> bool { sums(fits(s), o.total_fitness) }
%%fn select
@loop 0
    invariant cumulative_fitness == run(fits(population.individuals@), vx_k0 as int), vx_s0@.len() == population.individuals@.len(), forall|i: int| 0 <= i < vx_s0@.len() ==> (#[trigger] vx_s0@[i]).0 == i && *vx_s0@[i].1 == population.individuals@[i],
        forall|j: int| 0 <= j < vx_k0 ==> !f_le(target_fitness, #[trigger] run(fits(population.individuals@), j + 1)),
%%end
%%impl SelectionMechanism for BoltzmannSelection
%%fn prepare
@clo 0
 -> (o: F64) ensures o == f_exp(f_div(i.fit(), self.temperature))
%%raw
    open spec fn okay(&self) -> bool { true }
    open spec fn rule(&self, s: Seq<I>, ds: Seq<Draw>, r: int) -> bool { roulette_rule(boltzmann(s, self.temperature), self.total_scaled_fitness, ds, r) }
    open spec fn readied(&self, s: Seq<I>, o: &Self) -> bool {
        o.cooling_rate == self.cooling_rate && o.temperature == f_mul(self.temperature, self.cooling_rate) && sums(boltzmann(s, o.temperature), o.total_scaled_fitness)
    }
%%fn select
@loop 0
    invariant cumulative_fitness == run(boltzmann(population.individuals@, self.temperature), vx_k0 as int), vx_s0@.len() == population.individuals@.len(), forall|i: int| 0 <= i < vx_s0@.len() ==> (#[trigger] vx_s0@[i]).0 == i && *vx_s0@[i].1 == population.individuals@[i],
        forall|j: int| 0 <= j < vx_k0 ==> !f_le(target_fitness, #[trigger] run(boltzmann(population.individuals@, self.temperature), j + 1)),
%%end
%%impl SelectionMechanism for RankSelection
%%fn prepare
%%raw
    open spec fn okay(&self) -> bool { true }
    open spec fn rule(&self, s: Seq<I>, ds: Seq<Draw>, r: int) -> bool { rank_rule(s.len() as int, ds, r) }
    open spec fn readied(&self, s: Seq<I>, o: &Self) -> bool { self == o }
%%fn select noguard
@at start
    proof { lemma_tri_bound(0, population.individuals@.len() as int); }
@loop 0
    invariant cumulative_rank == tri(vx_k0 as int), cumulative_rank < target_rank, vx_s0@.len() == n, n == population.individuals@.len(), forall|i: int| 0 <= i < vx_s0@.len() ==> (#[trigger] vx_s0@[i]).0 == i && *vx_s0@[i].1 == population.individuals@[i],
@at loop 0 start
    proof { lemma_tri_bound(vx_k0 + 1, n as int); }
%%end
%%impl SelectionMechanism for ElitistSelection
%%fn prepare
%%raw
    open spec fn okay(&self) -> bool { f_le(f_zero(), self.ratio) && f_lt(self.ratio, f_one()) }
    open spec fn rule(&self, s: Seq<I>, ds: Seq<Draw>, r: int) -> bool { elitist_rule(s.len() as int, self.ratio, ds, r) }
    open spec fn readied(&self, s: Seq<I>, o: &Self) -> bool { self == o }
%%fn select
%%end
%%impl SelectionMechanism for LinearSelection
%%fn prepare
%%raw
    open spec fn okay(&self) -> bool { true }
    open spec fn rule(&self, s: Seq<I>, ds: Seq<Draw>, r: int) -> bool { linear_rule(s.len() as int, self.bias, ds, r) }
    open spec fn readied(&self, s: Seq<I>, o: &Self) -> bool { self == o }
%%fn select
%%end
%%impl BoltzmannSelection
%%fn scaled_fitness
@spec
    ensures r == f_exp(f_div(individual.fit(), self.temperature)),
%%end
