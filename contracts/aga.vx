%%prelude core f64 f64round f64comm rng
%%include lerp
%%include indiv
%%struct Stats attr=derive(Copy,Clone)
%%struct PopulatedStats attr=derive(Copy,Clone)
%%struct Population attr=verifier::reject_recursive_types(I)
%%raw
/// the standard deviation of a population's fitness (C17 says what it is)
pub uninterp spec fn deviation(s: PopulatedStats) -> F64;
%%impl PopulatedStats
%%fn std assume
@spec
    ensures r == deviation(*self),
%%end
%%impl Population
%%fn generation assume
@spec
    ensures r == self.generation,
%%fn stats assume
@spec
    ensures *r == self.stats,
%%end
%%fn interpolate_f64 assume
@spec
    ensures r == lerp(min, max, ratio),
%%trait SelectionMechanism
%%fn prepare declare
%%end
%%struct ReproductionParameters
%%trait EvolutionModel
%%raw
    /// how the model itself adjusts crossover and mutation rate: (before, before, after, after)
    spec fn adjusts(&self) -> spec_fn(F64, F64, F64, F64) -> bool;
%%fn pre_generation declare
@spec
    ensures (old(self).adjusts())(old(_breeding_parameters).crossover_rate, old(_breeding_parameters).mutation_rate, final(_breeding_parameters).crossover_rate, final(_breeding_parameters).mutation_rate),
%%fn pre_generation as=vx_adjusts_nothing_by_default
@spec
    ensures final(_breeding_parameters).crossover_rate == old(_breeding_parameters).crossover_rate, final(_breeding_parameters).mutation_rate == old(_breeding_parameters).mutation_rate,
%%end
%%struct AdaptiveGeneticAlgorithm
%%raw
/// C25: the diversity: the deviation relative to the reference, clamped to [0, 1]; nothing (NaN) counts as none
pub open spec fn is_diversity(deviation: F64, reference: F64, d: F64) -> bool { fv(d) == fv(f_min(f_max(f_div(deviation, reference), f_zero()), f_one())) }
/// C25: the rates c and m and the reference deviation q chosen by algorithm a for population p
pub open spec fn scheduled<M: EvolutionModel>(a: AdaptiveGeneticAlgorithm<M>, p: Population<M::Individual>, c: F64, m: F64, q: F64) -> bool {
    if p.generation == 0 { q == deviation(p.stats) && c == a.crossover_rate_range.end && m == a.mutation_rate_range.start }
    else if a.adjustment_interval != 0 && p.generation % a.adjustment_interval == 0 {
        q == a.reference_std && exists|d: F64| is_diversity(deviation(p.stats), a.reference_std, d) && c == #[trigger] lerp(a.crossover_rate_range.start, a.crossover_rate_range.end, d)
            && m == lerp(a.mutation_rate_range.start, a.mutation_rate_range.end, f_sub(f_one(), d))
    } else { q == a.reference_std && c == a.breeding.crossover_rate && m == a.breeding.mutation_rate }
}
%%impl EvolutionAlgorithm for AdaptiveGeneticAlgorithm as_inherent
%%fn prepare_for_next_population
@spec
    ensures exists|c: F64, m: F64| #[trigger] (old(self).model.adjusts())(c, m, final(self).breeding.crossover_rate, final(self).breeding.mutation_rate) && scheduled(*old(self), *population, c, m, final(self).reference_std),
        final(self).crossover_rate_range == old(self).crossover_rate_range, final(self).mutation_rate_range == old(self).mutation_rate_range, final(self).adjustment_interval == old(self).adjustment_interval,
@at before pre_generation 0
    let ghost (c0, m0) = (self.breeding.crossover_rate, self.breeding.mutation_rate);
    proof { assert(scheduled(*old(self), *population, c0, m0, self.reference_std)); }
@at tail
    proof { assert((old(self).model.adjusts())(c0, m0, self.breeding.crossover_rate, self.breeding.mutation_rate) && scheduled(*old(self), *population, c0, m0, self.reference_std)); }
%%end
%%raw
/// the value x is between lo and hi, whichever is larger, up to rounding
pub open spec fn within(x: F64, lo: F64, hi: F64) -> bool {
    f_finite(x) && if rv(lo) <= rv(hi) { rv(lo) <= rv(x) <= rv(hi) + slack(rv(lo), rv(hi)) } else { rv(hi) - slack(rv(lo), rv(hi)) <= rv(x) <= rv(lo) }
}
pub open spec fn ranges_ok<M: EvolutionModel>(a: AdaptiveGeneticAlgorithm<M>) -> bool {
    in_unit(a.crossover_rate_range.start) && in_unit(a.crossover_rate_range.end) && in_unit(a.mutation_rate_range.start) && in_unit(a.mutation_rate_range.end)
}
/// bounds in [0, 1]: their difference is finite
pub proof fn lemma_unit_bounds(lo: F64, hi: F64)
    requires in_unit(lo), in_unit(hi),
    ensures bounds(lo, hi),
{
    literals(); sub_rounds(hi, lo); rnd_exact(f_one()); rnd_exact(f_zero());
    let x = rv(hi) - rv(lo); let minus_one = f_neg(f_one());
    neg_exact(f_one()); rnd_exact(minus_one);
    rnd_monotone(x, 1real); rnd_monotone(-1real, x);
}
/// a rate interpolated between bounds in [0, 1] stays between them
pub proof fn lemma_rate(lo: F64, hi: F64, t: F64)
    requires in_unit(lo), in_unit(hi), in_unit(t),
    ensures within(lerp(lo, hi, t), lo, hi), fv(t) == FV::Fin(0real) ==> fv(lerp(lo, hi, t)) == fv(lo), fv(t) == FV::Fin(1real) ==> rabs(rv(lerp(lo, hi, t)) - rv(hi)) <= slack(rv(lo), rv(hi)),
{
    literals(); lemma_unit_bounds(lo, hi);
    let one = f_one(); let d = f_sub(hi, lo); let minus_one = f_neg(one);
    lerp_monotone(lo, hi, t, one);
    lemma_finite(lo, hi, t); lemma_finite(lo, hi, one);
    lerp_at_one(lo, hi, one);
    if fv(t) == FV::Fin(0real) { lerp_at_zero(lo, hi, t); }
    if fv(t) == FV::Fin(1real) { lerp_at_one(lo, hi, t); }
}
pub proof fn lemma_finite(lo: F64, hi: F64, t: F64)
    requires in_unit(lo), in_unit(hi), in_unit(t),
    ensures f_finite(lerp(lo, hi, t)),
{
    literals(); lemma_unit_bounds(lo, hi);
    let d = f_sub(hi, lo); let minus_one = f_neg(f_one()); let x = f_mul(d, t);
    neg_exact(f_one()); rnd_exact(minus_one); rnd_exact(f_one()); leaf_whole(2); rnd_exact(f_of(2));
    sub_rounds(hi, lo); rnd_monotone(rv(hi) - rv(lo), 1real); rnd_monotone(-1real, rv(hi) - rv(lo));
    lemma_part(d, t, t);
    add_rounds(lo, x); rnd_monotone(-1real, rv(lo) + rv(x)); rnd_monotone(rv(lo) + rv(x), 2real);
}
pub proof fn lemma_diversity(x: F64, q: F64, d: F64)
    requires is_diversity(x, q, d),
    ensures in_unit(d), in_unit(f_sub(f_one(), d)), fv(x) == FV::Fin(0real) ==> fv(d) == FV::Fin(0real) && fv(f_sub(f_one(), d)) == FV::Fin(1real),
{
    literals(); rnd_exact(f_one()); rnd_exact(f_zero());
    if fv(x) == FV::Fin(0real) { leaf_zero_div(x, q); }
    sub_rounds(f_one(), d); rnd_monotone(0real, 1real - rv(d)); rnd_monotone(1real - rv(d), 1real);
}
pub proof fn lemma_slack(a: real, b: real)
    ensures slack(a, b) >= 0real,
{
    rnd_error(0real);
    let big = rmax(rabs(a), rabs(b));
    assert(4real * unit_roundoff() * big >= 0real) by(nonlinear_arith) requires big >= 0real, unit_roundoff() == 1real / 0x20_0000_0000_0000real;
}
pub open spec fn rates_ok<M: EvolutionModel>(a: AdaptiveGeneticAlgorithm<M>, c: F64, m: F64) -> bool {
    within(c, a.crossover_rate_range.start, a.crossover_rate_range.end) && within(m, a.mutation_rate_range.start, a.mutation_rate_range.end)
}
/// C25: the rates stay within their ranges (generation zero sets them, whatever they were), and a population without deviation
/// gets the lower crossover and the upper mutation bound in every generation that adjusts the rates
pub proof fn rates_stay_in_range<M: EvolutionModel>(a: AdaptiveGeneticAlgorithm<M>, p: Population<M::Individual>, c: F64, m: F64, q: F64)
    requires scheduled(a, p, c, m, q), ranges_ok(a), p.generation == 0 || rates_ok(a, a.breeding.crossover_rate, a.breeding.mutation_rate),
    ensures rates_ok(a, c, m), !f_nan(c), !f_nan(m),
        fv(deviation(p.stats)) == FV::Fin(0real) && p.generation != 0 && a.adjustment_interval != 0 && p.generation % a.adjustment_interval == 0 ==>
            fv(c) == fv(a.crossover_rate_range.start) && rabs(rv(m) - rv(a.mutation_rate_range.end)) <= slack(rv(a.mutation_rate_range.start), rv(a.mutation_rate_range.end)),
{
    literals();
    let (cr, mr) = (a.crossover_rate_range, a.mutation_rate_range);
    lemma_slack(rv(cr.start), rv(cr.end)); lemma_slack(rv(mr.start), rv(mr.end));
    if p.generation != 0 && a.adjustment_interval != 0 && p.generation % a.adjustment_interval == 0 {
        let d = choose|d: F64| is_diversity(deviation(p.stats), a.reference_std, d) && c == #[trigger] lerp(cr.start, cr.end, d) && m == lerp(mr.start, mr.end, f_sub(f_one(), d));
        lemma_diversity(deviation(p.stats), a.reference_std, d);
        lemma_rate(cr.start, cr.end, d); lemma_rate(mr.start, mr.end, f_sub(f_one(), d));
    }
}
