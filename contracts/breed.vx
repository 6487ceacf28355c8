%%prelude core f64 rng rngf
%%sole EvolutionModel breed can_survive
%%include selhead
%%include drawn
%%raw
/// how a selection mechanism selects: (population, generator before, generator after, position), and for a member other than
/// a given one within so many tries: (population, tries, that one, generator before, generator after, position or none)
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(R)]
pub struct Ways<I, R> { pub select: spec_fn(Seq<I>, R, R, int) -> bool, pub distinct: spec_fn(Seq<I>, int, I, R, R, Option<int>) -> bool }
/// what a model's operators do: (parent 1, parent 2, generator before, after, child), (before, after, generator before, after),
/// (before, after), (before, after), (offspring, fittest parent, population, generator before, after, answer)
#[verifier::reject_recursive_types(I)]
#[verifier::reject_recursive_types(R)]
pub struct Steps<I, R> {
    pub crossed: spec_fn(I, I, R, R, I) -> bool, pub mutated: spec_fn(I, I, R, R) -> bool, pub improved: spec_fn(I, I) -> bool, pub evaluated: spec_fn(I, I) -> bool,
    pub survival: spec_fn(I, I, Seq<I>, R, R, bool) -> bool,
}
%%trait SelectionMechanism
%%raw
    spec fn ways(&self) -> Ways<I, R>;
%%fn prepare declare
%%fn select declare
@spec
    requires population.individuals@.len() > 0,
    ensures r.0 < population.individuals@.len(), *r.1 == population.individuals@[r.0 as int], (self.ways().select)(population.individuals@, *old(rng), *final(rng), r.0 as int),
%%fn select_distinct declare
@spec
    requires population.individuals@.len() > 0,
    ensures match r { Some(x) => x.0 < population.individuals@.len() && *x.1 == population.individuals@[x.0 as int] && (self.ways().distinct)(population.individuals@, max_tries as int, *excluded, *old(rng), *final(rng), Some(x.0 as int)),
        None => (self.ways().distinct)(population.individuals@, max_tries as int, *excluded, *old(rng), *final(rng), None) },
%%end
%%struct ReproductionParameters
%%raw
/// how an individual came about: the parents' positions, the generator's states g1..g7 between the steps, the offspring after each step
pub struct Story<I, R> { pub p1: int, pub g1: R, pub g2: R, pub p2: Option<int>, pub g3: R, pub child0: I, pub g4: R, pub g5: R, pub child1: I, pub g6: R, pub child2: I, pub child3: I, pub fittest: int }
/// exactly one number from [0, 1) was drawn between the two states: unit_drawn(after)
pub open spec fn one_unit<R: Rng>(before: R, after: R) -> bool { after.log().len() == before.log().len() + 1 && after.log().last() is Unit && after.log() == before.log().push(after.log().last()) }
pub open spec fn unit_drawn<R: Rng>(after: R) -> F64 { unit_f(after.log().last()->x) }
/// which parents were chosen
pub open spec fn chosen<I, R: Rng>(w: Ways<I, R>, s: Seq<I>, rate: F64, g0: R, t: Story<I, R>) -> bool {
    &&& 0 <= t.p1 < s.len() && (w.select)(s, g0, t.g1, t.p1)
    &&& match t.p2 { Some(q) => 0 <= q < s.len(), None => true }
    &&& if s.len() > 1 {
            &&& one_unit(t.g1, t.g2) && if f_lt(unit_drawn(t.g2), rate) { (w.distinct)(s, 3, s[t.p1], t.g2, t.g3, t.p2) } else { t.p2 is None && t.g3 == t.g2 }
        } else { t.p2 is None && t.g3 == t.g1 }
}
/// how the offspring was made from them
pub open spec fn made<I, R: Rng>(m: Steps<I, R>, s: Seq<I>, rate: F64, t: Story<I, R>) -> bool {
    &&& match t.p2 { Some(q) => (m.crossed)(s[t.p1], s[q], t.g3, t.g4, t.child0), None => t.child0 == s[t.p1] && t.g4 == t.g3 }
    &&& one_unit(t.g4, t.g5) && if f_lt(unit_drawn(t.g5), rate) { (m.mutated)(t.child0, t.child1, t.g5, t.g6) } else { t.child1 == t.child0 && t.g6 == t.g5 }
    &&& (m.improved)(t.child1, t.child2) && (m.evaluated)(t.child2, t.child3)
}
/// the fitter of the parents used
pub open spec fn fitter<I: Individual, R: Rng>(s: Seq<I>, t: Story<I, R>) -> bool {
    &&& t.fittest == t.p1 || t.p2 == Some(t.fittest)
    &&& !f_lt(s[t.fittest].fit(), s[t.p1].fit())
    &&& match t.p2 { Some(q) => !f_lt(s[t.fittest].fit(), s[q].fit()), None => true }
}
/// which of offspring and fitter parent was returned
pub open spec fn kept<I: Individual, R: Rng>(m: Steps<I, R>, s: Seq<I>, g: R, t: Story<I, R>, r: I) -> bool {
    if f_finite(t.child3.fit()) { ((m.survival)(t.child3, s[t.fittest], s, t.g6, g, true) && r == t.child3) || ((m.survival)(t.child3, s[t.fittest], s, t.g6, g, false) && r == s[t.fittest]) } else { r == s[t.fittest] }
}
pub open spec fn bred<I: Individual, R: Rng>(m: Steps<I, R>, w: Ways<I, R>, s: Seq<I>, crossover_rate: F64, mutation_rate: F64, g0: R, g: R, r: I) -> bool {
    exists|t: Story<I, R>| #[trigger] chosen(w, s, crossover_rate, g0, t) && made(m, s, mutation_rate, t) && fitter(s, t) && kept(m, s, g, t, r)
}
%%trait EvolutionModel
%%raw
    /// what the model's operators do
    spec fn steps(&self) -> Steps<Self::Individual, Self::Rng>;
%%fn crossover declare
@spec
    ensures (self.steps().crossed)(*parent1, *parent2, *old(rng), *final(rng), r),
%%fn mutate declare
@spec
    ensures (self.steps().mutated)(*old(individual), *final(individual), *old(rng), *final(rng)),
%%fn improve declare
@spec
    ensures (self.steps().improved)(*old(_individual), *final(_individual)),
%%fn evaluate declare
@spec
    ensures (self.steps().evaluated)(*old(individual), *final(individual)),
%%fn can_survive declare
@spec
    ensures (self.steps().survival)(*offspring, *fittest_parent, _population.individuals@, *old(_rng), *final(_rng), r),
%%fn can_survive as=vx_can_survive_by_default
@spec
    ensures r == f_le(fittest_parent.fit(), offspring.fit()),
%%fn breed
@spec
    requires population.individuals@.len() > 0,
    ensures bred(self.steps(), parameters.parent_selector.ways(), population.individuals@, parameters.crossover_rate, parameters.mutation_rate, *old(rng), *final(rng), r),
        rated(population.individuals@) ==> !f_nan(r.fit()),
@clo 0
 -> (o: &Self::Individual) ensures o == vx_p0.1
@at start
    let ghost s = population.individuals@;
    let ghost mut p1 = 0int; let ghost mut g1 = *rng; let ghost mut g2 = *rng; let ghost mut p2: Option<int> = None; let ghost mut g3 = *rng; let ghost mut g4 = *rng; let ghost mut g5 = *rng;
    let ghost mut g6 = *rng; let ghost mut fittest = 0int; let ghost mut child0 = s[0]; let ghost mut child1 = s[0]; let ghost mut child2 = s[0]; let ghost mut child3 = s[0];
@at call select 0
    proof { p1 = vx_v_select_0.0 as int; fittest = p1; g1 = *rng; g2 = *rng; g3 = *rng; g4 = *rng; child0 = s[p1]; }
@at call gen 0
    proof { g2 = *rng; g3 = *rng; g4 = *rng; }
@at call select_distinct 0
    proof { g3 = *rng; g4 = *rng; p2 = match vx_v_select_distinct_0 { Some(x) => Some(x.0 as int), None => None }; }
@at call crossover 0
    proof { g4 = *rng; child0 = vx_v_crossover_0; if f_lt(s[p1].fit(), s[p2->0].fit()) { fittest = p2->0; } }
@at call gen 1
    proof { g5 = *rng; g6 = *rng; child1 = child0; }
@at call mutate 0
    proof { g6 = *rng; child1 = offspring; }
@at call improve 0
    proof { child2 = offspring; }
@at call evaluate 0
    proof { child3 = offspring; }
@at tail
    let ghost t = Story { p1, g1, g2, p2, g3, child0, g4, g5, child1, g6, child2, child3, fittest };
    proof {
        assert(chosen(parameters.parent_selector.ways(), s, parameters.crossover_rate, *old(rng), t));
        assert(made(self.steps(), s, parameters.mutation_rate, t));
        assert(fitter(s, t));
    }
%%end
%%raw
/// keep-best: with the default survival rule the result is a valid evaluated offspring at least as fit as the fitter parent, or that parent
pub proof fn keep_best<I: Individual, R: Rng>(m: Steps<I, R>, w: Ways<I, R>, s: Seq<I>, crossover_rate: F64, mutation_rate: F64, g0: R, g: R, r: I)
    requires bred(m, w, s, crossover_rate, mutation_rate, g0, g, r),
        forall|o: I, p: I, b: R, a: R, x: bool| #[trigger] (m.survival)(o, p, s, b, a, x) ==> x == f_le(p.fit(), o.fit()),
    ensures exists|t: Story<I, R>| #[trigger] chosen(w, s, crossover_rate, g0, t) && made(m, s, mutation_rate, t) && fitter(s, t)
        && (r == s[t.fittest] || (r == t.child3 && f_finite(r.fit()) && f_le(s[t.fittest].fit(), r.fit()))),
{}
