%%prelude core f64 rng pool callback
%%sole EvolutionAlgorithm initialize_population replace_population
%%include popbase
%%include pop
%%impl Population
%%fn take_fittest assume
@spec
    requires pop_ok(self),
    ensures is_best(self.individuals@, r),
%%end
%%trait RandomIndividual
%%end
%%trait EvolutionParameters
%%raw
    spec fn initial_size(&self) -> usize;
%%fn initial_population_size declare
@spec
    ensures r == self.initial_size(),
%%fn max_population_size declare
%%end
%%trait EvolutionModel
%%raw
    /// a list of individuals before and after seeding it with so many random individuals, or from a model individual
    spec fn seeds<T>(&self, size: usize, args: T, before: Seq<Self::Individual>, after: Seq<Self::Individual>) -> bool;
    spec fn seeds_with(&self, size: usize, x: Self::Individual, before: Seq<Self::Individual>, after: Seq<Self::Individual>) -> bool;
%%fn rng declare
%%fn extend_population declare
@spec
    ensures self.seeds(size, *args, old(individuals)@, final(individuals)@),
%%fn extend_population_with declare
@spec
    ensures self.seeds_with(size, model, old(individuals)@, final(individuals)@),
%%end
%%trait EvolutionAlgorithm
%%raw
    spec fn the_model(&self) -> M;
    /// (before, after, parameters)
    spec fn configured(&self, after: &Self, p: &Self::Parameters) -> bool;
    spec fn initialized(&self, given: Seq<M::Individual>, p: Population<M::Individual>) -> bool;
    /// (before, after, current population)
    spec fn prepared(&self, after: &Self, p: Population<M::Individual>) -> bool;
    /// the list before and after the elites of the population were appended
    spec fn elected(&self, p: Population<M::Individual>, before: Seq<M::Individual>, after: Seq<M::Individual>) -> bool;
    /// the new generation o made from the elites e
    spec fn generated(&self, p: Population<M::Individual>, e: Seq<M::Individual>, o: Seq<M::Individual>) -> bool;
    /// the next population q
    spec fn replaced(&self, p: Population<M::Individual>, o: Seq<M::Individual>, q: Population<M::Individual>) -> bool;
%%fn model declare
@spec
    ensures *r == self.the_model(),
%%fn configure declare
@spec
    ensures old(self).configured(final(self), parameters),
%%fn initialize_population declare
@spec
    ensures self.initialized(individuals@, r), pop_ok(r), r.generation == 0,
%%fn prepare_for_next_population declare
@spec
    requires pop_ok(*population),
    ensures old(self).prepared(final(self), *population),
%%fn select_elites declare
@spec
    requires pop_ok(*population),
    ensures self.elected(*population, old(elites)@, final(elites)@),
%%fn generate_new_population declare
@spec
    requires pop_ok(*population),
    ensures self.generated(*population, old(offspring)@, final(offspring)@),
%%fn replace_population declare
@spec
    requires pop_ok(*old(population)),
    ensures self.replaced(*old(population), old(offspring)@, *final(population)), pop_ok(*final(population)), final(population).generation == old(population).generation + 1,
%%end
%%struct Evolution attr=verifier::reject_recursive_types(A) attr=verifier::reject_recursive_types(M)
%%raw
/// one generation: prepare for population p, carry its elites over, fill up the new generation, make it the next population q
pub open spec fn one_generation<M: EvolutionModel, A: EvolutionAlgorithm<M>>(a: A, p: Population<M::Individual>, b: A, q: Population<M::Individual>) -> bool {
    exists|e: Seq<M::Individual>, o: Seq<M::Individual>| a.prepared(&b, p) && #[trigger] b.elected(p, Seq::empty(), e) && #[trigger] b.generated(p, e, o) && b.replaced(p, o, q)
}
/// a history of calls to the progress callback, with the algorithm's states at the time of each call
pub open spec fn history<M: EvolutionModel, A: EvolutionAlgorithm<M>>(a0: A, parameters: &A::Parameters, given: Seq<M::Individual>, al: Seq<A>, h: Seq<(Population<M::Individual>, bool)>) -> bool {
    &&& h.len() > 0 && al.len() == h.len() && a0.configured(&al[0], parameters) && al[0].initialized(given, h[0].0)
    &&& forall|k: int| 0 <= k < h.len() ==> pop_ok((#[trigger] h[k]).0) && h[k].0.generation == k
    &&& forall|k: int| 0 <= k < h.len() - 1 ==> #[trigger] h[k].1 && one_generation(al[k], h[k].0, al[k + 1], h[k + 1].0)
}
pub proof fn lemma_grows<M: EvolutionModel, A: EvolutionAlgorithm<M>>(a0: A, parameters: &A::Parameters, given: Seq<M::Individual>, al: Seq<A>, c: Seq<(Population<M::Individual>, bool)>, p: Population<M::Individual>, b: A, q: Population<M::Individual>)
    requires history(a0, parameters, given, al, c.push((p, false))), one_generation(al.last(), p, b, q), pop_ok(q), q.generation == p.generation + 1,
    ensures history(a0, parameters, given, al.push(b), c.push((p, true)).push((q, false))),
{
    let h = c.push((p, false)); let g = c.push((p, true)).push((q, false)); let bl = al.push(b);
    assert(g[0].0 == h[0].0);
    let n = c.len() as int;
    assert(h[n].0 == p && pop_ok(h[n].0));
    assert forall|k: int| 0 <= k < g.len() implies pop_ok((#[trigger] g[k]).0) && g[k].0.generation == k by { if k < c.len() { assert(g[k] == h[k]); } else if k == c.len() { assert(h[k].0 == p); } }
    assert forall|k: int| 0 <= k < g.len() - 1 implies #[trigger] g[k].1 && one_generation(bl[k], g[k].0, bl[k + 1], g[k + 1].0) by {
        if k < c.len() { assert(h[k].1); assert(one_generation(al[k], h[k].0, al[k + 1], h[k + 1].0)); assert(g[k + 1].0 == h[k + 1].0); }
    }
}
/// the history ends with the first call that answered false, and p is the population of that call
pub open spec fn ended<I: Individual>(h: Seq<(Population<I>, bool)>, p: Population<I>) -> bool { h.len() > 0 && !h.last().1 && p == h.last().0 }
pub open spec fn added<T>(before: Seq<T>, after: Seq<T>) -> Seq<T> { after.subrange(before.len() as int, after.len() as int) }
pub proof fn lemma_added<T>(before: Seq<T>, c: Seq<T>)
    ensures added(before, before + c) == c, (before + c).subrange(0, before.len() as int) == before,
{ assert(added(before, before + c) =~= c); assert((before + c).subrange(0, before.len() as int) =~= before); }
/// C24: what evolve_population does, seen from the progress callback
pub open spec fn evolved<M: EvolutionModel, A: EvolutionAlgorithm<M>>(a0: A, a1: A, parameters: &A::Parameters, given: Seq<M::Individual>, before: Seq<(Population<M::Individual>, bool)>, after: Seq<(Population<M::Individual>, bool)>, r: Population<M::Individual>) -> bool {
    &&& before.len() <= after.len() && after.subrange(0, before.len() as int) == before
    &&& exists|al: Seq<A>| #[trigger] history(a0, parameters, given, al, added(before, after)) && a1 == al.last()
    &&& ended(added(before, after), r)
}
%%impl Evolution
%%fn evolve_population mutself nodecreases lower:callback:progress
@spec
    ensures evolved(old(self).algorithm, final(self).algorithm, parameters, initial_population@, old(progress).calls(), final(progress).calls(), r), pop_ok(r),
@at start
    let ghost before = progress.calls();
    let ghost a0 = self.algorithm;
    let ghost given = initial_population@;
    let ghost mut al = Seq::<A>::empty();
    let ghost mut c = Seq::<(Population<M::Individual>, bool)>::empty();
@at before loop 0
    proof { al = al.push(self.algorithm); assert(progress.calls() =~= before + c); }
@loop 0
    invariant history(a0, parameters, given, al, c.push((population, false))), progress.calls() == before + c, pop_ok(population), population.generation == c.len(), self.algorithm == al.last(),
@at loop 0 start
    let ghost p0 = population;
    proof { assert(progress.calls() =~= before + c.push((p0, true))); }
@at loop 0 end
    proof {
        lemma_grows(a0, parameters, given, al, c, p0, self.algorithm, population);
        al = al.push(self.algorithm); c = c.push((p0, true));
    }
@at tail
    proof { let g = c.push((population, false)); assert(progress.calls() =~= before + g); lemma_added(before, g); assert(history(a0, parameters, given, al, g)); }
%%fn run mutself lower:callback:progress
@spec
    ensures exists|s: Seq<M::Individual>, p: Population<M::Individual>| #[trigger] old(self).algorithm.the_model().seeds(parameters.initial_size(), *args, Seq::empty(), s)
        && #[trigger] evolved(old(self).algorithm, final(self).algorithm, parameters, s, old(progress).calls(), final(progress).calls(), p) && is_best(p.individuals@, r),
%%fn evolve_individual mutself lower:callback:progress
@spec
    ensures exists|s: Seq<M::Individual>, p: Population<M::Individual>| #[trigger] old(self).algorithm.the_model().seeds_with(parameters.initial_size(), individual, Seq::empty(), s)
        && #[trigger] evolved(old(self).algorithm, final(self).algorithm, parameters, s, old(progress).calls(), final(progress).calls(), p) && is_best(p.individuals@, r),
%%end
