%%prelude core f64 rng pool
%%sole EvolutionAlgorithm generate_new_population
%%include indiv
%%struct Stats attr=derive(Copy,Clone)
%%struct PopulatedStats attr=derive(Copy,Clone)
%%struct Population attr=verifier::reject_recursive_types(I)
%%trait SelectionMechanism
%%end
%%struct ReproductionParameters
%%trait EvolutionModel
%%raw
    /// an individual this model can breed from the population with these parameters
    spec fn bred(&self, s: Seq<Self::Individual>, p: ReproductionParameters<Self>, r: Self::Individual) -> bool where Self: Sized;
%%fn rng declare
%%fn breed declare
@spec
    requires population.individuals@.len() > 0,
    ensures self.bred(population.individuals@, *parameters, r), rated(population.individuals@) ==> !f_nan(r.fit()),
%%end
%%trait EvolutionParameters
%%end
%%trait EvolutionAlgorithm
%%raw
    spec fn the_model(&self) -> M;
    spec fn params(&self) -> ReproductionParameters<M>;
    spec fn size(&self) -> usize;
%%fn model declare
@spec
    ensures *r == self.the_model(),
%%fn reproduction_parameters declare
@spec
    ensures *r.0 == self.params(), r.1 == self.size(),
%%fn generate_new_population
@spec
    requires population.individuals@.len() > 0,
    ensures final(offspring)@.len() == if old(offspring)@.len() < self.size() { self.size() as nat } else { old(offspring)@.len() },
        final(offspring)@.subrange(0, old(offspring)@.len() as int) == old(offspring)@,
        forall|i: int| old(offspring)@.len() <= i < final(offspring)@.len() ==> self.the_model().bred(population.individuals@, self.params(), #[trigger] final(offspring)@[i]),
        rated(population.individuals@) && rated(old(offspring)@) ==> rated(final(offspring)@),
@at start
    let ghost first = offspring@;
@loop 0
    invariant offspring@.len() == first.len() + vx_k0, first.len() + vx_s0@.len() == self.size(), offspring@.subrange(0, first.len() as int) == first,
        forall|i: int| first.len() <= i < offspring@.len() ==> self.the_model().bred(population.individuals@, self.params(), #[trigger] offspring@[i]),
        rated(population.individuals@) && rated(first) ==> rated(offspring@),
@at loop 0 end
    proof { assert(offspring@.subrange(0, first.len() as int) =~= first); }
@at tail
    proof { assert(offspring@.subrange(0, first.len() as int) =~= first); }
%%end
