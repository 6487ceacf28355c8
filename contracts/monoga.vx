%%prelude core f64 rng f64comm
%%include popbase
%%include pop
%%include carried
%%impl Deref for Population as_inherent
%%fn deref assume
@spec
    ensures r@ == self.individuals@,
%%end
%%impl PopulatedStats
%%fn std assume
%%end
%%impl Population
%%fn generation assume
%%fn stats assume
%%end
%%trait SelectionMechanism
%%fn prepare declare
%%end
%%enum SelectionStrategy
%%struct ReproductionParameters
%%trait EvolutionModel
%%fn pre_generation declare
%%end
%%struct GeneticAlgorithmParameters
%%struct AdaptiveGeneticAlgorithmParameters
%%struct GeneticAlgorithm
%%struct AdaptiveGeneticAlgorithm
%%fn interpolate_f64 assume
%%fn interpolate_usize assume
@spec
    requires min <= max,
    ensures r == v_trunc(fv(f_add(f_of(min as int), f_mul(f_of(max - min), ratio)))),
%%impl SelectionStrategy
%%fn create_selector assume
%%end
%%raw
/// the whole part of n times the rate
pub open spec fn share(n: int, rate: F64) -> int { v_trunc(fv(f_add(f_of(0), f_mul(f_of(n), rate)))) }
impl GeneticAlgorithmParameters { pub open spec fn max_size(&self) -> usize { self.population_size } pub open spec fn keeps(&self) -> bool { share(self.population_size as int, self.elitism_rate) != 0 } }
impl AdaptiveGeneticAlgorithmParameters { pub open spec fn max_size(&self) -> usize { self.population_size } pub open spec fn keeps(&self) -> bool { share(self.population_size as int, self.elitism_rate) != 0 } }
impl<M: EvolutionModel> GeneticAlgorithm<M> { pub open spec fn size(&self) -> usize { self.population_size } pub open spec fn keeps(&self) -> bool { self.elite_size != 0 } }
impl<M: EvolutionModel> AdaptiveGeneticAlgorithm<M> { pub open spec fn size(&self) -> usize { self.population_size } pub open spec fn keeps(&self) -> bool { self.elite_size != 0 } }
pub proof fn lemma_carried<I: Individual>(s: Seq<I>, e: Seq<I>)
    requires s.len() > 0, ascending(s), rated(s), e.len() <= s.len(), e == s.subrange(s.len() - e.len(), s.len() as int),
    ensures carried(s, e),
{
    assert forall|i: int| 0 <= i < e.len() implies s.contains(#[trigger] e[i]) by { assert(s[s.len() - e.len() + i] == e[i]); }
    if e.len() > 0 {
        let x = s.last(); assert(e[e.len() - 1] == x);
        assert(is_best(s, x)) by { assert(s.contains(x)); }
    }
}
%%impl EvolutionParameters for GeneticAlgorithmParameters as_inherent
%%fn max_population_size
@spec
    ensures r == self.max_size(),
%%fn validate assume
@spec
    ensures self.population_size != 0,
%%end
%%impl EvolutionParameters for AdaptiveGeneticAlgorithmParameters as_inherent
%%fn max_population_size
@spec
    ensures r == self.max_size(),
%%fn validate assume
@spec
    ensures self.population_size != 0,
%%end
%%impl EvolutionAlgorithm for GeneticAlgorithm as_inherent
%%fn configure
@spec
    ensures final(self).size() == parameters.max_size(), final(self).size() > 0, final(self).keeps() == parameters.keeps(), final(self).model == old(self).model,
%%fn reproduction_parameters
@spec
    ensures r.1 == self.size(),
%%fn prepare_for_next_population
@spec
    requires pop_ok(*population),
    ensures final(self).size() == old(self).size(), final(self).keeps() == old(self).keeps(),
%%fn select_elites
@spec
    requires pop_ok(*population), old(elites)@.len() == 0,
    ensures carried(population.individuals@, final(elites)@), self.keeps() ==> final(elites)@.len() > 0,
@at tail
    proof { let s = population.individuals@; assert(elites@ =~= s.subrange(s.len() - elites@.len(), s.len() as int)); lemma_carried(s, elites@); }
%%end
%%impl EvolutionAlgorithm for AdaptiveGeneticAlgorithm as_inherent
%%fn configure
@spec
    ensures final(self).size() == parameters.max_size(), final(self).size() > 0, final(self).keeps() == parameters.keeps(), final(self).model == old(self).model,
%%fn reproduction_parameters
@spec
    ensures r.1 == self.size(),
%%fn prepare_for_next_population
@spec
    requires pop_ok(*population),
    ensures final(self).size() == old(self).size(), final(self).keeps() == old(self).keeps(),
%%fn select_elites
@spec
    requires pop_ok(*population), old(elites)@.len() == 0,
    ensures carried(population.individuals@, final(elites)@), self.keeps() ==> final(elites)@.len() > 0,
@at tail
    proof { let s = population.individuals@; assert(elites@ =~= s.subrange(s.len() - elites@.len(), s.len() as int)); lemma_carried(s, elites@); }
%%end
