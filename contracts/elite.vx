%%prelude core f64 rng f64leaf f64comm
%%include selhead
%%trait SelectionMechanism
%%end
%%struct ReproductionParameters
%%trait EvolutionModel
%%end
%%struct GeneticAlgorithmParameters
%%struct AdaptiveGeneticAlgorithmParameters
%%struct GeneticAlgorithm
%%struct AdaptiveGeneticAlgorithm
%%raw
/// the whole part of n times the rate
pub open spec fn share(n: int, rate: F64) -> int { v_trunc(fv(f_mul(f_of(n), rate))) }
/// the last k members of s, all if there are fewer: its fittest, as s is ascending
pub open spec fn fittest_ones<I>(s: Seq<I>, k: int) -> Seq<I> { s.subrange(if k < s.len() { s.len() - k } else { 0 }, s.len() as int) }
/// everyone among the fittest ones is at least as fit as everyone else
pub proof fn lemma_fittest<I: Individual>(s: Seq<I>, k: int)
    requires ascending(s), 0 <= k,
    ensures fittest_ones(s, k).len() == if k < s.len() { k } else { s.len() as int },
        forall|i: int, j: int| 0 <= i < fittest_ones(s, k).len() && 0 <= j < s.len() - fittest_ones(s, k).len() ==> f_le(#[trigger] s[j].fit(), #[trigger] fittest_ones(s, k)[i].fit()),
{}
%%fn interpolate_usize assume
@spec
    requires min <= max,
    ensures r == v_trunc(fv(f_add(f_of(min as int), f_mul(f_of(max - min), ratio)))),
%%impl SelectionStrategy
%%fn create_selector assume
%%end
%%impl EvolutionParameters for GeneticAlgorithmParameters as_inherent
%%fn validate assume
%%end
%%impl EvolutionParameters for AdaptiveGeneticAlgorithmParameters as_inherent
%%fn validate assume
%%end
%%impl EvolutionAlgorithm for GeneticAlgorithm as_inherent
%%fn configure
@spec
    ensures final(self).population_size == parameters.population_size, final(self).elite_size == share(parameters.population_size as int, parameters.elitism_rate),
%%fn reproduction_parameters
@spec
    ensures *r.0 == self.breeding, r.1 == self.population_size,
%%fn select_elites
@spec
    ensures final(elites)@ =~= old(elites)@ + fittest_ones(population.individuals@, self.elite_size as int),
%%end
%%impl EvolutionAlgorithm for AdaptiveGeneticAlgorithm as_inherent
%%fn configure
@spec
    ensures final(self).population_size == parameters.population_size, final(self).elite_size == share(parameters.population_size as int, parameters.elitism_rate),
%%fn reproduction_parameters
@spec
    ensures *r.0 == self.breeding, r.1 == self.population_size,
%%fn select_elites
@spec
    ensures final(elites)@ =~= old(elites)@ + fittest_ones(population.individuals@, self.elite_size as int),
%%end
