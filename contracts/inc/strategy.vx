%%trait SelectionMechanism
%%raw
    /// the strategy and parameters in force
    spec fn mech(&self) -> SelectionStrategy;
%%end
%%struct ReproductionParameters
%%trait EvolutionModel
%%end
%%struct GeneticAlgorithmParameters
%%struct AdaptiveGeneticAlgorithmParameters
%%struct GeneticAlgorithm
%%struct AdaptiveGeneticAlgorithm
%%struct TournamentSelection
%%struct BoltzmannSelection
%%struct ElitistSelection
%%struct LinearSelection
%%raw
pub open spec fn in_unit(x: F64) -> bool { f_le(f_zero(), x) && f_le(x, f_one()) }
pub open spec fn below_one(x: F64) -> bool { f_le(f_zero(), x) && f_lt(x, f_one()) }
pub open spec fn ga_valid(p: GeneticAlgorithmParameters) -> bool { p.population_size != 0 && below_one(p.elitism_rate) && in_unit(p.crossover_rate) && in_unit(p.mutation_rate) }
pub open spec fn aga_valid(p: AdaptiveGeneticAlgorithmParameters) -> bool {
    p.population_size != 0 && below_one(p.elitism_rate) && in_unit(p.crossover_rate_range.start) && in_unit(p.crossover_rate_range.end) && in_unit(p.mutation_rate_range.start) && in_unit(p.mutation_rate_range.end)
}
