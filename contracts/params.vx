%%prelude core f64 rng f64comm
%%include selhead
%%include strategy
%%raw
/// what configure stores: the whole part of n times the rate
pub open spec fn share(n: int, rate: F64) -> int { v_trunc(fv(f_add(f_of(0), f_mul(f_of(n), rate)))) }
%%fn interpolate_usize assume
@spec
    requires min <= max,
    ensures r == v_trunc(fv(f_add(f_of(min as int), f_mul(f_of(max - min), ratio)))),
%%impl SelectionStrategy
%%fn create_selector assume
@spec
    requires valid(*self),
    ensures r.mech() == *self,
%%end
%%impl EvolutionParameters for GeneticAlgorithmParameters as_inherent
%%fn initial_population_size
@spec
    ensures r == self.population_size,
%%fn max_population_size
@spec
    ensures r == self.population_size,
%%fn validate
@spec
    requires ga_valid(*self),
%%end
%%impl EvolutionParameters for AdaptiveGeneticAlgorithmParameters as_inherent
%%fn initial_population_size
@spec
    ensures r == self.population_size,
%%fn max_population_size
@spec
    ensures r == self.population_size,
%%fn validate
@spec
    requires aga_valid(*self),
%%end
%%impl EvolutionAlgorithm for GeneticAlgorithm as_inherent
%%fn configure
@spec
    requires ga_valid(*parameters), valid(parameters.selection_strategy),
    ensures final(self).population_size == parameters.population_size, final(self).elite_size == share(parameters.population_size as int, parameters.elitism_rate),
        final(self).breeding.crossover_rate == parameters.crossover_rate, final(self).breeding.mutation_rate == parameters.mutation_rate,
        final(self).breeding.parent_selector.mech() == parameters.selection_strategy, final(self).model == old(self).model,
%%fn reproduction_parameters
@spec
    ensures *r.0 == self.breeding, r.1 == self.population_size,
%%end
%%impl EvolutionAlgorithm for AdaptiveGeneticAlgorithm as_inherent
%%fn configure
@spec
    requires aga_valid(*parameters), valid(parameters.selection_strategy),
    ensures final(self).population_size == parameters.population_size, final(self).elite_size == share(parameters.population_size as int, parameters.elitism_rate),
        final(self).adjustment_interval == parameters.parameter_adjustment_interval, final(self).crossover_rate_range == parameters.crossover_rate_range, final(self).mutation_rate_range == parameters.mutation_rate_range,
        final(self).breeding.parent_selector.mech() == parameters.selection_strategy, final(self).model == old(self).model,
%%fn reproduction_parameters
@spec
    ensures *r.0 == self.breeding, r.1 == self.population_size,
%%end
%%impl TournamentSelection
%%fn new
@spec
    requires size != 0,
    ensures r.size == size,
%%fn size
@spec
    ensures r == self.size,
%%fn set_size
@spec
    requires size != 0,
    ensures final(self).size == size,
%%end
%%impl BoltzmannSelection
%%fn new
@spec
    requires !f_eq(cooling_rate, f_zero()),
    ensures r.temperature == temperature, r.cooling_rate == cooling_rate,
%%fn temperature
@spec
    ensures r == self.temperature,
%%fn set_temperature
@spec
    ensures final(self).temperature == temperature, final(self).cooling_rate == old(self).cooling_rate,
%%fn cooling_rate
@spec
    ensures r == self.cooling_rate,
%%fn set_cooling_rate
@spec
    requires !f_eq(cooling_rate, f_zero()),
    ensures final(self).cooling_rate == cooling_rate, final(self).temperature == old(self).temperature,
%%end
%%impl ElitistSelection
%%fn new
@spec
    requires f_le(f_zero(), ratio), f_lt(ratio, f_one()),
    ensures r.ratio == ratio,
%%fn ratio
@spec
    ensures r == self.ratio,
%%fn set_ratio
@spec
    requires f_le(f_zero(), ratio), f_lt(ratio, f_one()),
    ensures final(self).ratio == ratio,
%%end
%%impl LinearSelection
%%fn new
@spec
    ensures r.bias == bias,
%%fn bias
@spec
    ensures r == self.bias,
%%fn set_bias
@spec
    ensures final(self).bias == bias,
%%end
