%%prelude core f64 rng
%%sole EvolutionAlgorithm replace_population
%%include popbase
%%include pop
%%impl Population
%%fn replace assume
@spec
    requires pop_ok(*old(self)), old(new_population)@.len() > 0, lawful_eq::<I>(), rated(old(new_population)@), old(self).generation < usize::MAX, old(self).stagnation < usize::MAX,
    ensures final(self).generation == old(self).generation + 1, pop_ok(*final(self)), sorted_distinct_of(old(new_population)@, final(self).individuals@),
%%end
%%trait EvolutionModel
%%end
%%trait EvolutionParameters
%%end
%%trait EvolutionAlgorithm
%%fn replace_population
@spec
    requires pop_ok(*old(population)), old(offspring)@.len() > 0, lawful_eq::<M::Individual>(), rated(old(offspring)@), old(population).generation < usize::MAX, old(population).stagnation < usize::MAX,
    ensures final(population).generation == old(population).generation + 1, pop_ok(*final(population)), sorted_distinct_of(old(offspring)@, final(population).individuals@),
%%end
