%%prelude core hash perm rng
%%include adj
%%fn random_range assume
@spec
    ensures n != 0,
%%fn sequential_constructive_crossover assume
@spec
    ensures parent1@.len() == parent2@.len(),
%%fn edge_recombination_crossover assume
@spec
    ensures parent1@.len() == parent2@.len(),
%%fn partially_mapped_crossover assume
@spec
    ensures parent1@.len() == parent2@.len(),
%%fn order_crossover assume
@spec
    ensures parent1@.len() == parent2@.len(),
%%fn cycle_crossover assume
@spec
    ensures parent1@.len() == parent2@.len(),
%%fn single_point_crossover assume
@spec
    ensures parent1@.len() == parent2@.len(),
%%fn generalized_partition_2_crossover assume
@spec
    requires lawful_eq::<G>(), lawful_lt::<G>(), lawful_hash::<G>(), lawful_hash::<(G, G)>(), parent1@.no_duplicates(), parent2@.no_duplicates(), 
        forall|l: Option<&G>, s: &[Vec<G>]| s@.len() > 0 ==> #[trigger] partition_selector.requires((l, s)),
        forall|l: Option<&G>, s: &[Vec<G>], i: usize| s@.len() > 0 && #[trigger] partition_selector.ensures((l, s), i) ==> i < s@.len(),
%%enum CrossoverStrategy
%%impl CrossoverStrategy
%%fn crossover panics lower:closure_rng as=vx_rejects_strategy
@spec
    requires lawful_eq::<G>(), lawful_lt::<G>(), lawful_hash::<G>(), lawful_hash::<(G, G)>(), parent1@.len() != parent2@.len(),
    ensures false,
@clo 0
 -> (r: usize) requires partitions@.len() > 0 ensures r < partitions@.len()
%%end
