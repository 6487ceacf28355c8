%%prelude core hash perm rng
%%include adj
%%include rnd
%%include outcomes
%%fn random_range assume
@spec
    requires n != 0,
    ensures drew_range(old(rng).log(), final(rng).log(), n as int, 1, n as int, r), r.start < r.end,
%%fn sequential_constructive_crossover assume
@spec
    requires lawful_eq::<G>(), lawful_hash::<G>(), same_genes(parent1@, parent2@), parent1@.contains(pivot),
    ensures did_scx(parent1@, parent2@, pivot, r@), r@.len() == parent1@.len(),
%%fn edge_recombination_crossover assume
@spec
    requires lawful_eq::<G>(), lawful_hash::<G>(), same_genes(parent1@, parent2@), parent1@.contains(pivot),
    ensures did_erx(parent1@, parent2@, pivot, r@), r@.len() == parent1@.len(),
%%fn partially_mapped_crossover assume
@spec
    requires lawful_eq::<G>(), same_genes(parent1@, parent2@), range.start <= range.end <= parent1@.len(),
    ensures did_pmx(parent1@, parent2@, range.start as int, range.end as int, r@), r@.len() == parent1@.len(),
%%fn order_crossover assume
@spec
    requires lawful_eq::<G>(), same_genes(parent1@, parent2@), range.start <= range.end <= parent1@.len(),
    ensures did_ox(parent1@, parent2@, range.start as int, range.end as int, r@), r@.len() == parent1@.len(),
%%fn cycle_crossover assume
@spec
    requires lawful_eq::<G>(), same_genes(parent1@, parent2@),
    ensures did_cx(parent1@, parent2@, r@), r@.len() == parent1@.len(),
%%fn single_point_crossover assume
@spec
    requires parent1@.len() == parent2@.len(),
    ensures did_spx(parent1@, parent2@, point as int, r@), r@.len() == parent1@.len(),
%%fn generalized_partition_2_crossover assume
@spec
    requires lawful_eq::<G>(), lawful_lt::<G>(), lawful_hash::<G>(), lawful_hash::<(G, G)>(), parent1@.no_duplicates(), parent2@.no_duplicates(),
        forall|l: Option<&G>, s: &[Vec<G>]| s@.len() > 0 ==> #[trigger] partition_selector.requires((l, s)),
        forall|l: Option<&G>, s: &[Vec<G>], i: usize| s@.len() > 0 && #[trigger] partition_selector.ensures((l, s), i) ==> i < s@.len(),
    ensures did_gpx(parent1@, parent2@, r@), r@.len() == parent1@.len(),
%%raw
/// C08: r is what the strategy's own crossover returns for some valid choice
pub open spec fn performed<G>(st: CrossoverStrategy, p1: Seq<G>, p2: Seq<G>, r: Seq<G>) -> bool {
    match st {
        CrossoverStrategy::GeneralizedPartition2 => did_gpx(p1, p2, r),
        CrossoverStrategy::SequentialConstructive => exists|g: G| p1.contains(g) && #[trigger] did_scx(p1, p2, g, r),
        CrossoverStrategy::EdgeRecombination => exists|g: G| p1.contains(g) && #[trigger] did_erx(p1, p2, g, r),
        CrossoverStrategy::PartiallyMapped => exists|a: int, b: int| 0 <= a < b <= p1.len() && #[trigger] did_pmx(p1, p2, a, b, r),
        CrossoverStrategy::Order => exists|a: int, b: int| 0 <= a < b <= p1.len() && #[trigger] did_ox(p1, p2, a, b, r),
        CrossoverStrategy::Cycle => did_cx(p1, p2, r),
        CrossoverStrategy::SinglePoint => exists|point: int| 0 <= point < p1.len() && #[trigger] did_spx(p1, p2, point, r),
    }
}
%%enum CrossoverStrategy
%%impl CrossoverStrategy
%%fn crossover lower:closure_rng
@spec
    requires lawful_eq::<G>(), lawful_lt::<G>(), lawful_hash::<G>(), lawful_hash::<(G, G)>(), same_genes(parent1@, parent2@), parent1@.len() > 0,
    ensures performed(*self, parent1@, parent2@, r@), r@.len() == parent1@.len(),
@clo 0
 -> (r: usize) requires partitions@.len() > 0 ensures r < partitions@.len()
%%end
