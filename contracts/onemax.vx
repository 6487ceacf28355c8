%%prelude core f64 rng sample
%%include mutspec
%%include filtered
%%raw
/// how many bits are one
pub open spec fn ones(s: Seq<bool>) -> int decreases s.len() { if s.len() == 0 { 0 } else { ones(s.drop_last()) + if s.last() { 1int } else { 0 } } }
pub proof fn lemma_ones(s: Seq<bool>, items: Seq<&bool>, keep: Seq<bool>, kept: Seq<&bool>)
    requires filtered(items, keep, kept), items.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == s[i],
    ensures kept.len() == ones(s),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] keep.drop_last()[i] == s.drop_last()[i] by { assert(keep[i] == s[i]); }
        assert(keep.last() == s.last()) by { assert(keep[s.len() - 1] == s[s.len() - 1]); }
        if keep.last() { lemma_ones(s.drop_last(), items.drop_last(), keep.drop_last(), kept.drop_last()); } else { lemma_ones(s.drop_last(), items.drop_last(), keep.drop_last(), kept); }
    }
}
%%include joined
%%fn sequential_constructive_crossover assume
@spec
    requires false,
%%fn edge_recombination_crossover assume
@spec
    requires false,
%%fn partially_mapped_crossover assume
@spec
    requires false,
%%fn order_crossover assume
@spec
    requires false,
%%fn cycle_crossover assume
@spec
    requires false,
%%fn generalized_partition_2_crossover assume
@spec
    requires false,
%%fn single_point_crossover assume
@spec
    requires parent1@.len() == parent2@.len(),
    ensures joined(parent1@, parent2@, point as int, r@),
%%fn random_range assume
@spec
    requires false,
%%enum CrossoverStrategy
%%impl CrossoverStrategy
%%fn crossover lower:closure_rng
@spec
    requires *self is SinglePoint, parent1@.len() == parent2@.len(), parent1@.len() > 0,
    ensures exists|point: int| 0 <= point < parent1@.len() && #[trigger] joined(parent1@, parent2@, point, r@),
@clo 0
 -> (r: usize) requires false
%%end
%%enum MutationStrategy
%%impl MutationStrategy
%%fn mutate assume
@spec
    ensures match *self {
        MutationStrategy::Duplicate => duplicate_ok(old(genome)@, final(genome)@),
        _ => true,
    },
%%end
%%struct OneMax
%%impl OneMax
%%fn genome
@spec
    ensures r@ == self.genome@,
%%end
%%impl From<Vec> for OneMax as_inherent
%%fn from
@spec
    ensures r.genome@ == genome@, r.fitness == f_zero(),
%%end
%%impl Individual for OneMax as_inherent
%%fn fitness
@spec
    ensures r == self.fitness,
%%end
%%impl RandomIndividual<usize> for OneMax as_inherent
%%fn new_random
@spec
    ensures r.genome@.len() == *length,
%%end
%%raw
#[verifier::external_body]
pub struct VxRng { v: u64 }
impl Rng for VxRng {
    uninterp spec fn log(&self) -> Seq<Draw>;
    #[verifier::external_body] fn gen_range<D: VxDrawRange>(&mut self, d: D) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_gen_range_or_panic<D: VxDrawRange>(&mut self, d: D) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_gen_unit(&mut self) -> (r: FUnit) { unimplemented!() }
}
%%struct OneMaxEvolutionModel
%%impl EvolutionModel for OneMaxEvolutionModel as_inherent
%%fn crossover lower:into:OneMax
@spec
    requires parent1.genome@.len() == parent2.genome@.len(), parent1.genome@.len() > 0,
    ensures exists|point: int| 0 <= point < parent1.genome@.len() && #[trigger] joined(parent1.genome@, parent2.genome@, point, r.genome@),
%%fn mutate
@spec
    ensures duplicate_ok(old(individual).genome@, final(individual).genome@),
%%fn evaluate
@spec
    ensures final(individual).genome@ == old(individual).genome@,
        old(individual).genome@.len() > 0 ==> final(individual).fitness == f_div(f_of(ones(old(individual).genome@)), f_of(old(individual).genome@.len() as int)),
@clo 0
 -> (o: bool) ensures o == **vx_p0
@at call filter 0
    proof {
        let bits = individual.genome@; let kept = vx_v_filter_0@;
        assert forall|items: Seq<&bool>, keep: Seq<bool>| #[trigger] filtered(items, keep, kept) && items.len() == bits.len() && (forall|i: int| 0 <= i < bits.len() ==> #[trigger] keep[i] == bits[i])
            implies kept.len() == ones(bits) by { lemma_ones(bits, items, keep, kept); }
    }
%%end
