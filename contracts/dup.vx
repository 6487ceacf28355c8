%%prelude core rng
%%include rnd
%%include mutspec
%%fn random_pair assume
@spec
    requires n >= 2,
    ensures drew_pair(old(rng).log(), final(rng).log(), n as int, r),
%%fn swap_mutation assume
%%fn scramble_mutation assume
%%fn inversion_mutation assume
%%fn insertion_mutation assume
%%fn duplicate_mutation
@spec
    ensures duplicate_ok(old(genome)@, final(genome)@),
@at tail
    proof { let s = old(genome)@; assert(genome@ =~= s.update(p2 as int, s[p1 as int])); }
%%enum MutationStrategy
%%impl MutationStrategy
%%fn mutate
@spec
    ensures match *self {
        MutationStrategy::Duplicate => duplicate_ok(old(genome)@, final(genome)@),
        _ => true,
    },
%%end
