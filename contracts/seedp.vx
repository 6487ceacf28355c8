%%sole EvolutionModel extend_population extend_population_with
%%prelude core f64 rng
%%include indiv
%%trait RandomIndividual
%%raw
    /// r is an individual the random constructor can produce from the arguments
    spec fn random_from(args: A, r: Self) -> bool;
%%fn new_random declare
@spec
    ensures Self::random_from(*args, r),
%%end
%%trait EvolutionModel
%%raw
    /// (before, after): what one mutation does
    spec fn mutated(&self) -> spec_fn(Self::Individual, Self::Individual) -> bool;
%%fn rng declare
%%fn mutate declare
@spec
    ensures (self.mutated())(*old(individual), *final(individual)),
%%fn extend_population
@spec
    ensures final(individuals)@.len() == old(individuals)@.len() + size, final(individuals)@.subrange(0, old(individuals)@.len() as int) == old(individuals)@,
        forall|i: int| old(individuals)@.len() <= i < final(individuals)@.len() ==> Self::Individual::random_from(*args, #[trigger] final(individuals)@[i]),
@at start
    let ghost first = individuals@;
@loop 0
    invariant individuals@.len() == first.len() + vx_k0, vx_s0@.len() == size, individuals@.subrange(0, first.len() as int) == first,
        forall|i: int| first.len() <= i < individuals@.len() ==> Self::Individual::random_from(*args, #[trigger] individuals@[i]),
@at loop 0 end
    proof { assert(individuals@.subrange(0, first.len() as int) =~= first); }
@at tail
    proof { assert(individuals@.subrange(0, first.len() as int) =~= first); }
%%fn extend_population_with
@spec
    ensures final(individuals)@.len() == old(individuals)@.len() + size, final(individuals)@.subrange(0, old(individuals)@.len() as int) == old(individuals)@,
        size > 0 ==> final(individuals)@[old(individuals)@.len() as int] == model,
        forall|i: int| old(individuals)@.len() < i < final(individuals)@.len() ==> (self.mutated())(model, #[trigger] final(individuals)@[i]),
@at start
    let ghost first = individuals@; let ghost m = model; let ghost mu = self.mutated();
@loop 0
    invariant individuals@.len() == first.len() + 1 + vx_k0, vx_s0@.len() == size - 1, individuals@.subrange(0, first.len() as int) == first,
        individuals@[first.len() as int] == m, forall|i: int| first.len() < i < individuals@.len() ==> mu(m, #[trigger] individuals@[i]),
@at loop 0 end
    proof { assert(individuals@.subrange(0, first.len() as int) =~= first); }
@at after push 0
    proof { assert(individuals@.subrange(0, first.len() as int) =~= first); }
@at tail
    proof { assert(individuals@.subrange(0, first.len() as int) =~= first); }
%%end
