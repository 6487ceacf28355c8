%%prelude core f64 rng sort
%%include popbase
%%include pop
%%impl Population
%%fn new
@spec
    requires initial_population@.len() > 0, lawful_eq::<I>(), rated(initial_population@),
    ensures pop_ok(r), sorted_distinct_of(initial_population@, r.individuals@),
@at start
    let ghost a = initial_population@;
@at tail
    proof { lemma_made(a, initial_population@); }
%%fn replace
@spec
    requires old(self).individuals@.len() > 0, old(new_population)@.len() > 0, lawful_eq::<I>(), rated(old(new_population)@), old(self).generation < usize::MAX, old(self).stagnation < usize::MAX,
    ensures pop_ok(*final(self)), sorted_distinct_of(old(new_population)@, final(self).individuals@),
@at start
    let ghost a = new_population@;
@at tail
    proof { lemma_made(a, self.individuals@); }
%%fn stats
@spec
    ensures *r == self.stats,
%%fn fittest
@spec
    requires pop_ok(*self),
    ensures is_best(self.individuals@, *r),
@at start
    proof { lemma_best(*self); }
%%fn take_fittest
@spec
    requires pop_ok(self),
    ensures is_best(self.individuals@, r),
@at start
    proof { lemma_best(self); }
%%end
%%impl Deref for Population as_inherent
%%fn deref
@spec
    ensures r@ == self.individuals@,
%%end
%%impl TryFrom<Vec> for Population as_inherent
%%fn try_from
@spec
    requires lawful_eq::<I>(), rated(individuals@),
    ensures match r { Ok(p) => individuals@.len() > 0 && pop_ok(p) && sorted_distinct_of(individuals@, p.individuals@), Err(v) => individuals@.len() == 0 && v == individuals },
%%end
%%raw
impl<I: Individual> vstd::std_specs::convert::FromSpecImpl<Population<I>> for Vec<I> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(p: Population<I>) -> Vec<I> { p.individuals }
}
%%impl From<Population> for Vec
%%fn from
@spec
    ensures r@ == population.individuals@,
%%end
