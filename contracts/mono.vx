%%prelude core f64 rng pool callback f64comm
%%sole EvolutionAlgorithm initialize_population generate_new_population replace_population
%%include popbase
%%include pop
%%include evald
%%impl Population
%%fn take_fittest assume
@spec
    requires pop_ok(self),
    ensures is_best(self.individuals@, r),
%%fn fittest assume
@spec
    requires pop_ok(*self),
    ensures is_best(self.individuals@, *r),
%%end
%%impl Deref for Population as_inherent
%%fn deref assume
@spec
    ensures r@ == self.individuals@,
%%end
%%trait RandomIndividual
%%end
%%trait EvolutionParameters
%%raw
    spec fn initial_size(&self) -> usize;
    spec fn max_size(&self) -> usize;
    /// at least one elite member is to be carried over
    spec fn keeps(&self) -> bool;
%%fn initial_population_size declare
@spec
    ensures r == self.initial_size(),
%%fn max_population_size declare
@spec
    ensures r == self.max_size(),
%%end
%%trait SelectionMechanism
%%end
%%struct ReproductionParameters
%%enum SelectionStrategy
%%trait EvolutionModel
%%raw
    spec fn evaluated(&self) -> spec_fn(Self::Individual, Self::Individual) -> bool;
%%fn rng declare
%%fn extend_population declare
%%fn extend_population_with declare
%%end
%%include carried
%%raw
/// the best fitness of q is at least the best fitness of p
pub open spec fn no_worse<I: Individual>(p: Seq<I>, q: Seq<I>) -> bool { forall|x: I, y: I| #[trigger] is_best(p, x) && #[trigger] is_best(q, y) ==> f_le(x.fit(), y.fit()) }
pub proof fn lemma_no_worse<I: Individual>(p: Seq<I>, e: Seq<I>, o: Seq<I>, q: Seq<I>)
    requires carried(p, e), e.len() > 0, e.len() <= o.len(), o.subrange(0, e.len() as int) == e, sorted_distinct_of(o, q), rated(p), rated(q),
    ensures no_worse(p, q),
{
    let b = choose|x: I| #[trigger] is_best(p, x) && e.contains(x);
    let i = choose|i: int| 0 <= i < e.len() && e[i] == b;
    assert(o[i] == b) by { assert(o.subrange(0, e.len() as int)[i] == o[i]); }
    assert(o.contains(b)); assert(q.contains(b));
    let j = choose|j: int| 0 <= j < q.len() && q[j] == b;
    assert forall|x: I, y: I| #[trigger] is_best(p, x) && #[trigger] is_best(q, y) implies f_le(x.fit(), y.fit()) by {
        let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(f_le(p[k].fit(), b.fit())); assert(f_le(q[j].fit(), y.fit()));
    }
}
/// distinct members of o: no more than o has
pub proof fn lemma_no_more<T>(o: Seq<T>, q: Seq<T>)
    requires q.no_duplicates(), forall|x: T| #[trigger] q.contains(x) ==> o.contains(x),
    ensures q.len() <= o.len(),
{
    q.unique_seq_to_set();
    o.lemma_cardinality_of_set();
    assert forall|x: T| q.to_set().contains(x) implies #[trigger] o.to_set().contains(x) by { assert(q.contains(x)); }
    vstd::set_lib::lemma_len_subset(q.to_set(), o.to_set());
}
/// some members of p were carried over into the next population q, which is no larger than the configured size or their number
pub open spec fn followed<I: Individual>(size: int, keeps: bool, p: Seq<I>, q: Seq<I>) -> bool {
    exists|e: Seq<I>| #[trigger] carried(p, e) && (keeps ==> e.len() > 0) && (e.len() > 0 ==> no_worse(p, q)) && (q.len() <= size || q.len() <= e.len())
}
pub open spec fn history<I: Individual>(size: int, keeps: bool, h: Seq<(Population<I>, bool)>) -> bool {
    &&& h.len() > 0 && forall|k: int| 0 <= k < h.len() ==> pop_ok((#[trigger] h[k]).0)
    &&& forall|k: int| #![trigger h[k + 1]] 0 <= k < h.len() - 1 ==> followed(size, keeps, h[k].0.individuals@, h[k + 1].0.individuals@)
}
pub proof fn lemma_best_exists<I: Individual>(p: Population<I>)
    requires pop_ok(p),
    ensures exists|x: I| #[trigger] is_best(p.individuals@, x),
{ lemma_best(p); }
/// C32: with elites, the best fitness never decreases, however many generations pass
pub proof fn lemma_never_decreases<I: Individual>(size: int, h: Seq<(Population<I>, bool)>, i: int, j: int)
    requires history(size, true, h), 0 <= i <= j < h.len(),
    ensures no_worse(h[i].0.individuals@, h[j].0.individuals@),
    decreases j - i,
{
    let p = h[i].0.individuals@; let q = h[j].0.individuals@;
    assert(pop_ok(h[i].0));
    if i == j {
        assert forall|x: I, y: I| #[trigger] is_best(p, x) && #[trigger] is_best(p, y) implies f_le(x.fit(), y.fit()) by { let k = choose|k: int| 0 <= k < p.len() && p[k] == x; assert(f_le(p[k].fit(), y.fit())); }
    } else {
        lemma_never_decreases(size, h, i, j - 1);
        assert(pop_ok(h[j - 1].0));
        lemma_best_exists(h[j - 1].0);
        let m = h[j - 1].0.individuals@;
        let b = choose|x: I| #[trigger] is_best(m, x);
        assert(h[j - 1 + 1] == h[j]);
        assert(followed(size, true, m, q));
        assert forall|x: I, y: I| #[trigger] is_best(p, x) && #[trigger] is_best(q, y) implies f_le(x.fit(), y.fit()) by { assert(f_le(x.fit(), b.fit())); assert(f_le(b.fit(), y.fit())); }
    }
}
/// C32: no population of a history with elites is better than its last one
pub proof fn lemma_last_best<I: Individual>(size: int, h: Seq<(Population<I>, bool)>, r: I)
    requires history(size, true, h), is_best(h.last().0.individuals@, r),
    ensures forall|k: int, i: int| 0 <= k < h.len() && 0 <= i < h[k].0.individuals@.len() ==> f_le((#[trigger] h[k].0.individuals@[i]).fit(), r.fit()),
{
    assert forall|k: int, i: int| 0 <= k < h.len() && 0 <= i < h[k].0.individuals@.len() implies f_le((#[trigger] h[k].0.individuals@[i]).fit(), r.fit()) by {
        lemma_never_decreases(size, h, k, h.len() - 1);
        assert(pop_ok(h[k].0));
        lemma_best_exists(h[k].0);
        let b = choose|x: I| #[trigger] is_best(h[k].0.individuals@, x);
        assert(f_le(b.fit(), r.fit()));
    }
}
pub proof fn lemma_grows<I: Individual>(size: int, keeps: bool, c: Seq<(Population<I>, bool)>, p: Population<I>, q: Population<I>)
    requires history(size, keeps, c.push((p, false))), followed(size, keeps, p.individuals@, q.individuals@), pop_ok(q),
    ensures history(size, keeps, c.push((p, true)).push((q, false))),
{
    let h = c.push((p, false)); let g = c.push((p, true)).push((q, false));
    let n = c.len() as int;
    assert(h[n].0 == p && pop_ok(h[n].0));
    assert forall|k: int| 0 <= k < g.len() implies pop_ok((#[trigger] g[k]).0) by { if k < n { assert(g[k] == h[k]); } }
    assert forall|k: int| #![trigger g[k + 1]] 0 <= k < g.len() - 1 implies followed(size, keeps, g[k].0.individuals@, g[k + 1].0.individuals@) by {
        if k < n { assert(g[k] == h[k]); assert(h[k + 1].0 == g[k + 1].0); assert(followed(size, keeps, h[k].0.individuals@, h[k + 1].0.individuals@)); }
    }
}
pub open spec fn added<T>(before: Seq<T>, after: Seq<T>) -> Seq<T> { after.subrange(before.len() as int, after.len() as int) }
pub proof fn lemma_added<T>(before: Seq<T>, c: Seq<T>)
    ensures added(before, before + c) == c,
{ assert(added(before, before + c) =~= c); }
%%trait EvolutionAlgorithm
%%raw
    spec fn the_model(&self) -> M;
    spec fn size(&self) -> usize;
    spec fn keeps(&self) -> bool;
%%fn model declare
@spec
    ensures *r == self.the_model(),
%%fn configure declare
@spec
    ensures final(self).size() == parameters.max_size(), final(self).size() > 0, final(self).keeps() == parameters.keeps(), final(self).the_model() == old(self).the_model(),
%%fn initialize_population declare
@spec
    requires lawful_eq::<M::Individual>(),
    ensures pop_ok(r), exists|e: Seq<M::Individual>| #[trigger] all_evaluated(self.the_model().evaluated(), individuals@, e) && valid_ones(e, r.individuals@),
%%fn prepare_for_next_population declare
@spec
    requires pop_ok(*population),
    ensures final(self).size() == old(self).size(), final(self).keeps() == old(self).keeps(),
%%fn select_elites
@spec
    requires pop_ok(*population), old(elites)@.len() == 0,
    ensures carried(population.individuals@, final(elites)@), self.keeps() ==> final(elites)@.len() > 0,
@at tail
    proof { assert(elites@.contains(elites@[0])); assert(population.individuals@.contains(elites@[0])); }
%%fn generate_new_population declare
@spec
    requires pop_ok(*population), rated(old(offspring)@),
    ensures final(offspring)@.len() == if old(offspring)@.len() < self.size() { self.size() as nat } else { old(offspring)@.len() },
        final(offspring)@.subrange(0, old(offspring)@.len() as int) == old(offspring)@, rated(final(offspring)@),
%%fn replace_population declare
@spec
    requires pop_ok(*old(population)), old(offspring)@.len() > 0, lawful_eq::<M::Individual>(), rated(old(offspring)@),
    ensures pop_ok(*final(population)), sorted_distinct_of(old(offspring)@, final(population).individuals@),
%%end
%%struct Evolution attr=verifier::reject_recursive_types(A) attr=verifier::reject_recursive_types(M)
%%raw
pub open spec fn first_valid<I: Individual>(evaluated: spec_fn(I, I) -> bool, given: Seq<I>, h: Seq<(Population<I>, bool)>) -> bool {
    exists|e: Seq<I>| #[trigger] all_evaluated(evaluated, given, e) && valid_ones(e, h[0].0.individuals@)
}
/// the given individuals, evaluated: r is at least as fit as every valid one
pub open spec fn beats_all_valid<I: Individual>(evaluated: spec_fn(I, I) -> bool, given: Seq<I>, r: I) -> bool {
    exists|e: Seq<I>| #[trigger] all_evaluated(evaluated, given, e) && forall|i: int| 0 <= i < e.len() && f_finite((#[trigger] e[i]).fit()) ==> f_le(e[i].fit(), r.fit())
}
pub proof fn lemma_beats_all_valid<I: Individual>(size: int, evaluated: spec_fn(I, I) -> bool, given: Seq<I>, h: Seq<(Population<I>, bool)>, r: I)
    requires history(size, true, h), first_valid(evaluated, given, h), is_best(h.last().0.individuals@, r),
    ensures beats_all_valid(evaluated, given, r),
{
    lemma_last_best(size, h, r);
    let e = choose|e: Seq<I>| #[trigger] all_evaluated(evaluated, given, e) && valid_ones(e, h[0].0.individuals@);
    assert forall|i: int| 0 <= i < e.len() && f_finite((#[trigger] e[i]).fit()) implies f_le(e[i].fit(), r.fit()) by {
        assert(h[0].0.individuals@.contains(e[i]));
        let j = choose|j: int| 0 <= j < h[0].0.individuals@.len() && h[0].0.individuals@[j] == e[i];
        assert(f_le(h[0].0.individuals@[j].fit(), r.fit()));
    }
}
%%impl Evolution
%%fn evolve_population mutself nodecreases lower:callback:progress
@spec
    requires lawful_eq::<M::Individual>(),
    ensures history(parameters.max_size() as int, parameters.keeps(), added(old(progress).calls(), final(progress).calls())), r == added(old(progress).calls(), final(progress).calls()).last().0,
        first_valid(old(self).algorithm.the_model().evaluated(), initial_population@, added(old(progress).calls(), final(progress).calls())), pop_ok(r),
        parameters.keeps() ==> forall|x: M::Individual| #[trigger] is_best(r.individuals@, x) ==> beats_all_valid(old(self).algorithm.the_model().evaluated(), initial_population@, x),
@at start
    let ghost before = progress.calls();
    let ghost ev = self.algorithm.the_model().evaluated();
    let ghost given = initial_population@;
    let ghost mut c = Seq::<(Population<M::Individual>, bool)>::empty();
@at before loop 0
    proof { assert(progress.calls() =~= before + c); }
@loop 0
    invariant history(parameters.max_size() as int, parameters.keeps(), c.push((population, false))), progress.calls() == before + c, pop_ok(population), first_valid(ev, given, c.push((population, false))), lawful_eq::<M::Individual>(),
        self.algorithm.size() == parameters.max_size(), self.algorithm.size() > 0, self.algorithm.keeps() == parameters.keeps(),
@at loop 0 start
    let ghost p0 = population;
    proof { assert(progress.calls() =~= before + c.push((p0, true))); }
@at after select_elites 0
    let ghost e = new_population@;
    proof { assert forall|i: int| 0 <= i < e.len() implies !f_nan(#[trigger] e[i].fit()) by { let s = p0.individuals@; assert(s.contains(e[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == e[i]; assert(!f_nan(s[j].fit())); } }
@at after generate_new_population 0
    let ghost o = new_population@;
@at loop 0 end
    proof {
        let q = population.individuals@;
        lemma_no_more(o, q);
        if e.len() > 0 { lemma_no_worse(p0.individuals@, e, o, q); }
        lemma_grows(parameters.max_size() as int, parameters.keeps(), c, p0, population);
        assert(c.push((p0, true)).push((population, false))[0].0 == c.push((p0, false))[0].0);
        c = c.push((p0, true));
    }
@at tail
    proof { let g = c.push((population, false)); assert(progress.calls() =~= before + g); lemma_added(before, g);
        if parameters.keeps() { assert forall|x: M::Individual| #[trigger] is_best(population.individuals@, x) implies beats_all_valid(ev, given, x) by { lemma_beats_all_valid(parameters.max_size() as int, ev, given, g, x); } }
    }
%%fn run mutself lower:callback:progress
@spec
    requires lawful_eq::<M::Individual>(),
    ensures parameters.keeps() ==> exists|s: Seq<M::Individual>| #[trigger] beats_all_valid(old(self).algorithm.the_model().evaluated(), s, r),
%%fn evolve_individual mutself lower:callback:progress
@spec
    requires lawful_eq::<M::Individual>(),
    ensures parameters.keeps() ==> exists|s: Seq<M::Individual>| #[trigger] beats_all_valid(old(self).algorithm.the_model().evaluated(), s, r),
%%end
