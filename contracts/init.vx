%%prelude core f64 rng
%%sole EvolutionAlgorithm initialize_population
%%sole Individual is_valid
%%include popbase
%%include pop
%%include filtered
%%impl Population
%%fn new assume
@spec
    requires lawful_eq::<I>(), rated(initial_population@),
    ensures initial_population@.len() > 0, pop_ok(r), r.individuals@.no_duplicates(), forall|x: I| #[trigger] r.individuals@.contains(x) <==> initial_population@.contains(x), r.generation == 0,
%%end
%%trait EvolutionModel
%%raw
    /// (before, after): what one evaluation does
    spec fn evaluated(&self) -> spec_fn(Self::Individual, Self::Individual) -> bool;
%%fn evaluate declare
@spec
    ensures (self.evaluated())(*old(individual), *final(individual)),
%%end
%%include evald
%%trait EvolutionParameters
%%end
%%trait EvolutionAlgorithm
%%raw
    spec fn the_model(&self) -> M;
%%fn model declare
@spec
    ensures *r == self.the_model(),
%%fn initialize_population
@spec
    requires lawful_eq::<M::Individual>(),
    ensures exists|e: Seq<M::Individual>| #[trigger] all_evaluated(self.the_model().evaluated(), individuals@, e) && valid_ones(e, r.individuals@)
        && exists|i: int| 0 <= i < e.len() && f_finite(#[trigger] e[i].fit()),
        r.individuals@.len() > 0, r.generation == 0,
@at start
    let ghost given = individuals@;
    let ghost ev = self.the_model().evaluated();
@loop 0
    invariant vx_k0 <= individuals@.len() == given.len(), forall|i: int| 0 <= i < vx_k0 ==> ev(#[trigger] given[i], individuals@[i]), forall|i: int| vx_k0 <= i < given.len() ==> individuals@[i] == #[trigger] given[i],
@clo 0
 -> (o: bool) ensures o == f_finite(individual.fit())
@at before retain 0
    let ghost e = individuals@;
@at after retain 0
    proof {
        let kept = individuals@;
        let keep = choose|keep: Seq<bool>| #[trigger] filtered(e, keep, kept) && forall|i: int| 0 <= i < e.len() ==> keep[i] == f_finite(#[trigger] e[i].fit());
        lemma_kept(e, keep, kept);
        assert(all_evaluated(ev, given, e));
    }
%%end
%%raw
pub proof fn lemma_kept<I: Individual>(e: Seq<I>, keep: Seq<bool>, kept: Seq<I>)
    requires filtered(e, keep, kept), forall|i: int| 0 <= i < e.len() ==> keep[i] == f_finite(#[trigger] e[i].fit()),
    ensures forall|x: I| #[trigger] kept.contains(x) <==> e.contains(x) && f_finite(x.fit()), rated(kept), kept.len() > 0 ==> exists|i: int| 0 <= i < e.len() && f_finite(#[trigger] e[i].fit()),
{
    assert forall|i: int| 0 <= i < kept.len() implies e.contains(kept[i]) && f_finite(#[trigger] kept[i].fit()) by {
        lemma_filtered_from(e, keep, kept, i);
        let j = choose|j: int| #[trigger] from_kept(e, keep, kept[i], j);
        assert(e[j] == kept[i] && f_finite(e[j].fit()));
    }
    assert forall|x: I| #[trigger] kept.contains(x) <==> e.contains(x) && f_finite(x.fit()) by {
        if e.contains(x) && f_finite(x.fit()) { let j = choose|j: int| 0 <= j < e.len() && e[j] == x; assert(f_finite(e[j].fit())); lemma_filtered_to(e, keep, kept, j); }
        if kept.contains(x) { let i = choose|i: int| 0 <= i < kept.len() && kept[i] == x; assert(f_finite(kept[i].fit())); }
    }
    if kept.len() > 0 { assert(f_finite(kept[0].fit())); assert(e.contains(kept[0])); let j = choose|j: int| 0 <= j < e.len() && e[j] == kept[0]; assert(f_finite(e[j].fit())); }
}
