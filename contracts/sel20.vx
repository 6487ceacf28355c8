%%prelude core f64 rng
%%sole SelectionMechanism select_distinct
%%include selhead
%%raw
/// whether candidate differs from excluded, as its type compares
pub open spec fn differs<I: PartialEq>(candidate: I, excluded: I) -> bool { !candidate.eq_spec(&excluded) }
/// the selections at[..] were made one after another, the generator going through the states st[..]
pub open spec fn selections<R>(selected: spec_fn(R, R, int) -> bool, n: int, st: Seq<R>, at: Seq<int>) -> bool {
    st.len() == at.len() + 1 && forall|k: int| 0 <= k < at.len() ==> 0 <= #[trigger] at[k] < n && selected(st[k], st[k + 1], at[k])
}
%%trait SelectionMechanism
%%raw
    /// (before, after, r): the mechanism, applied with the generator in the state before, selected position r and left the generator in the state after
    spec fn selecting(&self, s: Seq<I>) -> spec_fn(R, R, int) -> bool;
%%fn prepare declare
%%fn select declare
@spec
    requires population.individuals@.len() > 0,
    ensures r.0 < population.individuals@.len(), *r.1 == population.individuals@[r.0 as int], (self.selecting(population.individuals@))(*old(rng), *final(rng), r.0 as int),
%%fn select_distinct
@spec
    requires population.individuals@.len() > 0, <I as PartialEqSpec>::obeys_eq_spec(),
    ensures exists|st: Seq<R>, at: Seq<int>| #[trigger] selections(self.selecting(population.individuals@), population.individuals@.len() as int, st, at) && st[0] == *old(rng) && st.last() == *final(rng) && at.len() <= max_tries
        && (forall|k: int| 0 <= k < at.len() - 1 ==> !differs(#[trigger] population.individuals@[at[k]], *excluded))
        && match r {
            Some(x) => at.len() > 0 && x.0 == at.last() && *x.1 == population.individuals@[x.0 as int] && differs(*x.1, *excluded),
            None => at.len() == max_tries && (at.len() > 0 ==> !differs(population.individuals@[at.last()], *excluded)),
        },
@at start
    let ghost s = population.individuals@;
    let ghost mut st = seq![*rng];
    let ghost mut at = Seq::<int>::empty();
@loop 0
    invariant selections(self.selecting(population.individuals@), s.len() as int, st, at), st[0] == *old(rng), st.last() == *rng, at.len() == vx_k0, forall|k: int| 0 <= k < at.len() ==> !differs(#[trigger] s[at[k]], *excluded),
@at call select 0
    proof { st = st.push(*rng); at = at.push(vx_v_select_0.0 as int); assert(selections(self.selecting(s), s.len() as int, st, at)); }
%%end
