%%fn sort_dedup_and_collect_stats assume
@spec
    requires old(individuals)@.len() > 0, lawful_eq::<I>(), rated(old(individuals)@),
    ensures sorted_distinct_of(old(individuals)@, final(individuals)@), stats_of(fits(final(individuals)@), r.stats),
%%struct Population attr=verifier::reject_recursive_types(I)
%%raw
/// What every population made by the library is: non-empty, distinct, ascending, with the statistics of its fitness values.
pub open spec fn pop_ok<I: Individual>(p: Population<I>) -> bool {
    &&& p.individuals@.len() > 0 && p.individuals@.no_duplicates() && ascending(p.individuals@) && rated(p.individuals@)
    &&& stats_of(fits(p.individuals@), p.stats.stats)
}
pub proof fn lemma_made<I: Individual>(a: Seq<I>, b: Seq<I>)
    requires a.len() > 0, rated(a), sorted_distinct_of(a, b),
    ensures b.len() > 0, rated(b),
{
    assert(a.contains(a[0])); assert(b.contains(a[0]));
    assert forall|i: int| 0 <= i < b.len() implies !f_nan(#[trigger] b[i].fit()) by { assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(!f_nan(a[j].fit())); }
}
/// x is a member with the largest fitness
pub open spec fn is_best<I: Individual>(s: Seq<I>, x: I) -> bool { s.contains(x) && forall|i: int| 0 <= i < s.len() ==> f_le(#[trigger] s[i].fit(), x.fit()) }
pub proof fn lemma_best<I: Individual>(p: Population<I>)
    requires pop_ok(p),
    ensures p.stats.stats.arg_max < p.individuals@.len(), is_best(p.individuals@, p.individuals@[p.stats.stats.arg_max as int]),
        p.stats.stats.max == p.individuals@[p.stats.stats.arg_max as int].fit(),
{
    let s = p.individuals@; let f = fits(s);
    assert(p.individuals.len() == s.len());
    assert forall|i: int| 0 <= i < f.len() implies !f_nan(#[trigger] f[i]) by { assert(!f_nan(s[i].fit())); }
    lemma_recorded(f);
    let m = p.stats.stats.arg_max as int;
    assert forall|i: int| 0 <= i < s.len() implies f_le(#[trigger] s[i].fit(), s[m].fit()) by { assert(f_le(f[i], f[m])); }
    assert(s.contains(s[m]));
}
