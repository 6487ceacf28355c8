%%prelude core f64 rng sort
%%include popbase
%%raw
/// x is among the first n elements of s
pub open spec fn within<T>(s: Seq<T>, n: int, x: T) -> bool { exists|m: int| 0 <= m < n && #[trigger] s[m] == x }
pub open spec fn unique_upto<T>(a: Seq<T>, n: int) -> bool { forall|j: int, k: int| 0 <= j < k < n ==> #[trigger] a[j] != #[trigger] a[k] }
pub open spec fn ascending_upto<I: Individual>(a: Seq<I>, n: int) -> bool { forall|j: int, k: int| 0 <= j <= k < n ==> f_le(#[trigger] a[j].fit(), #[trigger] a[k].fit()) }
/// a[run..n] are as fit as a[n - 1], those before are less fit
pub open spec fn last_run<I: Individual>(a: Seq<I>, run: int, n: int) -> bool { forall|j: int| 0 <= j < n ==> if j < run { f_lt(#[trigger] a[j].fit(), a[n - 1].fit()) } else { f_eq(a[j].fit(), a[n - 1].fit()) } }
/// After looking at the first i individuals of the sorted sequence s: a[..kept] holds the distinct ones.
pub open spec fn deduped<I: Individual>(s: Seq<I>, a: Seq<I>, i: int, kept: int, run: int) -> bool {
    &&& a.len() == s.len() && 0 <= run <= kept <= i <= s.len() && (i > 0 ==> kept > 0)
    &&& forall|j: int| i <= j < s.len() ==> #[trigger] a[j] == s[j]
    &&& unique_upto(a, kept)
    &&& ascending_upto(a, kept)
    &&& forall|x: I| #[trigger] within(a, kept, x) <==> within(s, i, x)
    &&& last_run(a, run, kept)
}
pub open spec fn swapped<T>(a: Seq<T>, i: int, j: int) -> Seq<T> { a.update(i, a[j]).update(j, a[i]) }
pub open spec fn next_run<I: Individual>(a: Seq<I>, i: int, kept: int, run: int) -> int { if kept != 0 && f_cmp(a[kept - 1].fit(), a[i].fit()) != Some(core::cmp::Ordering::Equal) { kept } else { run } }
pub proof fn lemma_last_is_le<I: Individual>(s: Seq<I>, a: Seq<I>, i: int, kept: int, run: int)
    requires deduped(s, a, i, kept, run), i < s.len(), ascending(s), rated(s), kept > 0,
    ensures f_lt(a[kept - 1].fit(), s[i].fit()) || f_eq(a[kept - 1].fit(), s[i].fit()), f_eq(a[kept - 1].fit(), s[i].fit()) <==> f_cmp(a[kept - 1].fit(), s[i].fit()) == Some(core::cmp::Ordering::Equal),
        !f_nan(s[i].fit()), !f_nan(a[kept - 1].fit()),
{
    assert(within(a, kept, a[kept - 1]));
    let m = choose|m: int| 0 <= m < i && #[trigger] s[m] == a[kept - 1];
    assert(f_le(s[m].fit(), s[i].fit()));
    assert(!f_nan(s[m].fit()) && !f_nan(s[i].fit()));
}
/// the next individual is among the kept ones exactly when it is in the last run of equal fitness
pub proof fn lemma_in_run<I: Individual>(s: Seq<I>, a: Seq<I>, i: int, kept: int, run: int)
    requires deduped(s, a, i, kept, run), i < s.len(), ascending(s), rated(s),
    ensures within(a, kept, s[i]) <==> a.subrange(next_run(a, i, kept, run), kept).contains(s[i]),
{
    let x = s[i]; let r1 = next_run(a, i, kept, run); let sub = a.subrange(r1, kept);
    assert(a[i] == x);
    if kept > 0 { lemma_last_is_le(s, a, i, kept, run); }
    if within(a, kept, x) {
        let j = choose|j: int| 0 <= j < kept && #[trigger] a[j] == x;
        assert(j >= r1) by {
            if r1 == kept { assert(f_lt(a[kept - 1].fit(), x.fit())); assert(f_le(a[j].fit(), a[kept - 1].fit())); }
            else if j < run { assert(f_lt(a[j].fit(), a[kept - 1].fit())); }
        }
        assert(sub[j - r1] == x);
    }
    if sub.contains(x) { let k = choose|k: int| 0 <= k < sub.len() && sub[k] == x; assert(a[r1 + k] == x); }
}
pub proof fn lemma_within_step<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures forall|x: T| #[trigger] within(s, i + 1, x) <==> (within(s, i, x) || x == s[i]),
{
    assert forall|x: T| #[trigger] within(s, i + 1, x) <==> (within(s, i, x) || x == s[i]) by {
        if within(s, i, x) { let m = choose|m: int| 0 <= m < i && #[trigger] s[m] == x; assert(s[m] == x); }
        if x == s[i] { assert(s[i] == x); }
    }
}
pub proof fn lemma_dedup_step<I: Individual>(s: Seq<I>, a: Seq<I>, i: int, kept: int, run: int)
    requires deduped(s, a, i, kept, run), i < s.len(), ascending(s), rated(s),
    ensures a.subrange(next_run(a, i, kept, run), kept).contains(a[i]) ==> deduped(s, a, i + 1, kept, next_run(a, i, kept, run)),
        !a.subrange(next_run(a, i, kept, run), kept).contains(a[i]) ==> deduped(s, swapped(a, kept, i), i + 1, kept + 1, next_run(a, i, kept, run)),
{
    let x = s[i]; let r1 = next_run(a, i, kept, run); let b = swapped(a, kept, i);
    assert(a[i] == x);
    lemma_within_step(s, i); lemma_in_run(s, a, i, kept, run);
    if kept > 0 { lemma_last_is_le(s, a, i, kept, run); }
    if a.subrange(r1, kept).contains(x) {
        assert(r1 == run);
        assert(kept > 0);
    } else {
        assert(!within(a, kept, x));
        assert(b[kept] == x);
        assert(forall|j: int| 0 <= j < kept ==> #[trigger] b[j] == a[j]);
        lemma_within_step(b, kept);
        assert forall|y: I| #[trigger] within(b, kept, y) <==> within(a, kept, y) by {
            if within(b, kept, y) { let m = choose|m: int| 0 <= m < kept && #[trigger] b[m] == y; assert(a[m] == y); }
            if within(a, kept, y) { let m = choose|m: int| 0 <= m < kept && #[trigger] a[m] == y; assert(b[m] == y); }
        }
        assert(unique_upto(b, kept + 1)) by {
            assert forall|j: int, k: int| 0 <= j < k < kept + 1 implies #[trigger] b[j] != #[trigger] b[k] by { assert(b[j] == a[j]); if k < kept { assert(b[k] == a[k]); } else if a[j] == x { assert(within(a, kept, x)); } }
        }
        assert forall|j: int| 0 <= j < kept implies if j < r1 { f_lt(#[trigger] a[j].fit(), x.fit()) } else { f_eq(a[j].fit(), x.fit()) } by {
            if j < run { assert(f_lt(a[j].fit(), a[kept - 1].fit())); } else { assert(f_eq(a[j].fit(), a[kept - 1].fit())); }
        }
        assert(last_run(b, r1, kept + 1)) by {
            assert forall|j: int| 0 <= j < kept + 1 implies if j < r1 { f_lt(#[trigger] b[j].fit(), b[kept + 1 - 1].fit()) } else { f_eq(b[j].fit(), b[kept + 1 - 1].fit()) } by { if j < kept { assert(b[j] == a[j]); } }
        }
        assert(ascending_upto(b, kept + 1)) by {
            assert forall|j: int, k: int| 0 <= j <= k < kept + 1 implies f_le(#[trigger] b[j].fit(), #[trigger] b[k].fit()) by {
                if k < kept { assert(b[j] == a[j] && b[k] == a[k]); } else if j < kept { assert(b[j] == a[j]); }
            }
        }
    }
}
pub proof fn lemma_sorted<I: Individual>(s0: Seq<I>, s: Seq<I>, p: Seq<int>)
    requires is_perm(p, s0.len() as int), s == permuted(s0, p), rated(s0),
    ensures rated(s), forall|x: I| #[trigger] s0.contains(x) <==> s.contains(x),
{
    assert forall|i: int| 0 <= i < s.len() implies !f_nan(#[trigger] s[i].fit()) by { assert(0 <= p[i] < s0.len()); assert(!f_nan(s0[p[i]].fit())); }
    assert forall|x: I| #[trigger] s0.contains(x) <==> s.contains(x) by {
        if s0.contains(x) {
            let j = choose|j: int| 0 <= j < s0.len() && s0[j] == x;
            lemma_perm_onto(p, s0.len() as int, j);
            let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j;
            assert(s[i] == x);
        }
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s0[p[i]] == x); }
    }
}
pub proof fn lemma_perm_onto(p: Seq<int>, n: int, j: int)
    requires is_perm(p, n), 0 <= j < n,
    ensures exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j,
{
    if forall|i: int| 0 <= i < p.len() ==> #[trigger] p[i] != j {
        p.unique_seq_to_set();
        let all = vstd::set_lib::set_int_range(0, n);
        vstd::set_lib::lemma_int_range(0, n);
        assert forall|x: int| p.to_set().contains(x) implies all.remove(j).contains(x) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(p[i] != j); }
        vstd::set_lib::lemma_len_subset(p.to_set(), all.remove(j));
    }
}
pub proof fn lemma_dedup_end<I: Individual>(s0: Seq<I>, s: Seq<I>, a: Seq<I>, kept: int, run: int, r: Seq<I>)
    requires deduped(s, a, s.len() as int, kept, run), r == a.subrange(0, kept), forall|x: I| #[trigger] s0.contains(x) <==> s.contains(x),
    ensures sorted_distinct_of(s0, r),
{
    assert(r.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { assert(r[i] == a[i] && r[j] == a[j]); if i < j { assert(a[i] != a[j]); } else { assert(a[j] != a[i]); } } }
    assert forall|i: int, j: int| 0 <= i <= j < r.len() implies f_le(#[trigger] r[i].fit(), #[trigger] r[j].fit()) by { assert(f_le(a[i].fit(), a[j].fit())); }
    assert forall|x: I| #[trigger] s0.contains(x) <==> r.contains(x) by {
        if s0.contains(x) { assert(s.contains(x)); let m = choose|m: int| 0 <= m < s.len() && s[m] == x; assert(s[m] == x); assert(within(s, s.len() as int, x)); assert(within(a, kept, x)); let j = choose|j: int| 0 <= j < kept && #[trigger] a[j] == x; assert(r[j] == x); }
        if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; assert(a[j] == x); assert(within(a, kept, x)); assert(within(s, s.len() as int, x)); let m = choose|m: int| 0 <= m < s.len() && #[trigger] s[m] == x; assert(s.contains(x)); }
    }
}
%%fn compare_fitness
@spec
    ensures r == (match f_cmp(a.fit(), b.fit()) { Some(o) => o, None => core::cmp::Ordering::Equal }),
%%fn sort_dedup_and_collect_stats
@spec
    requires old(individuals)@.len() > 0, lawful_eq::<I>(), rated(old(individuals)@),
    ensures sorted_distinct_of(old(individuals)@, final(individuals)@), stats_of(fits(final(individuals)@), r.stats),
@at start
    let ghost s0 = individuals@;
@at before loop 0
    let ghost s = individuals@;
    proof {
        assert(ascending(s));
        let p = choose|p: Seq<int>| #[trigger] is_perm(p, s0.len() as int) && s == permuted(s0, p); lemma_sorted(s0, s, p);
    }
@loop 0
    invariant s.len() == s0.len(), s.len() > 0, individuals@.len() == s.len(), ascending(s), rated(s), forall|x: I| #[trigger] s0.contains(x) <==> s.contains(x), lawful_eq::<I>(),
        deduped(s, individuals@, vx_k0 as int, kept as int, run_start as int),
@at loop 0 start
    proof { lemma_dedup_step(s, individuals@, vx_k0 as int, kept as int, run_start as int); }
@at after loop 0
    let ghost a = individuals@;
    proof { lemma_dedup_end(s0, s, a, kept as int, run_start as int, a.subrange(0, kept as int)); lemma_count(fits(a.subrange(0, kept as int))); }
@clo 0
 -> (o: F64) ensures o == i.fit()
@at call map 0
    assert(vx_v_map_0@ =~= fits(individuals@));
