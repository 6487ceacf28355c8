%%raw
impl Default for Stats {
    #[verifier::external_body] fn default() -> (r: Stats) ensures r.count == 0 { unimplemented!() }
}
/// One more sample: the first smallest and first largest so far, and Welford's update of mean and squared deviations.
pub open spec fn stats_step(st: Stats, x: F64) -> Stats {
    if st.count == 0 { Stats { count: 1, min: x, arg_min: 0, max: x, arg_max: 0, avg: x, sum_squared: f_zero() } }
    else {
        let avg = f_add(st.avg, f_div(f_sub(x, st.avg), f_of(st.count + 1)));
        Stats { count: (st.count + 1) as usize,
            min: if f_lt(x, st.min) { x } else { st.min }, arg_min: if f_lt(x, st.min) { st.count } else { st.arg_min },
            max: if f_lt(st.max, x) { x } else { st.max }, arg_max: if f_lt(st.max, x) { st.count } else { st.arg_max },
            avg, sum_squared: f_add(st.sum_squared, f_mul(f_sub(x, st.avg), f_sub(x, avg))) }
    }
}
/// The statistics of a non-empty sequence of samples recorded one at a time.
pub open spec fn recorded(s: Seq<F64>) -> Stats decreases s.len() when s.len() > 0 {
    if s.len() == 1 { stats_step(Stats { count: 0, min: s[0], arg_min: 0, max: s[0], arg_max: 0, avg: s[0], sum_squared: s[0] }, s[0]) } else { stats_step(recorded(s.drop_last()), s.last()) }
}
/// st is what recording the samples s leaves behind
pub open spec fn stats_of(s: Seq<F64>, st: Stats) -> bool { if s.len() == 0 { st.count == 0 } else { st == recorded(s) } }
pub open spec fn comparable(s: Seq<F64>) -> bool { forall|i: int| 0 <= i < s.len() ==> !f_nan(#[trigger] s[i]) }
pub open spec fn is_first_min(s: Seq<F64>, i: int) -> bool { 0 <= i < s.len() && forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> f_le(s[i], s[j]) && (j < i ==> f_lt(s[i], s[j])) }
pub open spec fn is_first_max(s: Seq<F64>, i: int) -> bool { 0 <= i < s.len() && forall|j: int| #![trigger s[j]] 0 <= j < s.len() ==> f_le(s[j], s[i]) && (j < i ==> f_lt(s[j], s[i])) }
/// C16: the count, the extremes and the first positions of the extremes
pub proof fn lemma_recorded(s: Seq<F64>)
    requires 0 < s.len() <= usize::MAX, comparable(s),
    ensures recorded(s).count == s.len(),
        is_first_min(s, recorded(s).arg_min as int), recorded(s).min == s[recorded(s).arg_min as int],
        is_first_max(s, recorded(s).arg_max as int), recorded(s).max == s[recorded(s).arg_max as int],
    decreases s.len(),
{
    if s.len() > 1 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies !f_nan(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        lemma_recorded(t);
        assert(forall|j: int| 0 <= j < t.len() ==> t[j] == s[j]);
        assert(!f_nan(s.last()));
        let a = recorded(t).arg_min as int; let b = recorded(t).arg_max as int;
        assert(!f_nan(s[a]) && !f_nan(s[b]));
        assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies f_le(recorded(s).min, s[j]) && (j < recorded(s).arg_min ==> f_lt(recorded(s).min, s[j])) by { if j < t.len() { assert(t[j] == s[j]); assert(!f_nan(s[j])); } }
        assert forall|j: int| #![trigger s[j]] 0 <= j < s.len() implies f_le(s[j], recorded(s).max) && (j < recorded(s).arg_max ==> f_lt(s[j], recorded(s).max)) by { if j < t.len() { assert(t[j] == s[j]); assert(!f_nan(s[j])); } }
    } else {
        assert(!f_nan(s[0]));
    }
}
pub proof fn lemma_count(s: Seq<F64>)
    requires 0 < s.len() <= usize::MAX,
    ensures recorded(s).count == s.len(),
    decreases s.len(),
{ if s.len() > 1 { lemma_count(s.drop_last()); } }
pub proof fn lemma_push(s: Seq<F64>, x: F64)
    ensures s.len() == 0 ==> forall|st: Stats| st.count == 0 ==> #[trigger] stats_step(st, x) == recorded(s.push(x)),
        s.len() > 0 ==> stats_step(recorded(s), x) == recorded(s.push(x)),
{ assert(s.push(x).drop_last() =~= s); assert(s.push(x).last() == x); }
