%%prelude core f64 f64real
%%struct Stats attr=derive(Copy,Clone)
%%struct PopulatedStats attr=derive(Copy,Clone)
%%raw
impl Default for Stats {
    #[verifier::external_body] fn default() -> (r: Stats) ensures r.count == 0 { unimplemented!() }
}
pub open spec fn all_finite(s: Seq<F64>) -> bool { forall|i: int| 0 <= i < s.len() ==> f_finite(#[trigger] s[i]) }
pub open spec fn total(s: Seq<F64>) -> real decreases s.len() { if s.len() == 0 { 0real } else { total(s.drop_last()) + rv(s.last()) } }
pub open spec fn total_sq(s: Seq<F64>) -> real decreases s.len() { if s.len() == 0 { 0real } else { total_sq(s.drop_last()) + rv(s.last()) * rv(s.last()) } }
pub open spec fn mean(s: Seq<F64>) -> real { total(s) / (s.len() as real) }
/// the sum of squared deviations from m
pub open spec fn dev(s: Seq<F64>, m: real) -> real decreases s.len() { if s.len() == 0 { 0real } else { dev(s.drop_last(), m) + (rv(s.last()) - m) * (rv(s.last()) - m) } }
pub open spec fn ssd(s: Seq<F64>) -> real { dev(s, mean(s)) }
pub open spec fn variance(s: Seq<F64>) -> real { if s.len() <= 1 { 0real } else { ssd(s) / ((s.len() - 1) as real) } }
/// C17: st holds the mean and the squared deviations of the samples s
pub open spec fn describes(s: Seq<F64>, st: Stats) -> bool {
    all_finite(s) && st.count == s.len() && (s.len() > 0 ==> fv(st.avg) == FV::Fin(mean(s)) && fv(st.sum_squared) == FV::Fin(ssd(s)))
}
pub proof fn lemma_dev(s: Seq<F64>, m: real)
    ensures dev(s, m) == total_sq(s) - 2real * m * total(s) + (s.len() as real) * m * m,
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.drop_last(); let x = rv(s.last());
        lemma_dev(t, m);
        let (a, b, n) = (total_sq(t), total(t), t.len() as real);
        assert(s.len() as real == n + 1real);
        assert((a - 2real * m * b + n * m * m) + (x - m) * (x - m) == (a + x * x) - 2real * m * (b + x) + (n + 1real) * m * m) by(nonlinear_arith);
    }
}
pub proof fn lemma_dev_nonneg(s: Seq<F64>, m: real)
    ensures dev(s, m) >= 0real,
    decreases s.len(),
{
    if s.len() > 0 { lemma_dev_nonneg(s.drop_last(), m); let d = rv(s.last()) - m; assert(d * d >= 0real) by(nonlinear_arith); }
}
pub proof fn lemma_alg_mean(m: real, n: real, b: real, x: real, n1: real)
    requires n > 0real, n1 == n + 1real, m == b / n,
    ensures m * n == b, (b + x) / n1 == m + (x - m) / n1, (m + (x - m) / n1) * n1 == b + x,
{
    let d = (x - m) / n1; let q = (b + x) / n1; let m1 = m + d;
    assert(m * n == b) by(nonlinear_arith) requires m == b / n, n > 0real;
    assert(d * n1 == x - m) by(nonlinear_arith) requires d == (x - m) / n1, n1 > 0real;
    assert(m * n1 == m * n + m) by(nonlinear_arith) requires n1 == n + 1real;
    assert(m1 * n1 == m * n1 + d * n1) by(nonlinear_arith) requires m1 == m + d;
    assert(m1 * n1 == b + x);
    assert(q == m1) by(nonlinear_arith) requires q == (m1 * n1) / n1, n1 > 0real;
}
pub proof fn lemma_alg_dev(a: real, b: real, m: real, n: real, x: real, m1: real, n1: real)
    requires n1 == n + 1real, m * n == b, m1 * n1 == b + x,
    ensures (a + x * x) - 2real * m1 * (b + x) + n1 * m1 * m1 == (a - 2real * m * b + n * m * m) + (x - m) * (x - m1),
{
    let (bm1, xm1, mm1, mb, mx) = (b * m1, x * m1, m * m1, m * b, m * x);
    assert(n1 * m1 * m1 == bm1 + xm1) by(nonlinear_arith) requires m1 * n1 == b + x, bm1 == b * m1, xm1 == x * m1;
    assert(n * m1 * m == bm1) by(nonlinear_arith) requires m * n == b, bm1 == b * m1;
    assert(m * (m1 * n1) == n * m1 * m + mm1) by(nonlinear_arith) requires n1 == n + 1real, mm1 == m * m1;
    assert(m * (b + x) == mb + mx) by(nonlinear_arith) requires mb == m * b, mx == m * x;
    assert(bm1 + mm1 == mb + mx);
    assert(n * m * m == mb) by(nonlinear_arith) requires m * n == b, mb == m * b;
    assert(2real * m * b == 2real * mb) by(nonlinear_arith) requires mb == m * b;
    assert(2real * m1 * (b + x) == 2real * (bm1 + xm1)) by(nonlinear_arith) requires bm1 == b * m1, xm1 == x * m1;
    assert((x - m) * (x - m1) == x * x - xm1 - mx + mm1) by(nonlinear_arith) requires xm1 == x * m1, mx == m * x, mm1 == m * m1;
}
/// Welford's update is the mean and the squared deviations of the longer sequence.
pub proof fn lemma_welford(s: Seq<F64>, y: F64)
    requires s.len() > 0,
    ensures mean(s.push(y)) == mean(s) + (rv(y) - mean(s)) / ((s.len() + 1) as real),
        ssd(s.push(y)) == ssd(s) + (rv(y) - mean(s)) * (rv(y) - mean(s.push(y))),
{
    let t = s.push(y);
    assert(t.drop_last() =~= s); assert(t.last() == y);
    let n = s.len() as real; let n1 = t.len() as real;
    assert(n1 == n + 1real);
    lemma_alg_mean(mean(s), n, total(s), rv(y), n1);
    lemma_dev(s, mean(s)); lemma_dev(t, mean(t));
    lemma_alg_dev(total_sq(s), total(s), mean(s), n, rv(y), mean(t), n1);
}
pub proof fn lemma_first(y: F64)
    ensures mean(seq![y]) == rv(y), ssd(seq![y]) == 0real,
{
    let t = seq![y]; assert(t.drop_last() =~= Seq::empty()); reveal_with_fuel(total, 2); reveal_with_fuel(dev, 2);
    let m = mean(t); assert(total(t) == rv(y)); assert(rv(y) / 1real == rv(y)) by(nonlinear_arith);
    assert((rv(y) - m) * (rv(y) - m) == 0real) by(nonlinear_arith) requires m == rv(y);
}
%%impl Stats
%%fn record
@spec
    requires old(self).count < usize::MAX,
    ensures forall|s: Seq<F64>| #[trigger] describes(s, *old(self)) && f_finite(sample) ==> describes(s.push(sample), *final(self)),
@at start
    proof {
        assert forall|s: Seq<F64>| #[trigger] describes(s, *self) && f_finite(sample) implies
            all_finite(s.push(sample)) && (s.len() > 0 ==> mean(s.push(sample)) == mean(s) + (rv(sample) - mean(s)) / ((s.len() + 1) as real)
                && ssd(s.push(sample)) == ssd(s) + (rv(sample) - mean(s)) * (rv(sample) - mean(s.push(sample)))) && (s.len() == 0 ==> mean(s.push(sample)) == rv(sample) && ssd(s.push(sample)) == 0real) by {
            if s.len() > 0 { lemma_welford(s, sample); } else { assert(s.push(sample) =~= seq![sample]); lemma_first(sample); }
        }
    }
%%fn avg
@spec
    ensures forall|s: Seq<F64>| #[trigger] describes(s, *self) ==> if s.len() == 0 { r.is_none() } else { r.is_some() && fv(r.unwrap()) == FV::Fin(mean(s)) },
%%fn var
@spec
    ensures forall|s: Seq<F64>| #[trigger] describes(s, *self) ==> if s.len() == 0 { r.is_none() } else { r.is_some() && fv(r.unwrap()) == FV::Fin(variance(s)) },
%%fn std
@spec
    ensures forall|s: Seq<F64>| #[trigger] describes(s, *self) ==> if s.len() == 0 { r.is_none() } else { r.is_some() && is_sqrt(r.unwrap(), variance(s)) },
@at start
    proof { assert forall|s: Seq<F64>| #[trigger] describes(s, *self) && s.len() > 0 implies variance(s) >= 0real by { lemma_variance_nonneg(s); } }
%%end
%%impl PopulatedStats
%%fn count
@spec
    ensures r == self.stats.count,
%%fn avg
@spec
    ensures forall|s: Seq<F64>| #[trigger] describes(s, self.stats) && s.len() > 0 ==> fv(r) == FV::Fin(mean(s)),
%%fn var
@spec
    ensures forall|s: Seq<F64>| #[trigger] describes(s, self.stats) && s.len() > 0 ==> fv(r) == FV::Fin(variance(s)),
%%fn std
@spec
    ensures forall|s: Seq<F64>| #[trigger] describes(s, self.stats) && s.len() > 0 ==> is_sqrt(r, variance(s)),
@at start
    proof { assert forall|s: Seq<F64>| #[trigger] describes(s, self.stats) && s.len() > 0 implies variance(s) >= 0real by { lemma_variance_nonneg(s); } }
%%fn set_arg_min
@spec
    requires arg_min < old(self).stats.count,
    ensures final(self).stats == (Stats { arg_min, ..old(self).stats }),
%%fn set_arg_max
@spec
    requires arg_max < old(self).stats.count,
    ensures final(self).stats == (Stats { arg_max, ..old(self).stats }),
%%fn set_arg_min panics as=vx_rejects_arg_min
@spec
    requires arg_min >= old(self).stats.count,
    ensures false,
%%fn set_arg_max panics as=vx_rejects_arg_max
@spec
    requires arg_max >= old(self).stats.count,
    ensures false,
%%end
%%raw
pub open spec fn is_sqrt(r: F64, v: real) -> bool { f_finite(r) && rv(r) >= 0real && rv(r) * rv(r) == v }
pub proof fn lemma_variance_nonneg(s: Seq<F64>)
    requires s.len() > 0,
    ensures variance(s) >= 0real,
{
    lemma_dev_nonneg(s, mean(s));
    if s.len() > 1 { let a = ssd(s); let n = (s.len() - 1) as real; assert(a / n >= 0real) by(nonlinear_arith) requires a >= 0real, n > 0real; }
}
%%impl FromIterator for Stats as_inherent
%%fn from_iter
@generics
=
@params
iter: It<F64>
@spec
    requires iter@.len() <= usize::MAX,
    ensures all_finite(iter@) ==> describes(iter@, r),
@loop 0
    invariant vx_s0@ == iter@.subrange(1, iter@.len() as int), iter@.len() >= 1, count == vx_k0 + 1,
        all_finite(iter@) ==> fv(avg) == FV::Fin(mean(iter@.subrange(0, vx_k0 + 1))) && fv(sum_squared) == FV::Fin(ssd(iter@.subrange(0, vx_k0 + 1))),
@at before loop 0
    proof { lemma_first(iter@[0]); assert(iter@.subrange(0, 1) =~= seq![iter@[0]]); }
@at loop 0 start
    proof { lemma_welford(iter@.subrange(0, vx_k0 + 1), iter@[vx_k0 + 1]); assert(iter@.subrange(0, vx_k0 + 1).push(iter@[vx_k0 + 1]) =~= iter@.subrange(0, vx_k0 + 2)); assert(f_finite(iter@[vx_k0 + 1]) || !all_finite(iter@)); }
@at after loop 0
    assert(iter@.subrange(0, iter@.len() as int) =~= iter@);
%%end
