%%prelude core f64 f64round f64leaf f64comm
%%include lerp
%%raw
/// between bounds in [0, 1] the result never exceeds 1
pub proof fn lerp_at_most_one(lo: F64, hi: F64, t: F64)
    requires in_unit(lo), in_unit(hi), f_le(lo, hi), in_unit(t), bounds(lo, hi),
    ensures f_le(lerp(lo, hi, t), f_one()),
{
    literals();
    let d = f_sub(hi, lo); let top = f_sub(f_one(), lo);
    rnd_exact(f_one()); rnd_exact(f_zero());
    sub_rounds(hi, lo); sub_rounds(f_one(), lo);
    rnd_monotone(rv(hi) - rv(lo), 1real - rv(lo)); rnd_monotone(1real - rv(lo), 1real); rnd_monotone(0real, 1real - rv(lo));
    lemma_difference(lo, hi); lemma_part(d, t, t);
    add_rounds(lo, f_mul(d, t)); add_rounds(lo, top); leaf_one_minus(lo);
    rnd_monotone(rv(lo) + rv(f_mul(d, t)), rv(lo) + rv(top));
}
/// what interpolate_usize computes
pub open spec fn lerp_whole(lo: int, hi: int, t: F64) -> int { v_trunc(fv(f_add(f_of(lo), f_mul(f_of(hi - lo), t)))) }
pub proof fn lemma_trunc(a: FV, b: FV)
    requires vle(a, b),
    ensures v_trunc(a) <= v_trunc(b),
{}
/// whole numbers: the minimum at ratio zero, never below it, and never decreasing as the ratio grows
pub proof fn whole_from_minimum(lo: int, hi: int, s: F64, t: F64)
    requires 0 <= lo <= hi <= 0x20_0000_0000_0000, hi <= usize::MAX, in_unit(s), in_unit(t), f_le(s, t),
    ensures lo <= lerp_whole(lo, hi, s) <= lerp_whole(lo, hi, t), fv(s) == FV::Fin(0real) ==> lerp_whole(lo, hi, s) == lo,
{
    literals(); leaf_whole(lo); leaf_whole(hi - lo);
    let (a, d) = (f_of(lo), f_of(hi - lo));
    lemma_part(d, s, t);
    let (x, y) = (f_mul(d, s), f_mul(d, t));
    add_rounds(a, x); add_rounds(a, y); rnd_exact(a);
    rnd_monotone(rv(a), rv(a) + rv(x)); rnd_monotone(rv(a) + rv(x), rv(a) + rv(y));
    lemma_trunc(fv(a), fv(f_add(a, x))); lemma_trunc(fv(f_add(a, x)), fv(f_add(a, y)));
    assert(v_trunc(fv(a)) == lo);
    if fv(s) == FV::Fin(0real) {
        mul_rounds(d, s); rnd_exact(f_zero());
        assert(rv(d) * rv(s) == 0real) by(nonlinear_arith) requires rv(s) == 0real;
    }
}
/// from zero with a ratio below one: strictly below a non-zero maximum
pub proof fn whole_below_maximum(hi: int, t: F64)
    requires 0 < hi <= 0x20_0000_0000_0000, f_le(f_zero(), t), f_lt(t, f_one()),
    ensures 0 <= lerp_whole(0, hi, t) < hi,
{
    vx_leaf::leaf_share_below(hi, t);
    vx_leaf::leaf_zero_add(f_mul(f_of(hi), t));
    let x = rv(f_mul(f_of(hi), t));
    assert(x.floor() as real <= x);
}
/// C27: what the function under test computes, with everything shown above about it
pub open spec fn interpolates(lo: F64, hi: F64, t: F64, r: F64) -> bool {
    &&& r == lerp(lo, hi, t)
    &&& bounds(lo, hi) && f_le(lo, hi) && in_unit(t) ==> {
        &&& fv(t) == FV::Fin(0real) ==> fv(r) == fv(lo)
        &&& f_le(lo, r)
        &&& fv(t) == FV::Fin(1real) && fv(r) is Fin ==> rabs(rv(r) - rv(hi)) <= slack(rv(lo), rv(hi))
        &&& in_unit(lo) && in_unit(hi) ==> f_le(r, f_one())
        &&& forall|s: F64| in_unit(s) && f_le(t, s) ==> f_le(r, #[trigger] lerp(lo, hi, s))
    }
}
pub proof fn lemma_interpolates(lo: F64, hi: F64, t: F64)
    ensures interpolates(lo, hi, t, lerp(lo, hi, t)),
{
    literals();
    if bounds(lo, hi) && f_le(lo, hi) && in_unit(t) {
        if fv(t) == FV::Fin(0real) { lerp_at_zero(lo, hi, t); }
        lerp_monotone(lo, hi, t, t);
        lerp_at_one_if(lo, hi, t);
        if in_unit(lo) && in_unit(hi) { lerp_at_most_one(lo, hi, t); }
        assert forall|s: F64| in_unit(s) && f_le(t, s) implies f_le(lerp(lo, hi, t), #[trigger] lerp(lo, hi, s)) by { lerp_monotone(lo, hi, t, s); }
    }
}
pub proof fn lerp_at_one_if(lo: F64, hi: F64, t: F64)
    requires bounds(lo, hi),
    ensures fv(t) == FV::Fin(1real) && fv(lerp(lo, hi, t)) is Fin ==> rabs(rv(lerp(lo, hi, t)) - rv(hi)) <= slack(rv(lo), rv(hi)),
{ if fv(t) == FV::Fin(1real) { lerp_at_one(lo, hi, t); } }
%%fn interpolate_f64
@spec
    ensures interpolates(min, max, ratio, r),
@at start
    proof { lemma_interpolates(min, max, ratio); }
%%fn interpolate_usize
@spec
    requires min <= max,
    ensures r == lerp_whole(min as int, max as int, ratio),
        max <= 0x20_0000_0000_0000 && in_unit(ratio) ==> min <= r && (forall|s: F64| in_unit(s) && f_le(ratio, s) ==> r <= #[trigger] lerp_whole(min as int, max as int, s)) && (fv(ratio) == FV::Fin(0real) ==> r == min),
        min == 0 && 0 < max <= 0x20_0000_0000_0000 && f_le(f_zero(), ratio) && f_lt(ratio, f_one()) ==> r < max,
@at start
    proof {
        if max <= 0x20_0000_0000_0000 && in_unit(ratio) {
            whole_from_minimum(min as int, max as int, ratio, ratio);
            assert forall|s: F64| in_unit(s) && f_le(ratio, s) implies lerp_whole(min as int, max as int, ratio) <= #[trigger] lerp_whole(min as int, max as int, s) by { whole_from_minimum(min as int, max as int, ratio, s); }
        }
        if min == 0 && 0 < max <= 0x20_0000_0000_0000 && f_le(f_zero(), ratio) && f_lt(ratio, f_one()) { whole_below_maximum(max as int, ratio); }
    }
