%%raw
/// what interpolate_f64 computes
pub open spec fn lerp(lo: F64, hi: F64, t: F64) -> F64 { f_add(lo, f_mul(f_sub(hi, lo), t)) }
pub open spec fn in_unit(x: F64) -> bool { f_le(f_zero(), x) && f_le(x, f_one()) }
/// finite bounds whose difference does not overflow
pub open spec fn bounds(lo: F64, hi: F64) -> bool { f_finite(lo) && f_finite(hi) && f_finite(f_sub(hi, lo)) }
pub open spec fn rmax(a: real, b: real) -> real { if a < b { b } else { a } }
pub open spec fn slack(a: real, b: real) -> real { 4real * unit_roundoff() * rmax(rabs(a), rabs(b)) + 3real * tiny() }
pub proof fn lemma_scale(d: real, s: real, t: real)
    requires 0real <= s <= t <= 1real,
    ensures d >= 0real ==> 0real <= d * s <= d * t <= d, d <= 0real ==> d <= d * t <= d * s <= 0real,
{
    assert(d >= 0real ==> 0real <= d * s && d * s <= d * t && d * t <= d) by(nonlinear_arith) requires 0real <= s <= t <= 1real;
    assert(d <= 0real ==> d <= d * t && d * t <= d * s && d * s <= 0real) by(nonlinear_arith) requires 0real <= s <= t <= 1real;
}
/// the product with a ratio is finite, monotone in the ratio, and between zero and the difference
pub proof fn lemma_part(d: F64, s: F64, t: F64)
    requires f_finite(d), in_unit(s), in_unit(t), f_le(s, t),
    ensures f_finite(f_mul(d, s)), f_finite(f_mul(d, t)), rv(d) >= 0real ==> 0real <= rv(f_mul(d, s)) <= rv(f_mul(d, t)) <= rv(d), rv(d) <= 0real ==> rv(d) <= rv(f_mul(d, t)) <= rv(f_mul(d, s)) <= 0real,
{
    literals();
    mul_rounds(d, s); mul_rounds(d, t); rnd_exact(d); rnd_exact(f_zero());
    lemma_scale(rv(d), rv(s), rv(t));
    if rv(d) >= 0real { rnd_monotone(0real, rv(d) * rv(s)); rnd_monotone(rv(d) * rv(s), rv(d) * rv(t)); rnd_monotone(rv(d) * rv(t), rv(d)); }
    else { rnd_monotone(rv(d) * rv(s), 0real); rnd_monotone(rv(d) * rv(t), rv(d) * rv(s)); rnd_monotone(rv(d), rv(d) * rv(t)); }
}
pub proof fn lemma_difference(lo: F64, hi: F64)
    requires bounds(lo, hi),
    ensures f_le(lo, hi) ==> rv(f_sub(hi, lo)) >= 0real, f_le(hi, lo) ==> rv(f_sub(hi, lo)) <= 0real,
{
    literals(); rnd_exact(f_zero()); sub_rounds(hi, lo);
    if f_le(lo, hi) { rnd_monotone(0real, rv(hi) - rv(lo)); } else { rnd_monotone(rv(hi) - rv(lo), 0real); }
}
/// exactly the minimum at ratio zero
pub proof fn lerp_at_zero(lo: F64, hi: F64, t: F64)
    requires bounds(lo, hi), fv(t) == FV::Fin(0real),
    ensures fv(lerp(lo, hi, t)) == fv(lo),
{
    literals();
    let d = f_sub(hi, lo);
    mul_rounds(d, t); rnd_exact(f_zero());
    assert(rv(d) * rv(t) == 0real) by(nonlinear_arith) requires rv(t) == 0real;
    add_rounds(lo, f_mul(d, t)); rnd_exact(lo);
}
/// never NaN; monotone in the ratio, and from the minimum on: rising when the maximum is not below the minimum, else falling
pub proof fn lerp_monotone(lo: F64, hi: F64, s: F64, t: F64)
    requires bounds(lo, hi), in_unit(s), in_unit(t), f_le(s, t),
    ensures f_le(lo, hi) ==> f_le(lo, lerp(lo, hi, s)) && f_le(lerp(lo, hi, s), lerp(lo, hi, t)), f_le(hi, lo) ==> f_le(lerp(lo, hi, s), lo) && f_le(lerp(lo, hi, t), lerp(lo, hi, s)),
        !f_nan(lerp(lo, hi, s)), !f_nan(lerp(lo, hi, t)),
{
    let d = f_sub(hi, lo);
    lemma_part(d, s, t); lemma_difference(lo, hi);
    let (x, y) = (f_mul(d, s), f_mul(d, t));
    add_rounds(lo, x); add_rounds(lo, y); rnd_exact(lo);
    if f_le(lo, hi) { rnd_monotone(rv(lo), rv(lo) + rv(x)); rnd_monotone(rv(lo) + rv(x), rv(lo) + rv(y)); }
    else { rnd_monotone(rv(lo) + rv(x), rv(lo)); rnd_monotone(rv(lo) + rv(y), rv(lo) + rv(x)); }
    if f_le(hi, lo) { rnd_monotone(rv(lo) + rv(x), rv(lo)); rnd_monotone(rv(lo) + rv(y), rv(lo) + rv(x)); }
}
/// the maximum at ratio one, up to rounding
pub proof fn lerp_at_one(lo: F64, hi: F64, t: F64)
    requires bounds(lo, hi), fv(t) == FV::Fin(1real),
    ensures fv(lerp(lo, hi, t)) is Fin ==> rabs(rv(lerp(lo, hi, t)) - rv(hi)) <= slack(rv(lo), rv(hi)),
{
    literals();
    let d = f_sub(hi, lo); let m = f_mul(d, t);
    assert(rv(d) * rv(t) == rv(d)) by(nonlinear_arith) requires rv(t) == 1real;
    mul_rounds(d, t); rnd_exact(d); sub_rounds(hi, lo); add_rounds(lo, m);
    rnd_error(rv(hi) - rv(lo)); rnd_error(rv(lo) + rv(m));
    let (a, b, x, y) = (rv(lo), rv(hi), rv(m), rv(lerp(lo, hi, t))); let u = unit_roundoff(); let big = rmax(rabs(a), rabs(b));
    if fv(lerp(lo, hi, t)) is Fin {
        let e = rabs(b - a) * u + tiny();
        assert(rabs(x - (b - a)) <= e);
        assert(rabs(a + x) <= big + e);
        assert(rabs(b - a) <= 2real * big);
        let bu = big * u;
        assert(rabs(b - a) * u <= 2real * bu && bu >= 0real) by(nonlinear_arith) requires rabs(b - a) <= 2real * big, big >= 0real, u == 1real / 0x20_0000_0000_0000real, bu == big * u;
        let w = big + 2real * bu + tiny();
        assert(rabs(a + x) * u <= w * u) by(nonlinear_arith) requires rabs(a + x) <= w, u == 1real / 0x20_0000_0000_0000real;
        assert(w * u == bu + (2real * bu) * u + tiny() * u) by(nonlinear_arith) requires w == big + 2real * bu + tiny(), bu == big * u;
        assert((2real * bu) * u <= bu && tiny() * u <= tiny()) by(nonlinear_arith) requires u == 1real / 0x20_0000_0000_0000real, bu >= 0real, tiny() > 0real;
        assert(slack(a, b) == 4real * bu + 3real * tiny()) by(nonlinear_arith) requires slack(a, b) == 4real * u * big + 3real * tiny(), bu == big * u;
    }
}
