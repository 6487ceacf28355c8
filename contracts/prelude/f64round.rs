// IEEE 754: for finite operands, +, - and * give the real result rounded. rnd is that rounding: monotone, the identity on
// values a double represents, with a relative error of at most 2^-53 unless the result is subnormal (or overflows).
pub mod vx_round {
    use vstd::prelude::*;
    use super::vx_fl::*;
    pub uninterp spec fn rnd(x: real) -> FV;
    /// the smallest positive double
    pub uninterp spec fn tiny() -> real;
    pub open spec fn unit_roundoff() -> real { 1real / 0x20_0000_0000_0000real }
    pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
    pub axiom fn rnd_monotone(x: real, y: real) requires x <= y ensures vle(rnd(x), rnd(y));
    pub axiom fn rnd_exact(a: F64) requires f_finite(a) ensures rnd(rv(a)) == fv(a);
    pub axiom fn rnd_error(x: real) ensures tiny() > 0real, rnd(x) is Fin ==> rabs(rnd(x)->Fin_0 - x) <= rabs(x) * unit_roundoff() + tiny();
    pub axiom fn add_rounds(a: F64, b: F64) requires f_finite(a), f_finite(b) ensures fv(f_add(a, b)) == rnd(rv(a) + rv(b));
    pub axiom fn sub_rounds(a: F64, b: F64) requires f_finite(a), f_finite(b) ensures fv(f_sub(a, b)) == rnd(rv(a) - rv(b));
    pub axiom fn mul_rounds(a: F64, b: F64) requires f_finite(a), f_finite(b) ensures fv(f_mul(a, b)) == rnd(rv(a) * rv(b));
    pub axiom fn of_rounds(n: int) requires 0 <= n <= usize::MAX ensures fv(f_of(n)) == rnd(n as real);
    pub axiom fn literals() ensures fv(f_zero()) == FV::Fin(0real), fv(f_one()) == FV::Fin(1real);
    /// negation is exact
    pub axiom fn neg_exact(a: F64) requires f_finite(a) ensures fv(f_neg(a)) == FV::Fin(-rv(a));
    /// zero divided by anything is zero or NaN (Kani: leaf_zero_div)
    pub axiom fn leaf_zero_div(a: F64, b: F64) requires fv(a) == FV::Fin(0real) ensures f_nan(f_div(a, b)) || fv(f_div(a, b)) == FV::Fin(0real);
    /// whole numbers up to 2^53 are exact (Kani: leaf_whole)
    pub axiom fn leaf_whole(n: int) requires 0 <= n <= 0x20_0000_0000_0000 ensures fv(f_of(n)) == FV::Fin(n as real);
    /// Kani: leaf_one_minus
    pub axiom fn leaf_one_minus(a: F64) requires f_le(f_zero(), a), f_le(a, f_one()) ensures fv(f_add(a, f_sub(f_one(), a))) == FV::Fin(1real);
}
pub use vx_round::*;
