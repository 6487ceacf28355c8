// Floating-point arithmetic read as exact arithmetic on reals (finite operands): rounding is ignored. This is what
// "up to floating-point rounding" leaves to show.
pub mod vx_freal {
    use vstd::prelude::*;
    use super::vx_fl::*;
    pub broadcast axiom fn real_add(a: F64, b: F64) requires f_finite(a), f_finite(b) ensures fv(#[trigger] f_add(a, b)) == FV::Fin(rv(a) + rv(b));
    pub broadcast axiom fn real_sub(a: F64, b: F64) requires f_finite(a), f_finite(b) ensures fv(#[trigger] f_sub(a, b)) == FV::Fin(rv(a) - rv(b));
    pub broadcast axiom fn real_mul(a: F64, b: F64) requires f_finite(a), f_finite(b) ensures fv(#[trigger] f_mul(a, b)) == FV::Fin(rv(a) * rv(b));
    pub broadcast axiom fn real_div(a: F64, b: F64) requires f_finite(a), f_finite(b), rv(b) != 0real ensures fv(#[trigger] f_div(a, b)) == FV::Fin(rv(a) / rv(b));
    pub broadcast axiom fn real_of(n: int) ensures fv(#[trigger] f_of(n)) == FV::Fin(n as real);
    pub broadcast axiom fn real_sqrt(a: F64) requires f_finite(a), rv(a) >= 0real ensures f_finite(#[trigger] f_sqrt(a)), rv(f_sqrt(a)) >= 0real, rv(f_sqrt(a)) * rv(f_sqrt(a)) == rv(a);
}
//%broadcast vx_freal::real_add
//%broadcast vx_freal::real_sub
//%broadcast vx_freal::real_mul
//%broadcast vx_freal::real_div
//%broadcast vx_freal::real_of
//%broadcast vx_freal::real_sqrt
