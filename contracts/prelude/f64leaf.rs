// Facts about IEEE 754 double precision, each checked over the whole domain with Kani (/verif/kani, harness of the same name).
pub mod vx_leaf {
    use vstd::prelude::*;
    use super::vx_fl::*;
    /// floor is exact
    pub broadcast axiom fn leaf_floor(a: F64) requires f_finite(a) ensures fv(#[trigger] f_floor(a)) == FV::Fin(rv(a).floor() as real);
    /// a share of n below one, rounded down, is below n
    pub broadcast axiom fn leaf_share_below(n: int, r: F64) requires 0 < n <= 0x20_0000_0000_0000, f_le(f_lit(0, 1), r), f_lt(r, f_lit(1, 1))
        ensures f_finite(#[trigger] f_mul(f_of(n), r)), 0real <= rv(f_mul(f_of(n), r)) < n as real;
    /// adding to zero changes nothing
    pub broadcast axiom fn leaf_zero_add(x: F64) ensures fv(#[trigger] f_add(f_of(0), x)) == fv(x);
}
//%broadcast vx_leaf::leaf_zero_add
//%broadcast vx_leaf::leaf_floor
//%broadcast vx_leaf::leaf_share_below
