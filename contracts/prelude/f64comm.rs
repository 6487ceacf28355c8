// IEEE 754: addition and multiplication are commutative (NaN payloads are not distinguished)
pub mod vx_comm {
    use vstd::prelude::*;
    use super::vx_fl::*;
    pub broadcast axiom fn f_add_commutes(a: F64, b: F64) ensures #[trigger] f_add(a, b) == f_add(b, a);
    pub broadcast axiom fn f_mul_commutes(a: F64, b: F64) ensures #[trigger] f_mul(a, b) == f_mul(b, a);
}
//%broadcast vx_comm::f_add_commutes
//%broadcast vx_comm::f_mul_commutes
