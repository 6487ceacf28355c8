// Floating point. F64 stands for f64; fv(x) is its value. Comparisons are exact, as IEEE 754 defines them; the arithmetic
// operations are named (f_add, ...) and left open here, so that what is proved holds for any rounding.
pub mod vx_fl {
use vstd::prelude::*;
pub enum FV { NaN, PInf, NInf, Fin(real) }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct F64 { v: f64 }
pub uninterp spec fn fv(x: F64) -> FV;
pub uninterp spec fn f_add(a: F64, b: F64) -> F64;
pub uninterp spec fn f_sub(a: F64, b: F64) -> F64;
pub uninterp spec fn f_mul(a: F64, b: F64) -> F64;
pub uninterp spec fn f_div(a: F64, b: F64) -> F64;
pub uninterp spec fn f_neg(a: F64) -> F64;
pub uninterp spec fn f_lit(num: int, den: int) -> F64;
/// n as f64
pub uninterp spec fn f_of(n: int) -> F64;
pub uninterp spec fn f_sqrt(a: F64) -> F64;
pub uninterp spec fn f_exp(a: F64) -> F64;
pub uninterp spec fn f_floor(a: F64) -> F64;
/// operations the code under contract does not use today: named, and otherwise unknown
pub uninterp spec fn f_un(op: int, a: F64) -> F64;
pub uninterp spec fn f_bin(op: int, a: F64, b: F64) -> F64;
pub uninterp spec fn f_powi(a: F64, n: int) -> F64;
pub uninterp spec fn f_fma(a: F64, b: F64, c: F64) -> F64;
pub uninterp spec fn f_bits(a: F64) -> u64;
pub uninterp spec fn f_single(a: F64) -> F32;
pub uninterp spec fn f_double(a: F32) -> F64;
pub uninterp spec fn s_of(n: int) -> F32;
pub uninterp spec fn s_op(op: int, a: F32, b: F32) -> F32;
pub open spec fn v_abs(a: FV) -> FV { match a { FV::NInf => FV::PInf, FV::Fin(x) => if x < 0real { FV::Fin(-x) } else { a }, _ => a } }
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct F32 { v: f32 }
pub open spec fn vlt(a: FV, b: FV) -> bool {
    match (a, b) {
        (FV::NaN, _) => false, (_, FV::NaN) => false,
        (FV::NInf, FV::NInf) => false, (FV::NInf, _) => true, (_, FV::NInf) => false,
        (FV::PInf, _) => false, (_, FV::PInf) => true,
        (FV::Fin(x), FV::Fin(y)) => x < y,
    }
}
pub open spec fn veq(a: FV, b: FV) -> bool { a == b && a != FV::NaN }
pub open spec fn vle(a: FV, b: FV) -> bool { vlt(a, b) || veq(a, b) }
pub open spec fn f_lt(a: F64, b: F64) -> bool { vlt(fv(a), fv(b)) }
pub open spec fn f_le(a: F64, b: F64) -> bool { vle(fv(a), fv(b)) }
pub open spec fn f_eq(a: F64, b: F64) -> bool { veq(fv(a), fv(b)) }
pub open spec fn f_nan(a: F64) -> bool { fv(a) == FV::NaN }
pub open spec fn f_finite(a: F64) -> bool { fv(a) is Fin }
pub open spec fn f_zero() -> F64 { f_lit(0, 1) }
pub open spec fn f_one() -> F64 { f_lit(1, 1) }
pub open spec fn f_cmp(a: F64, b: F64) -> Option<core::cmp::Ordering> {
    if f_lt(a, b) { Some(core::cmp::Ordering::Less) } else if f_eq(a, b) { Some(core::cmp::Ordering::Equal) } else if f_lt(b, a) { Some(core::cmp::Ordering::Greater) } else { None }
}
/// the value of a finite number
pub open spec fn rv(x: F64) -> real { match fv(x) { FV::Fin(v) => v, _ => 0real } }
}
pub use vx_fl::*;
impl AddSpecImpl for F64 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: F64) -> bool { true } open spec fn add_spec(self, o: F64) -> F64 { f_add(self, o) } }
impl Add for F64 { type Output = F64; #[verifier::external_body] fn add(self, o: F64) -> F64 { unimplemented!() } }
impl SubSpecImpl for F64 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F64) -> bool { true } open spec fn sub_spec(self, o: F64) -> F64 { f_sub(self, o) } }
impl Sub for F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: F64) -> F64 { unimplemented!() } }
impl MulSpecImpl for F64 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F64) -> bool { true } open spec fn mul_spec(self, o: F64) -> F64 { f_mul(self, o) } }
impl Mul for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> F64 { unimplemented!() } }
impl DivSpecImpl for F64 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F64) -> bool { true } open spec fn div_spec(self, o: F64) -> F64 { f_div(self, o) } }
impl Div for F64 { type Output = F64; #[verifier::external_body] fn div(self, o: F64) -> F64 { unimplemented!() } }
impl NegSpecImpl for F64 { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F64 { f_neg(self) } }
impl Neg for F64 { type Output = F64; #[verifier::external_body] fn neg(self) -> F64 { unimplemented!() } }
impl PartialEqSpecImpl for F64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F64) -> bool { f_eq(*self, *o) } }
impl PartialEq for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for F64 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F64) -> Option<core::cmp::Ordering> { f_cmp(*self, *o) } }
impl PartialOrd for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl F64 {
    #[verifier::external_body] pub fn sqrt(self) -> (r: F64) ensures r == f_sqrt(self) { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: F64) ensures r == f_exp(self) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: F64) ensures r == f_floor(self) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: F64) ensures fv(r) == v_abs(fv(self)) { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: F64) ensures r == f_un(1, self) { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: F64) ensures r == f_un(2, self) { unimplemented!() }
    #[verifier::external_body] pub fn trunc(self) -> (r: F64) ensures r == f_un(3, self) { unimplemented!() }
    #[verifier::external_body] pub fn fract(self) -> (r: F64) ensures r == f_un(4, self) { unimplemented!() }
    #[verifier::external_body] pub fn ln(self) -> (r: F64) ensures r == f_un(5, self) { unimplemented!() }
    #[verifier::external_body] pub fn log2(self) -> (r: F64) ensures r == f_un(6, self) { unimplemented!() }
    #[verifier::external_body] pub fn log10(self) -> (r: F64) ensures r == f_un(7, self) { unimplemented!() }
    #[verifier::external_body] pub fn exp2(self) -> (r: F64) ensures r == f_un(8, self) { unimplemented!() }
    #[verifier::external_body] pub fn signum(self) -> (r: F64) ensures r == f_un(9, self) { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: F64) ensures r == f_div(f_lit(1, 1), self) { unimplemented!() }
    #[verifier::external_body] pub fn exp_m1(self) -> (r: F64) ensures r == f_un(10, self) { unimplemented!() }
    #[verifier::external_body] pub fn cbrt(self) -> (r: F64) ensures r == f_un(11, self) { unimplemented!() }
    #[verifier::external_body] pub fn tanh(self) -> (r: F64) ensures r == f_un(12, self) { unimplemented!() }
    #[verifier::external_body] pub fn powf(self, o: F64) -> (r: F64) ensures r == f_bin(1, self, o) { unimplemented!() }
    #[verifier::external_body] pub fn copysign(self, o: F64) -> (r: F64) ensures r == f_bin(2, self, o) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: F64) ensures r == f_powi(self, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn mul_add(self, a: F64, b: F64) -> (r: F64) ensures r == f_fma(self, a, b) { unimplemented!() }
    #[verifier::external_body] pub fn clamp(self, a: F64, b: F64) -> (r: F64) requires f_le(a, b) ensures fv(r) == fv(if f_lt(self, a) { a } else if f_lt(b, self) { b } else { self }) { unimplemented!() }
    #[verifier::external_body] pub fn to_bits(self) -> (r: u64) ensures r == f_bits(self) { unimplemented!() }
    #[verifier::external_body] pub fn total_cmp(&self, o: &F64) -> (r: core::cmp::Ordering)
        ensures f_lt(*self, *o) ==> r == core::cmp::Ordering::Less, f_lt(*o, *self) ==> r == core::cmp::Ordering::Greater { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_negative(self) -> (r: bool) ensures f_lt(self, f_lit(0, 1)) ==> r, f_lt(f_lit(0, 1), self) ==> !r { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_positive(self) -> (r: bool) ensures f_lt(self, f_lit(0, 1)) ==> !r, f_lt(f_lit(0, 1), self) ==> r { unimplemented!() }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == f_finite(self) { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == f_nan(self) { unimplemented!() }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == (!f_nan(self) && !f_finite(self)) { unimplemented!() }
}
/// f64::max and f64::min ignore a NaN
pub open spec fn f_max(a: F64, b: F64) -> F64 { if f_nan(a) { b } else if f_nan(b) { a } else if f_lt(a, b) { b } else { a } }
pub open spec fn f_min(a: F64, b: F64) -> F64 { if f_nan(a) { b } else if f_nan(b) { a } else if f_lt(b, a) { b } else { a } }
// which of two equal numbers (0.0 and -0.0) max and min return is left open
pub trait VxFMinMax: Sized {
    fn vx_max(self, o: Self) -> (r: Self); fn vx_min(self, o: Self) -> (r: Self);
}
impl VxFMinMax for F64 {
    #[verifier::external_body] fn vx_max(self, o: F64) -> (r: F64) ensures fv(r) == fv(f_max(self, o)), r == self || r == o { unimplemented!() }
    #[verifier::external_body] fn vx_min(self, o: F64) -> (r: F64) ensures fv(r) == fv(f_min(self, o)), r == self || r == o { unimplemented!() }
}
pub trait VxAsF64: Sized { spec fn vx_f(self) -> F64; }
impl VxAsF64 for usize { open spec fn vx_f(self) -> F64 { f_of(self as int) } }
impl VxAsF64 for u8 { open spec fn vx_f(self) -> F64 { f_of(self as int) } }
impl VxAsF64 for u16 { open spec fn vx_f(self) -> F64 { f_of(self as int) } }
impl VxAsF64 for u32 { open spec fn vx_f(self) -> F64 { f_of(self as int) } }
impl VxAsF64 for u64 { open spec fn vx_f(self) -> F64 { f_of(self as int) } }
impl VxAsF64 for u128 { open spec fn vx_f(self) -> F64 { f_of(self as int) } }
impl VxAsF64 for i32 { open spec fn vx_f(self) -> F64 { f_of(self as int) } }
impl VxAsF64 for i64 { open spec fn vx_f(self) -> F64 { f_of(self as int) } }
impl VxAsF64 for isize { open spec fn vx_f(self) -> F64 { f_of(self as int) } }
impl VxAsF64 for F64 { open spec fn vx_f(self) -> F64 { self } }
#[verifier::external_body]
pub fn vx_as_f64<T: VxAsF64>(x: T) -> (r: F64) ensures r == x.vx_f() { unimplemented!() }
/// x as usize: truncates, saturates, and is 0 for NaN
pub open spec fn v_trunc(v: FV) -> int {
    match v { FV::NaN => 0, FV::NInf => 0, FV::PInf => usize::MAX as int,
        FV::Fin(x) => if x <= 0real { 0 } else if x.floor() >= usize::MAX { usize::MAX as int } else { x.floor() } }
}
impl VxAsUsizeSpec for F64 { open spec fn vx_as_usize_spec(&self) -> usize { v_trunc(fv(*self)) as usize } }
impl VxAsUsize for F64 { #[verifier::external_body] fn vx_to_usize(self) -> (r: usize) { unimplemented!() } }
pub trait VxFRangeContains { spec fn vx_fin(&self, x: F64) -> bool; fn vx_contains(&self, x: &F64) -> (r: bool) ensures r == self.vx_fin(*x); }
impl VxFRangeContains for Range<F64> { open spec fn vx_fin(&self, x: F64) -> bool { f_le(self.start, x) && f_lt(x, self.end) } #[verifier::external_body] fn vx_contains(&self, x: &F64) -> (r: bool) { unimplemented!() } }
impl VxFRangeContains for RangeIncl<F64> { open spec fn vx_fin(&self, x: F64) -> bool { f_le(self.start, x) && f_le(x, self.end) } #[verifier::external_body] fn vx_contains(&self, x: &F64) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub fn vx_f64_infinity() -> (r: F64) ensures fv(r) == FV::PInf { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_neg_infinity() -> (r: F64) ensures fv(r) == FV::NInf { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_nan() -> (r: F64) ensures fv(r) == FV::NaN { unimplemented!() }
pub uninterp spec fn f_const(k: int) -> F64;
#[verifier::external_body] pub fn vx_f64_epsilon() -> (r: F64) ensures r == f_const(1), fv(r) == FV::Fin(1real / 0x10_0000_0000_0000real) { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_max() -> (r: F64) ensures r == f_const(2), f_finite(r), rv(r) > 1real { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_min() -> (r: F64) ensures r == f_const(3), f_finite(r), rv(r) < -1real { unimplemented!() }
#[verifier::external_body] pub fn vx_f64_min_positive() -> (r: F64) ensures r == f_const(4), f_finite(r), 0real < rv(r) < 1real { unimplemented!() }
// single precision: nothing is known of its rounding
impl AddSpecImpl for F32 { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: F32) -> bool { true } open spec fn add_spec(self, o: F32) -> F32 { s_op(1, self, o) } }
impl Add for F32 { type Output = F32; #[verifier::external_body] fn add(self, o: F32) -> F32 { unimplemented!() } }
impl SubSpecImpl for F32 { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: F32) -> bool { true } open spec fn sub_spec(self, o: F32) -> F32 { s_op(2, self, o) } }
impl Sub for F32 { type Output = F32; #[verifier::external_body] fn sub(self, o: F32) -> F32 { unimplemented!() } }
impl MulSpecImpl for F32 { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: F32) -> bool { true } open spec fn mul_spec(self, o: F32) -> F32 { s_op(3, self, o) } }
impl Mul for F32 { type Output = F32; #[verifier::external_body] fn mul(self, o: F32) -> F32 { unimplemented!() } }
impl DivSpecImpl for F32 { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: F32) -> bool { true } open spec fn div_spec(self, o: F32) -> F32 { s_op(4, self, o) } }
impl Div for F32 { type Output = F32; #[verifier::external_body] fn div(self, o: F32) -> F32 { unimplemented!() } }
impl F32 {
    #[verifier::external_body] pub fn sqrt(self) -> (r: F32) ensures r == s_op(5, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: F32) ensures r == s_op(6, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: F32) ensures r == s_op(7, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: F32) ensures r == s_op(8, self, self) { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: F32) ensures r == s_op(9, self, self) { unimplemented!() }
}
pub uninterp spec fn s_lit(code: int) -> F32;
#[verifier::external_body] pub fn vx_f32_lit(code: u64) -> (r: F32) ensures r == s_lit(code as int) { unimplemented!() }
impl VxAsF64 for F32 { open spec fn vx_f(self) -> F64 { f_double(self) } }
pub trait VxAsF32: Sized { spec fn vx_s(self) -> F32; }
impl VxAsF32 for F64 { open spec fn vx_s(self) -> F32 { f_single(self) } }
impl VxAsF32 for F32 { open spec fn vx_s(self) -> F32 { self } }
impl VxAsF32 for usize { open spec fn vx_s(self) -> F32 { s_of(self as int) } }
impl VxAsF32 for u32 { open spec fn vx_s(self) -> F32 { s_of(self as int) } }
impl VxAsF32 for u64 { open spec fn vx_s(self) -> F32 { s_of(self as int) } }
impl VxAsF32 for i32 { open spec fn vx_s(self) -> F32 { s_of(self as int) } }
#[verifier::external_body]
pub fn vx_as_f32<T: VxAsF32>(x: T) -> (r: F32) ensures r == x.vx_s() { unimplemented!() }
pub uninterp spec fn s_trunc(x: F32) -> usize;
impl VxAsUsizeSpec for F32 { open spec fn vx_as_usize_spec(&self) -> usize { s_trunc(*self) } }
impl VxAsUsize for F32 { #[verifier::external_body] fn vx_to_usize(self) -> (r: usize) { unimplemented!() } }
/// x as u32 and so on: truncates, saturates, and is 0 for NaN
pub open spec fn v_trunc_to(v: FV, lo: int, hi: int) -> int {
    match v { FV::NaN => 0, FV::NInf => lo, FV::PInf => hi,
        FV::Fin(x) => { let t = if x < 0real { -((-x).floor()) } else { x.floor() }; if t < lo { lo } else if t > hi { hi } else { t } } }
}
pub trait VxFloatCast: Sized { spec fn vx_fc(self) -> FV; }
impl VxFloatCast for F64 { open spec fn vx_fc(self) -> FV { fv(self) } }
impl VxFloatCast for F32 { open spec fn vx_fc(self) -> FV { fv(f_double(self)) } }
#[verifier::external_body] pub fn vx_float_as_u8<T: VxFloatCast>(x: T) -> (r: u8) ensures r == v_trunc_to(x.vx_fc(), 0, 255) { unimplemented!() }
#[verifier::external_body] pub fn vx_float_as_u16<T: VxFloatCast>(x: T) -> (r: u16) ensures r == v_trunc_to(x.vx_fc(), 0, 65535) { unimplemented!() }
#[verifier::external_body] pub fn vx_float_as_u32<T: VxFloatCast>(x: T) -> (r: u32) ensures r == v_trunc_to(x.vx_fc(), 0, u32::MAX as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_float_as_u64<T: VxFloatCast>(x: T) -> (r: u64) ensures r == v_trunc_to(x.vx_fc(), 0, u64::MAX as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_float_as_i32<T: VxFloatCast>(x: T) -> (r: i32) ensures r == v_trunc_to(x.vx_fc(), i32::MIN as int, i32::MAX as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_float_as_i64<T: VxFloatCast>(x: T) -> (r: i64) ensures r == v_trunc_to(x.vx_fc(), i64::MIN as int, i64::MAX as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_float_as_isize<T: VxFloatCast>(x: T) -> (r: isize) ensures r == v_trunc_to(x.vx_fc(), isize::MIN as int, isize::MAX as int) { unimplemented!() }
impl VxClampSpec for F64 {
    open spec fn vx_clamp_req(self, a: F64, b: F64) -> bool { f_le(a, b) }
    open spec fn vx_clamped(self, a: F64, b: F64, r: F64) -> bool { fv(r) == fv(if f_lt(self, a) { a } else if f_lt(b, self) { b } else { self }) }
}
impl VxClamp for F64 { #[verifier::external_body] fn vx_clamp(self, a: F64, b: F64) -> (r: F64) { unimplemented!() } }
