// random floating-point numbers and repeated draws
pub uninterp spec fn unit_f(x: FUnit) -> F64;
pub trait VxGenF64: Rng {
    /// rng.gen::<f64>(): a number from [0, 1)
    fn vx_gen_f64(&mut self) -> (r: F64)
        ensures exists|x: FUnit| r == #[trigger] unit_f(x) && final(self).log() == old(self).log().push(Draw::Unit { x }), vle(FV::Fin(0real), fv(r)), vlt(fv(r), FV::Fin(1real));
}
impl<R: Rng> VxGenF64 for R { #[verifier::external_body] fn vx_gen_f64(&mut self) -> (r: F64) { unimplemented!() } }
/// rand::distributions::Uniform over whole numbers
pub struct Uniform { pub lo: usize, pub hi: usize }
impl Uniform { pub fn new(lo: usize, hi: usize) -> (r: Uniform) requires lo < hi ensures r.lo == lo, r.hi == hi { Uniform { lo, hi } } }
pub open spec fn below_draws(lo: int, hi: int, v: Seq<usize>) -> Seq<Draw> { Seq::new(v.len(), |i: int| Draw::Below { lo, hi, v: v[i] as int }) }
pub trait VxSampleTake: Rng {
    fn vx_sample_take(&mut self, d: Uniform, n: usize) -> (r: It<usize>)
        requires d.lo < d.hi,
        ensures r@.len() == n, forall|i: int| 0 <= i < n ==> d.lo <= #[trigger] r@[i] < d.hi, final(self).log() == old(self).log() + below_draws(d.lo as int, d.hi as int, r@);
}
impl<R: Rng> VxSampleTake for R { #[verifier::external_body] fn vx_sample_take(&mut self, d: Uniform, n: usize) -> (r: It<usize>) { unimplemented!() /*%is let mut r: Vec<usize> = Vec::new(); let mut i: usize = 0; let ghost l = self.log();
        while i < n invariant i <= n, r@.len() == i, d.lo < d.hi, forall|j: int| 0 <= j < i ==> d.lo <= #[trigger] r@[j] < d.hi, self.log() == l + below_draws(d.lo as int, d.hi as int, r@) decreases n - i {
            let ghost r0 = r@;
            r.push(self.gen_range(d.lo..d.hi)); i += 1;
            assert(self.log() =~= l + below_draws(d.lo as int, d.hi as int, r@));
        }
        It { v: r } %*/ } }
/// r is a sum of the numbers s, in whatever order and grouping the thread pool adds them
pub uninterp spec fn is_sum(s: Seq<F64>, r: F64) -> bool;
impl It<F64> { #[verifier::external_body] pub fn sum(self) -> (r: F64) ensures is_sum(self@, r) { unimplemented!() } }
