// Rng::sample_iter(Standard): an endless stream of values, of which take(n) keeps the first n.
pub struct Standard;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxStream<T> { v: core::marker::PhantomData<T> }
impl<T> VxStream<T> { #[verifier::external_body] pub fn take(self, n: usize) -> (r: It<T>) ensures r@.len() == n { unimplemented!() } }
pub trait VxSampleIter: Rng { #[verifier::external_body] fn sample_iter<T>(&mut self, d: Standard) -> (r: VxStream<T>) { unimplemented!() } }
impl<R: Rng> VxSampleIter for R {}
