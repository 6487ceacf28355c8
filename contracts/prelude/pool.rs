// object_pool: pulling from a pool gives some value of its type
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Pool<T> { v: core::marker::PhantomData<T> }
pub mod rayon { #[verifier::external_body] pub fn current_num_threads() -> usize { unimplemented!() } }
impl<T> Pool<T> {
    #[verifier::external_body] pub fn new<F: Fn() -> T>(size: usize, f: F) -> Pool<T> { unimplemented!() }
    #[verifier::external_body] pub fn vx_pull(&self) -> (r: Box<T>) { unimplemented!() } }
