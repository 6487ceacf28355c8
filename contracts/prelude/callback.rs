// A callback closure. Its ghost log records every call: what it was called with and what it answered.
pub trait VxCallback<T> {
    spec fn calls(&self) -> Seq<(T, bool)>;
    fn vx_call(&mut self, x: &T) -> (r: bool) ensures final(self).calls() == old(self).calls().push((*x, r));
}
