// Random number generation. The ghost log of a generator records every draw: the range it was taken from and the value.
// Trusted: each draw is uniform over its range and independent of the earlier ones (rand's contract); what the code computes
// from its draws is proved.
pub enum Draw {
    /// an integer from lo..hi
    Below { lo: int, hi: int, v: int },
    /// a number from [0, 1), given by its identity
    Unit { x: FUnit },
    /// a shuffle of a slice: position i received the element of position p[i]
    Shuffle { p: Seq<int> },
    /// one of the n elements of a slice
    Pick { n: int, v: int },
}
#[verifier::external_body]
pub struct FUnit { v: f64 }
pub trait VxDrawRange { spec fn lo(&self) -> int; spec fn hi(&self) -> int; }
impl VxDrawRange for Range<usize> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self) -> int { self.end as int } }
impl VxDrawRange for RangeIncl<usize> { open spec fn lo(&self) -> int { self.start as int } open spec fn hi(&self) -> int { self.end + 1 } }
pub trait Rng: Sized {
    spec fn log(&self) -> Seq<Draw>;
    fn gen_range<D: VxDrawRange>(&mut self, d: D) -> (r: usize)
        requires d.lo() < d.hi(),
        ensures d.lo() <= r < d.hi(), final(self).log() == old(self).log().push(Draw::Below { lo: d.lo(), hi: d.hi(), v: r as int });
    /// gen_range in a function verified for invalid input: an empty range panics
    fn vx_gen_range_or_panic<D: VxDrawRange>(&mut self, d: D) -> (r: usize)
        ensures d.lo() < d.hi(), d.lo() <= r < d.hi();
    fn vx_gen_unit(&mut self) -> (r: FUnit)
        ensures final(self).log() == old(self).log().push(Draw::Unit { x: r });
}
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool { p.len() == n && p.no_duplicates() && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n }
pub open spec fn permuted<T>(s: Seq<T>, p: Seq<int>) -> Seq<T> { Seq::new(s.len(), |i: int| s[p[i]]) }
pub trait VxShuffle<T> { spec fn vxf(&self) -> Seq<T>;
    fn vx_shuffle<R: Rng>(&mut self, rng: &mut R)
        ensures exists|p: Seq<int>| #[trigger] is_perm(p, old(self).vxf().len() as int) && final(self).vxf() == permuted(old(self).vxf(), p)
            && final(rng).log() == old(rng).log().push(Draw::Shuffle { p });
    /// SliceRandom::choose
    fn vx_choose<R: Rng>(&self, rng: &mut R) -> (r: Option<&T>)
        ensures match r {
            Some(x) => self.vxf().len() > 0 && exists|v: int| 0 <= v < self.vxf().len() && *x == #[trigger] self.vxf()[v] && final(rng).log() == old(rng).log().push(Draw::Pick { n: self.vxf().len() as int, v }),
            None => self.vxf().len() == 0 && final(rng).log() == old(rng).log(),
        };
}
impl<T> VxShuffle<T> for [T] { open spec fn vxf(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_shuffle<R: Rng>(&mut self, rng: &mut R) { unimplemented!() }
    #[verifier::external_body] fn vx_choose<R: Rng>(&self, rng: &mut R) -> (r: Option<&T>) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_untracked_gen_range<D: VxDrawRange>(d: D) -> (r: usize) requires d.lo() < d.hi() ensures d.lo() <= r < d.hi() { unimplemented!() }
