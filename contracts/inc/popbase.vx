%%struct Stats attr=derive(Copy,Clone)
%%struct PopulatedStats attr=derive(Copy,Clone)
%%include stats
%%impl FromIterator for Stats as_inherent
%%fn from_iter assume
@generics
=
@params
iter: It<F64>
@spec
    requires iter@.len() <= usize::MAX,
    ensures stats_of(iter@, r),
%%end
%%impl Stats
%%fn snapshot assume
@spec
    ensures match r { Some(p) => self.count != 0 && p.stats == *self, None => self.count == 0 },
%%end
%%raw
impl Stats { #[verifier::external_body] pub fn vx_try_into(self) -> (r: Result<PopulatedStats, ()>) ensures match r { Ok(p) => self.count != 0 && p.stats == self, Err(_) => self.count == 0 } { unimplemented!() } }
%%impl PopulatedStats
%%fn max assume
@spec
    ensures r == self.stats.max,
%%fn arg_max assume
@spec
    ensures r == self.stats.arg_max,
%%end
%%include indiv
%%raw
/// C14: b holds exactly the distinct individuals of a, in non-decreasing order of fitness
pub open spec fn sorted_distinct_of<I: Individual>(a: Seq<I>, b: Seq<I>) -> bool {
    &&& b.no_duplicates() && ascending(b)
    &&& forall|x: I| #[trigger] a.contains(x) <==> b.contains(x)
}
