%%prelude core f64
%%struct Stats attr=derive(Copy,Clone)
%%struct PopulatedStats attr=derive(Copy,Clone)
%%include stats
%%impl Stats
%%fn count
@spec
    ensures r == self.count,
%%fn min
@spec
    ensures self.count == 0 ==> r.is_none(), self.count != 0 ==> r == Some(self.min),
%%fn arg_min
@spec
    ensures self.count == 0 ==> r.is_none(), self.count != 0 ==> r == Some(self.arg_min),
%%fn max
@spec
    ensures self.count == 0 ==> r.is_none(), self.count != 0 ==> r == Some(self.max),
%%fn arg_max
@spec
    ensures self.count == 0 ==> r.is_none(), self.count != 0 ==> r == Some(self.arg_max),
%%fn record
@spec
    requires old(self).count < usize::MAX,
    ensures *final(self) == stats_step(*old(self), sample),
%%fn snapshot
@spec
    ensures match r { Some(p) => self.count != 0 && p.stats == *self, None => self.count == 0 },
%%end
%%impl PopulatedStats
%%fn count
@spec
    ensures r == self.stats.count,
%%fn min
@spec
    ensures r == self.stats.min,
%%fn arg_min
@spec
    ensures r == self.stats.arg_min,
%%fn max
@spec
    ensures r == self.stats.max,
%%fn arg_max
@spec
    ensures r == self.stats.arg_max,
%%end
%%impl FromIterator for Stats as_inherent
%%fn from_iter
@generics
=
@params
iter: It<F64>
@spec
    requires iter@.len() <= usize::MAX,
    ensures stats_of(iter@, r),
@loop 0
    invariant vx_s0@ == iter@.subrange(1, iter@.len() as int), iter@.len() >= 1,
        (Stats { count, min, arg_min, max, arg_max, avg, sum_squared }) == recorded(iter@.subrange(0, vx_k0 + 1)), count == vx_k0 + 1,
@at before loop 0
    assert(iter@.subrange(0, 1) =~= seq![iter@[0]]);
@at loop 0 start
    proof { lemma_push(iter@.subrange(0, vx_k0 + 1), iter@[vx_k0 + 1]); assert(iter@.subrange(0, vx_k0 + 1).push(iter@[vx_k0 + 1]) =~= iter@.subrange(0, vx_k0 + 2)); }
@at after loop 0
    assert(iter@.subrange(0, iter@.len() as int) =~= iter@);
%%end
%%impl TryFrom<Stats> for PopulatedStats as_inherent
%%fn try_from
@spec
    ensures match r { Ok(p) => stats.count != 0 && p.stats == stats, Err(_) => stats.count == 0 },
%%end
