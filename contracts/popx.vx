%%prelude core f64 rng sort
%%include popbase
%%struct Population attr=verifier::reject_recursive_types(I)
%%fn compare_fitness assume
@spec
    ensures r == (match f_cmp(a.fit(), b.fit()) { Some(o) => o, None => core::cmp::Ordering::Equal }),
%%fn sort_dedup_and_collect_stats panics as=vx_rejects_empty
@spec
    requires old(individuals)@.len() == 0, lawful_eq::<I>(),
    ensures false,
@loop 0
    invariant individuals@.len() == 0,
%%fn sort_dedup_and_collect_stats assume
@spec
    ensures old(individuals)@.len() > 0,
%%impl Population
%%fn new panics as=vx_rejects_new
@spec
    requires initial_population@.len() == 0,
    ensures false,
%%fn replace panics as=vx_rejects_replace
@spec
    requires old(new_population)@.len() == 0, old(self).generation < usize::MAX, old(self).stagnation < usize::MAX,
    ensures false,
%%end
