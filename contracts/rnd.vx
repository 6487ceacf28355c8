%%prelude core rng
%%include rnd
%%raw
pub open spec fn vx_drawn(d: Draw) -> int { match d { Draw::Below { lo, hi, v } => v, _ => 0 } }
%%fn random_pair
@spec
    requires n >= 2,
    ensures drew_pair(old(rng).log(), final(rng).log(), n as int, r),
@at tail
    proof {
        lemma_pairs_uniform(n as int);
        let l = rng.log(); let k = old(rng).log().len() as int;
        if l.len() == k + 2 {
            let (a, b) = (vx_drawn(l[k]), vx_drawn(l[k + 1]));
            assert(pair_of(a, b) == (a, if b < a { b } else { b + 1 }));
        }
    }
%%fn random_range
@spec
    requires n != 0,
    ensures drew_range(old(rng).log(), final(rng).log(), n as int, 1, n as int, r), r.start < r.end,
%%fn bounded_random_range
@spec
    requires min_len <= max_len <= n,
    ensures drew_range(old(rng).log(), final(rng).log(), n as int, min_len as int, max_len as int, r),
%%fn random_pair panics as=vx_rejects_pair
@spec
    requires n < 2,
    ensures false,
%%fn random_range panics as=vx_rejects_range
@spec
    requires n == 0,
    ensures false,
%%fn bounded_random_range panics as=vx_rejects_bounded
@spec
    requires min_len > max_len,
    ensures false,
