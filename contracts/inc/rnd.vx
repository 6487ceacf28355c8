%%raw
/// the pair two draws v1 from 0..n and v2 from 0..n-1 stand for
pub open spec fn pair_of(v1: int, v2: int) -> (int, int) { (v1, if v2 >= v1 { v2 + 1 } else { v2 }) }
pub open spec fn pair_reached(n: int, a: int, b: int) -> bool { exists|v1: int, v2: int| 0 <= v1 < n && 0 <= v2 < n - 1 && #[trigger] pair_of(v1, v2) == (a, b) }
/// every pair of different numbers below n comes from exactly one pair of equally likely draws
pub proof fn lemma_pairs_uniform(n: int)
    requires n >= 2,
    ensures
        forall|v1: int, v2: int| 0 <= v1 < n && 0 <= v2 < n - 1 ==> ({ let p = #[trigger] pair_of(v1, v2); 0 <= p.0 < n && 0 <= p.1 < n && p.0 != p.1 }),
        forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b ==> #[trigger] pair_reached(n, a, b),
        forall|v1: int, v2: int, w1: int, w2: int| #[trigger] pair_of(v1, v2) == #[trigger] pair_of(w1, w2) ==> v1 == w1 && v2 == w2,
{
    assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && a != b implies #[trigger] pair_reached(n, a, b) by {
        let v2 = if b > a { b - 1 } else { b };
        assert(pair_of(a, v2) == (a, b));
    }
}
/// C11, a pair
pub open spec fn drew_pair(before: Seq<Draw>, after: Seq<Draw>, n: int, r: (usize, usize)) -> bool {
    &&& r.0 < n && r.1 < n && r.0 != r.1
    &&& exists|v1: int, v2: int| 0 <= v1 < n && 0 <= v2 < n - 1 && #[trigger] pair_of(v1, v2) == (r.0 as int, r.1 as int)
            && after == before.push(Draw::Below { lo: 0, hi: n, v: v1 }).push(Draw::Below { lo: 0, hi: n - 1, v: v2 })
}
/// C11, a range: first the length, then the start among those the length allows
pub open spec fn drew_range(before: Seq<Draw>, after: Seq<Draw>, n: int, min_len: int, max_len: int, r: Range<usize>) -> bool {
    &&& r.start <= r.end <= n && min_len <= r.end - r.start <= max_len
    &&& after == before.push(Draw::Below { lo: min_len, hi: max_len + 1, v: r.end - r.start }).push(Draw::Below { lo: 0, hi: n - (r.end - r.start) + 1, v: r.start as int })
}
/// every range that satisfies the constraints is the result of admissible draws
pub proof fn lemma_ranges_reachable(n: int, min_len: int, max_len: int, s: int, e: int)
    requires 0 <= s <= e <= n, min_len <= e - s <= max_len,
    ensures min_len <= e - s < max_len + 1, 0 <= s < n - (e - s) + 1,
{}
