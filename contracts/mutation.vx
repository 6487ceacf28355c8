%%prelude core rng
%%include rnd
%%include mutspec
%%raw
pub open spec fn seg_perm(n: int, a: int, q: Seq<int>) -> Seq<int> { Seq::new(n as nat, |i: int| if a <= i < a + q.len() { a + q[i - a] } else { i }) }
pub proof fn lemma_seg_rearranged<G>(s: Seq<G>, a: int, b: int, q: Seq<int>)
    requires is_seg(s, a, b), is_perm(q, b - a),
    ensures rearranged(s, seg(s, a, b, permuted(s.subrange(a, b), q))),
{
    let n = s.len() as int;
    let p = seg_perm(n, a, q);
    assert(is_perm(p, n));
    assert(seg(s, a, b, permuted(s.subrange(a, b), q)) =~= permuted(s, p));
}
pub proof fn lemma_swap_rearranged<G>(s: Seq<G>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(),
    ensures rearranged(s, swapped(s, a, b)),
{
    let p = swapped(Seq::new(s.len(), |i: int| i), a, b);
    assert(is_perm(p, s.len() as int));
    assert(swapped(s, a, b) =~= permuted(s, p));
}
pub open spec fn rev_idx(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| n - 1 - i) }
pub open spec fn rot_idx(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| if i == 0 { n - 1 } else { i - 1 }) }
pub proof fn lemma_inversion<G>(s: Seq<G>, a: int, b: int)
    requires is_seg(s, a, b),
    ensures rearranged(s, seg(s, a, b, s.subrange(a, b).reverse())),
{
    let q = rev_idx(b - a);
    assert(is_perm(q, b - a));
    lemma_seg_rearranged(s, a, b, q);
    assert(s.subrange(a, b).reverse() =~= permuted(s.subrange(a, b), q));
}
pub proof fn lemma_insertion<G>(s: Seq<G>, a: int, b: int)
    requires is_seg(s, a, b),
    ensures rearranged(s, seg(s, a, b, seq![s[b - 1]] + s.subrange(a, b - 1))),
{
    let q = rot_idx(b - a);
    assert(is_perm(q, b - a));
    lemma_seg_rearranged(s, a, b, q);
    assert(seq![s[b - 1]] + s.subrange(a, b - 1) =~= permuted(s.subrange(a, b), q));
}
%%fn random_pair assume
@spec
    requires n >= 2,
    ensures drew_pair(old(rng).log(), final(rng).log(), n as int, r),
%%fn bounded_random_range assume
@spec
    requires min_len <= max_len <= n,
    ensures drew_range(old(rng).log(), final(rng).log(), n as int, min_len as int, max_len as int, r),
%%fn swap_mutation
@spec
    ensures swap_ok(old(genome)@, final(genome)@),
@at tail
    proof { let s = old(genome)@; lemma_swap_rearranged(s, p1 as int, p2 as int); assert(genome@ =~= swapped(s, p1 as int, p2 as int)); }
%%fn scramble_mutation
@spec
    ensures scramble_ok(old(genome)@, final(genome)@),
@at tail
    proof {
        let s = old(genome)@; let (a, b) = (range.start as int, range.end as int); let t = genome@;
        assert(is_seg(s, a, b));
        let p = choose|p: Seq<int>| #[trigger] is_perm(p, b - a) && t == s.subrange(0, a) + permuted(s.subrange(a, b), p) + s.subrange(b, s.len() as int);
        lemma_seg_rearranged(s, a, b, p);
        assert(t == seg(s, a, b, permuted(s.subrange(a, b), p)));
    }
%%fn inversion_mutation
@spec
    ensures inversion_ok(old(genome)@, final(genome)@),
@at tail
    proof { let s = old(genome)@; let (a, b) = (range.start as int, range.end as int); assert(is_seg(s, a, b)); lemma_inversion(s, a, b); assert(genome@ =~= seg(s, a, b, s.subrange(a, b).reverse())); }
%%fn insertion_mutation
@spec
    ensures insertion_ok(old(genome)@, final(genome)@),
@at tail
    proof {
        let s = old(genome)@; let (a, b) = if p1 <= p2 { (p1 as int, p2 + 1) } else { (p2 as int, p1 + 1) };
        assert(is_seg(s, a, b)); lemma_insertion(s, a, b);
        assert(genome@ =~= seg(s, a, b, seq![s[b - 1]] + s.subrange(a, b - 1)));
    }
%%fn duplicate_mutation assume
%%enum MutationStrategy
%%impl MutationStrategy
%%fn mutate
@spec
    ensures match *self {
        MutationStrategy::Swap => swap_ok(old(genome)@, final(genome)@),
        MutationStrategy::Scramble => scramble_ok(old(genome)@, final(genome)@),
        MutationStrategy::Inversion => inversion_ok(old(genome)@, final(genome)@),
        MutationStrategy::Insertion => insertion_ok(old(genome)@, final(genome)@),
        _ => true,
    },
%%end
