%%prelude core hash
%%include adj
%%include filtered
%%raw
pub proof fn lemma_upair<G: PartialOrd>(a: G, b: G, c: G, d: G)
    requires lawful_lt::<G>(),
    ensures a != b ==> upair(a, b) == upair(b, a) && lt(upair(a, b).0, upair(a, b).1),
        a != b && c != d ==> (upair(a, b) == upair(c, d) <==> (a == c && b == d) || (a == d && b == c)),
{ assert(lt(a, b) || !lt(a, b)); assert(lt(b, a) || !lt(b, a)); assert(lt(c, d) || !lt(c, d)); }
/// the pairs of s contain upair(a, b) exactly when a and b are adjacent in s
pub proof fn lemma_cpairs<G: PartialOrd>(s: Seq<G>, a: G, b: G)
    requires lawful_lt::<G>(), s.no_duplicates(), s.len() >= 2, a != b,
    ensures cpairs(s).contains(upair(a, b)) <==> adj(s, a, b),
{
    let n = s.len() as int;
    if cpairs(s).contains(upair(a, b)) {
        let i = choose|i: int| 0 <= i < n && cpairs(s)[i] == upair(a, b);
        lemma_upair(s[i], s[succ(i, n)], a, b);
        assert(s[i] != s[succ(i, n)]);
        assert(s[i] == a || s[i] == b);
        assert(adj_at(s, a, b, i));
    }
    if adj(s, a, b) {
        let i = choose|i: int| 0 <= i < n && #[trigger] adj_at(s, a, b, i);
        lemma_upair(s[i], s[succ(i, n)], a, b);
        assert(cpairs(s)[i] == upair(a, b));
    }
}
pub proof fn lemma_cn<G: PartialOrd>(g1: Seq<G>, g2: Seq<G>, keep: Seq<bool>, r: Seq<(G, G)>)
    requires lawful_lt::<G>(), g1.no_duplicates(), g2.no_duplicates(), g1.len() >= 2, g2.len() >= 2,
        filtered(cpairs(shorter(g1, g2)), keep, r),
        forall|i: int| 0 <= i < keep.len() ==> (#[trigger] keep[i] <==> cpairs(longer(g1, g2)).contains(cpairs(shorter(g1, g2))[i])),
    ensures is_common_neighbors(g1, g2, r),
{
    let s = shorter(g1, g2); let l = longer(g1, g2); let n = s.len() as int;
    assert(keep.len() == n);
    assert forall|i: int| 0 <= i < keep.len() implies (#[trigger] keep[i] <==> adj(l, s[i], s[succ(i, n)])) by {
        assert(s[i] != s[succ(i, n)]);
        lemma_cpairs(l, s[i], s[succ(i, n)]);
    }
    assert forall|i: int| 0 <= i < r.len() implies lt((#[trigger] r[i]).0, r[i].1) && adj(g1, r[i].0, r[i].1) && adj(g2, r[i].0, r[i].1) by {
        lemma_filtered_from(cpairs(s), keep, r, i);
        let j = choose|j: int| #[trigger] from_kept(cpairs(s), keep, r[i], j);
        let (a, b) = (s[j], s[succ(j, n)]);
        assert(a != b);
        lemma_upair(a, b, a, b);
        lemma_cpairs(s, a, b);
        assert(cpairs(s).contains(upair(a, b)));
        assert(adj(s, a, b) && adj(l, a, b));
        lemma_adj_sym(s, a, b); lemma_adj_sym(l, a, b);
    }
    assert forall|a: G, b: G| #![trigger adj(g1, a, b)] adj(g1, a, b) && adj(g2, a, b) implies r.contains(upair(a, b)) by {
        assert(adj(s, a, b) && adj(l, a, b));
        let i = choose|i: int| 0 <= i < n && #[trigger] adj_at(s, a, b, i);
        assert(s[i] != s[succ(i, n)]);
        lemma_upair(s[i], s[succ(i, n)], a, b);
        lemma_cpairs(l, s[i], s[succ(i, n)]);
        lemma_cpairs(l, a, b);
        assert(keep[i]);
        lemma_filtered_to(cpairs(s), keep, r, i);
    }
}
/// the answer for genomes without pairs
pub proof fn lemma_cn_short<G: PartialOrd>(g1: Seq<G>, g2: Seq<G>)
    ensures g1.len() < 2 || g2.len() < 2 ==> is_common_neighbors(g1, g2, Seq::empty()),
{ }
%%fn common_neighbors
@spec
    requires lawful_eq::<G>(), lawful_lt::<G>(), lawful_hash::<(G, G)>(), genome1@.no_duplicates(), genome2@.no_duplicates(),
    ensures is_common_neighbors(genome1@, genome2@, r@),
@at start
    hide(is_common_neighbors);
    proof { lemma_cn_short::<G>(genome1@, genome2@); }
    let ghost g1 = genome1@; let ghost g2 = genome2@;
@clo 0
 -> (r: (G, G)) ensures r == upair(*a, *b)
@clo 1
 -> (r: (G, G)) requires w@.len() == 2 ensures r == upair(w@[0], w@[1])
@clo 2
 -> (r: (G, G)) requires w@.len() == 2 ensures r == upair(w@[0], w@[1])
@clo 3
 -> (r: bool) ensures r == neighbors2@.contains(*neighbor)
@at bind extend 1
    proof { assert(vx_bind_extend_1@ =~= cpairs(longer(g1, g2))); }
@at before retain 0
    proof {
        assert(neighbors1@ =~= cpairs(shorter(g1, g2)));
        assert(neighbors2@ =~= cpairs(longer(g1, g2)).to_set());
    }
@at tail
    proof {
        let keep = choose|keep: Seq<bool>| #[trigger] filtered(cpairs(shorter(g1, g2)), keep, neighbors1@)
            && forall|i: int| 0 <= i < cpairs(shorter(g1, g2)).len() ==> keep[i] == cpairs(longer(g1, g2)).to_set().contains(#[trigger] cpairs(shorter(g1, g2))[i]);
        assert(keep.len() == cpairs(shorter(g1, g2)).len());
        assert forall|i: int| 0 <= i < keep.len() implies (#[trigger] keep[i] <==> cpairs(longer(g1, g2)).contains(cpairs(shorter(g1, g2))[i])) by {
            assert(keep[i] == cpairs(longer(g1, g2)).to_set().contains(cpairs(shorter(g1, g2))[i])); }
        lemma_cn(g1, g2, keep, neighbors1@);
    }
