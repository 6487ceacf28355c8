%%raw
pub open spec fn lt<G: PartialOrd>(a: G, b: G) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
/// < on genes is a strict total order consistent with ==
pub open spec fn lawful_lt<G: PartialOrd>() -> bool {
    &&& <G as PartialOrdSpec<G>>::obeys_partial_cmp_spec()
    &&& forall|x: G, y: G| #![trigger lt(x, y)] lt(x, y) ==> !lt(y, x)
    &&& forall|x: G, y: G| #![trigger lt(x, y)] x != y ==> lt(x, y) || lt(y, x)
}
pub open spec fn upair<G: PartialOrd>(a: G, b: G) -> (G, G) { if lt(a, b) { (a, b) } else { (b, a) } }
/// The i-th cyclic neighbour pair of s.
pub open spec fn cpair<G: PartialOrd>(s: Seq<G>, i: int) -> (G, G) { upair(s[i], s[succ(i, s.len() as int)]) }
/// a and b stand next to each other in s, cyclically, at position i.
pub open spec fn adj_at<G>(s: Seq<G>, a: G, b: G, i: int) -> bool { (s[i] == a && s[succ(i, s.len() as int)] == b) || (s[i] == b && s[succ(i, s.len() as int)] == a) }
/// a and b are cyclically adjacent in s.
pub open spec fn adj<G>(s: Seq<G>, a: G, b: G) -> bool {
    s.len() >= 2 && exists|i: int| 0 <= i < s.len() && #[trigger] adj_at(s, a, b, i)
}
pub open spec fn cpairs<G: PartialOrd>(s: Seq<G>) -> Seq<(G, G)> { Seq::new(s.len(), |i: int| cpair(s, i)) }
pub open spec fn shorter<G>(a: Seq<G>, b: Seq<G>) -> Seq<G> { if a.len() <= b.len() { a } else { b } }
pub open spec fn longer<G>(a: Seq<G>, b: Seq<G>) -> Seq<G> { if a.len() <= b.len() { b } else { a } }
/// C12
pub open spec fn is_common_neighbors<G: PartialOrd>(g1: Seq<G>, g2: Seq<G>, r: Seq<(G, G)>) -> bool {
    if g1.len() < 2 || g2.len() < 2 { r.len() == 0 } else {
        // every pair is written smaller gene first and joins genes adjacent in both genomes ...
        &&& forall|i: int| 0 <= i < r.len() ==> lt((#[trigger] r[i]).0, r[i].1) && adj(g1, r[i].0, r[i].1) && adj(g2, r[i].0, r[i].1)
        // ... every such pair is there ...
        &&& forall|a: G, b: G| #![trigger adj(g1, a, b)] adj(g1, a, b) && adj(g2, a, b) ==> r.contains(upair(a, b))
        // ... in the order of the cyclic pairs of the shorter genome
        &&& exists|keep: Seq<bool>| #[trigger] filtered(cpairs(shorter(g1, g2)), keep, r)
                && forall|i: int| 0 <= i < keep.len() ==> (#[trigger] keep[i] <==> adj(longer(g1, g2), shorter(g1, g2)[i], shorter(g1, g2)[succ(i, shorter(g1, g2).len() as int)]))
    }
}
pub proof fn lemma_adj_sym<G>(s: Seq<G>, a: G, b: G)
    requires adj(s, a, b),
    ensures adj(s, b, a),
{ let i = choose|i: int| 0 <= i < s.len() && #[trigger] adj_at(s, a, b, i); assert(adj_at(s, b, a, i)); }
