%%raw
pub open spec fn flat<G>(r: Seq<Seq<G>>) -> Seq<G> decreases r.len() { if r.len() == 0 { Seq::empty() } else { flat(r.drop_last()) + r.last() } }
pub open spec fn views<G>(r: Seq<Vec<G>>) -> Seq<Seq<G>> { r.map_values(|v: Vec<G>| v@) }
/// the unused gene pair p joins to g, if any
pub open spec fn nb<G>(p: (G, G), g: G, used: Seq<G>) -> Option<G> {
    if p.0 == g && !used.contains(p.1) { Some(p.1) } else if p.1 == g && !used.contains(p.0) { Some(p.0) } else { None }
}
/// x is the first unused shared neighbour of g, or None if there is none
pub open spec fn picks<G>(cn: Seq<(G, G)>, g: G, used: Seq<G>, x: Option<G>) -> bool {
    match x {
        Some(y) => exists|i: int| 0 <= i < cn.len() && nb(#[trigger] cn[i], g, used) == Some(y) && forall|j: int| 0 <= j < i ==> nb(#[trigger] cn[j], g, used) is None,
        None => forall|j: int| 0 <= j < cn.len() ==> nb(#[trigger] cn[j], g, used) is None,
    }
}
pub open spec fn part_grown<G>(g1: Seq<G>, cn: Seq<(G, G)>, before: Seq<G>, p: Seq<G>) -> bool {
    &&& p.len() > 0 && first_unused(g1, before, p[0])
    &&& forall|j: int| 1 <= j < p.len() ==> picks(cn, p[j - 1], before + p.take(j), Some(#[trigger] p[j]))
}
pub open spec fn part_ok<G>(g1: Seq<G>, cn: Seq<(G, G)>, before: Seq<G>, p: Seq<G>) -> bool { part_grown(g1, cn, before, p) && picks(cn, p.last(), before + p, None) }
/// C13
pub open spec fn is_common_partitions<G: PartialOrd>(g1: Seq<G>, g2: Seq<G>, r: Seq<Seq<G>>) -> bool {
    &&& same_genes(flat(r), g1)
    &&& forall|k: int, j: int| 0 <= k < r.len() && 1 <= j < r[k].len() ==> adj(g1, r[k][j - 1], #[trigger] r[k][j]) && adj(g2, r[k][j - 1], r[k][j])
    &&& exists|cn: Seq<(G, G)>| is_common_neighbors(g1, g2, cn) && forall|k: int| 0 <= k < r.len() ==> #[trigger] part_ok(g1, cn, flat(r.take(k)), r[k])
    &&& forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).len() > 0
}
