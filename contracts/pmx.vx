%%prelude core perm
%%include find_position
%%raw
/// path[0] lies outside a..b; every later entry is the position in p1[a..b] of the gene p2 has at the previous entry.
pub open spec fn pmx_path<G>(p1: Seq<G>, p2: Seq<G>, a: int, b: int, i: int, path: Seq<int>) -> bool {
    &&& path.len() >= 1 && path[0] == i && 0 <= i < p1.len() && !(a <= i < b)
    &&& forall|t: int| 1 <= t < path.len() ==> #[trigger] pmx_step(p1, p2, a, b, path, t)
}
pub open spec fn pmx_step<G>(p1: Seq<G>, p2: Seq<G>, a: int, b: int, path: Seq<int>, t: int) -> bool { a <= path[t] < b && p1[path[t]] == p2[path[t - 1]] }
pub open spec fn in_segment<G>(p1: Seq<G>, a: int, b: int, g: G) -> bool { exists|j: int| a <= j < b && #[trigger] p1[j] == g }
/// The rule of C03 for position i.
pub open spec fn pmx_rule<G>(p1: Seq<G>, p2: Seq<G>, a: int, b: int, r: Seq<G>, i: int) -> bool {
    if a <= i < b { r[i] == p1[i] } else {
        !in_segment(p1, a, b, r[i]) && exists|path: Seq<int>| #[trigger] pmx_path(p1, p2, a, b, i, path) && r[i] == p2[path.last()]
    }
}
pub proof fn lemma_path_back<G>(p1: Seq<G>, p2: Seq<G>, a: int, b: int, i: int, pi: Seq<int>, j: int, pj: Seq<int>, s: int)
    requires p1.no_duplicates(), p2.no_duplicates(), p1.len() == p2.len(), 0 <= a <= b <= p1.len(),
        pmx_path(p1, p2, a, b, i, pi), pmx_path(p1, p2, a, b, j, pj),
        0 <= s < pi.len(), s < pj.len(), pi.last() == pj.last(),
    ensures pi[pi.len() - 1 - s] == pj[pj.len() - 1 - s],
    decreases s,
{
    if s > 0 {
        lemma_path_back(p1, p2, a, b, i, pi, j, pj, s - 1);
        let x = pi.len() - s; let y = pj.len() - s;
        assert(pi[x] == pj[y]);
        assert(pmx_step(p1, p2, a, b, pi, x as int) && pmx_step(p1, p2, a, b, pj, y as int));
        assert(p2[pi[x - 1]] == p2[pj[y - 1]]);
        assert(0 <= pi[x - 1] < p2.len() && 0 <= pj[y - 1] < p2.len()) by {
            if x - 1 > 0 { assert(pmx_step(p1, p2, a, b, pi, x - 1)); }
            if y - 1 > 0 { assert(pmx_step(p1, p2, a, b, pj, y - 1)); }
        }
    }
}
/// Paths with the same end have the same start.
pub proof fn lemma_path_start<G>(p1: Seq<G>, p2: Seq<G>, a: int, b: int, i: int, pi: Seq<int>, j: int, pj: Seq<int>)
    requires p1.no_duplicates(), p2.no_duplicates(), p1.len() == p2.len(), 0 <= a <= b <= p1.len(),
        pmx_path(p1, p2, a, b, i, pi), pmx_path(p1, p2, a, b, j, pj), pi.last() == pj.last(),
    ensures i == j,
{
    let s = if pi.len() <= pj.len() { pi.len() - 1 } else { pj.len() - 1 };
    lemma_path_back(p1, p2, a, b, i, pi, j, pj, s);
    if pi.len() < pj.len() { assert(pmx_step(p1, p2, a, b, pj, pj.len() - 1 - s)); }
    if pi.len() > pj.len() { assert(pmx_step(p1, p2, a, b, pi, pi.len() - 1 - s)); }
}
/// A path never revisits a position, so it has at most b - a + 1 entries.
pub proof fn lemma_path_distinct<G>(p1: Seq<G>, p2: Seq<G>, a: int, b: int, i: int, path: Seq<int>)
    requires p1.no_duplicates(), p2.no_duplicates(), p1.len() == p2.len(), 0 <= a <= b <= p1.len(), pmx_path(p1, p2, a, b, i, path),
    ensures path.no_duplicates(), path.len() <= b - a + 1,
{
    assert forall|x: int, y: int| 0 <= x < y < path.len() implies path[x] != path[y] by {
        if path[x] == path[y] {
            let px = path.take(x + 1); let py = path.take(y + 1);
            assert forall|t: int| 1 <= t < px.len() implies #[trigger] pmx_step(p1, p2, a, b, px, t) by { assert(pmx_step(p1, p2, a, b, path, t)); }
            assert forall|t: int| 1 <= t < py.len() implies #[trigger] pmx_step(p1, p2, a, b, py, t) by { assert(pmx_step(p1, p2, a, b, path, t)); }
            assert(px.last() == path[x] && py.last() == path[y]);
            lemma_path_back(p1, p2, a, b, i, px, i, py, x);
            assert(px[0] == py[y - x]);
            assert(pmx_step(p1, p2, a, b, path, y - x));
        }
    }
    let tail = path.skip(1);
    assert(tail.no_duplicates());
    let all = Seq::new((b - a) as nat, |t: int| a + t);
    if tail.len() > all.len() {
        lemma_unused(tail, all);
        let t = choose|t: int| 0 <= t < tail.len() && !all.contains(#[trigger] tail[t]);
        assert(tail[t] == path[t + 1]);
        assert(pmx_step(p1, p2, a, b, path, t + 1));
        assert(all[path[t + 1] - a] == path[t + 1]);
    }
}
pub proof fn lemma_pmx_perm<G>(p1: Seq<G>, p2: Seq<G>, a: int, b: int, r: Seq<G>)
    requires same_genes(p1, p2), 0 <= a <= b <= p1.len(), r.len() == p1.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] pmx_rule(p1, p2, a, b, r, i),
    ensures same_genes(r, p1),
{
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] != r[j] by {
        assert(pmx_rule(p1, p2, a, b, r, i)); assert(pmx_rule(p1, p2, a, b, r, j));
        if r[i] == r[j] {
            if a <= i < b {
                if !(a <= j < b) { assert(in_segment(p1, a, b, r[j])) by { assert(p1[i] == r[j]); } }
            } else if a <= j < b {
                assert(in_segment(p1, a, b, r[i])) by { assert(p1[j] == r[i]); }
            } else {
                let pi = choose|path: Seq<int>| #[trigger] pmx_path(p1, p2, a, b, i, path) && r[i] == p2[path.last()];
                let pj = choose|path: Seq<int>| #[trigger] pmx_path(p1, p2, a, b, j, path) && r[j] == p2[path.last()];
                assert(0 <= pi.last() < p2.len()) by { if pi.len() > 1 { assert(pmx_step(p1, p2, a, b, pi, pi.len() - 1)); } }
                assert(0 <= pj.last() < p2.len()) by { if pj.len() > 1 { assert(pmx_step(p1, p2, a, b, pj, pj.len() - 1)); } }
                lemma_path_start(p1, p2, a, b, i, pi, j, pj);
            }
        }
    }
    assert forall|i: int| 0 <= i < r.len() implies p1.contains(#[trigger] r[i]) by {
        assert(pmx_rule(p1, p2, a, b, r, i));
        if a <= i < b { } else {
            let pi = choose|path: Seq<int>| #[trigger] pmx_path(p1, p2, a, b, i, path) && r[i] == p2[path.last()];
            assert(0 <= pi.last() < p2.len()) by { if pi.len() > 1 { assert(pmx_step(p1, p2, a, b, pi, pi.len() - 1)); } }
            assert(p2.contains(p2[pi.last()]));
        }
    }
    lemma_full(p1, r);
}
%%fn partially_mapped_crossover
@spec
    requires lawful_eq::<G>(), same_genes(parent1@, parent2@), parent1@.len() < 2 || range.start <= range.end <= parent1@.len(),
    ensures
        parent1@.len() < 2 ==> r@ == parent1@,
        same_genes(r@, parent1@),
        parent1@.len() >= 2 ==> forall|i: int| 0 <= i < r@.len() ==> #[trigger] pmx_rule(parent1@, parent2@, range.start as int, range.end as int, r@, i),
@at start
    let ghost g1 = parent1@; let ghost g2 = parent2@; let ghost a = range.start as int; let ghost b = range.end as int;
@loop 0
    invariant
        0 <= vx_k0 <= g1.len(), offspring@.len() == g1.len(),
        forall|i: int| 0 <= i < vx_k0 || a <= i < b ==> #[trigger] pmx_rule(g1, g2, a, b, offspring@, i),
@at loop 0 start
    let ghost off0 = offspring@; let ghost kk = vx_k0 as int;
    proof { assert forall|i: int| 0 <= i < kk || a <= i < b implies #[trigger] pmx_rule(g1, g2, a, b, off0, i) by { } }
@at before loop 1
    let ghost mut path = seq![kk];
    proof { assert(pmx_path(g1, g2, a, b, kk, path)); }
@loop 1
    invariant pmx_path(g1, g2, a, b, kk, path), mapped_gene == g2[path.last()], 0 <= path.last() < g1.len(),
    ensures pmx_path(g1, g2, a, b, kk, path), mapped_gene == g2[path.last()], !in_segment(g1, a, b, mapped_gene),
    decreases b - a + 2 - path.len(),
@at loop 1 start
    proof {
        lemma_path_distinct(g1, g2, a, b, kk, path);
        assert(in_segment(g1, a, b, mapped_gene) ==> start@.contains(mapped_gene)) by {
            if in_segment(g1, a, b, mapped_gene) { let j = choose|j: int| a <= j < b && #[trigger] g1[j] == mapped_gene; assert(start@[j - a] == mapped_gene); }
        }
    }
    let ghost path0 = path;
    proof { if in_segment(g1, a, b, mapped_gene) {
        let j = choose|j: int| a <= j < b && #[trigger] g1[j] == mapped_gene;
        path = path.push(j);
        assert(pmx_step(g1, g2, a, b, path, path.len() - 1));
        assert forall|t: int| 1 <= t < path.len() implies #[trigger] pmx_step(g1, g2, a, b, path, t) by { if t < path.len() - 1 { assert(pmx_step(g1, g2, a, b, path0, t)); } }
    } }
@at after loop 1
    proof { assert(!in_segment(g1, a, b, mapped_gene)); assert(exists|path: Seq<int>| #[trigger] pmx_path(g1, g2, a, b, kk, path) && mapped_gene == g2[path.last()]); }
@at loop 0 end
    proof {
        assert(a <= kk < b ==> offspring@ == off0);
        assert(offspring@ =~= off0.update(kk, offspring@[kk]));
        assert(pmx_rule(g1, g2, a, b, offspring@, kk)) by { if a <= kk < b { assert(pmx_rule(g1, g2, a, b, off0, kk)); } }
        assert forall|i: int| 0 <= i < kk + 1 || a <= i < b implies #[trigger] pmx_rule(g1, g2, a, b, offspring@, i) by {
            if i != kk { assert(pmx_rule(g1, g2, a, b, off0, i)); assert(offspring@[i] == off0[i]); }
        }
    }
@at before loop 0
    proof { assert forall|i: int| a <= i < b implies #[trigger] pmx_rule(g1, g2, a, b, offspring@, i) by {
        assert(offspring@[i] == offspring@.subrange(a, b)[i - a]);
        assert(offspring@[i] == g1.subrange(a, b)[i - a]); } }
@at tail
    proof { lemma_pmx_perm(g1, g2, a, b, offspring@); }
%%fn partially_mapped_crossover panics nodecreases as=vx_rejects_pmx
@spec
    requires parent1@.len() != parent2@.len(), lawful_eq::<G>(),
    ensures false,
