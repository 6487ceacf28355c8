%%prelude core hash perm
%%include adj
%%include parts
%%raw
pub proof fn lemma_flat_push<G>(r: Seq<Seq<G>>, p: Seq<G>)
    ensures flat(r.push(p)) == flat(r) + p,
{ assert(r.push(p).drop_last() =~= r); }
pub open spec fn cp_inv<G: PartialOrd>(g1: Seq<G>, cn: Seq<(G, G)>, r: Seq<Seq<G>>) -> bool {
    &&& flat(r).no_duplicates()
    &&& forall|i: int| 0 <= i < flat(r).len() ==> g1.contains(#[trigger] flat(r)[i])
    &&& forall|k: int| 0 <= k < r.len() ==> #[trigger] part_ok(g1, cn, flat(r.take(k)), r[k])
}
pub proof fn lemma_cp_push<G: PartialOrd>(g1: Seq<G>, cn: Seq<(G, G)>, r: Seq<Seq<G>>, p: Seq<G>)
    requires cp_inv(g1, cn, r), part_ok(g1, cn, flat(r), p), (flat(r) + p).no_duplicates(), forall|i: int| 0 <= i < p.len() ==> g1.contains(#[trigger] p[i]),
    ensures cp_inv(g1, cn, r.push(p)),
{
    lemma_flat_push(r, p);
    let r2 = r.push(p);
    assert forall|k: int| 0 <= k < r2.len() implies #[trigger] part_ok(g1, cn, flat(r2.take(k)), r2[k]) by {
        if k < r.len() { assert(r2.take(k) =~= r.take(k)); assert(part_ok(g1, cn, flat(r.take(k)), r[k])); } else { assert(r2.take(k) =~= r); }
    }
}
pub proof fn lemma_pick_adj<G: PartialOrd>(g1: Seq<G>, g2: Seq<G>, cn: Seq<(G, G)>, g: G, used: Seq<G>, x: G)
    requires is_common_neighbors(g1, g2, cn), picks(cn, g, used, Some(x)),
    ensures adj(g1, g, x), adj(g2, g, x), g1.contains(x), !used.contains(x),
{
    let i = choose|i: int| 0 <= i < cn.len() && nb(#[trigger] cn[i], g, used) == Some(x);
    assert(adj(g1, cn[i].0, cn[i].1));
    lemma_adj_sym(g1, cn[i].0, cn[i].1); lemma_adj_sym(g2, cn[i].0, cn[i].1);
    let m = choose|m: int| 0 <= m < g1.len() && #[trigger] adj_at(g1, cn[i].0, cn[i].1, m);
    assert(g1.contains(g1[m]) && g1.contains(g1[succ(m, g1.len() as int)]));
}
pub proof fn lemma_cp_final<G: PartialOrd>(g1: Seq<G>, g2: Seq<G>, cn: Seq<(G, G)>, r: Seq<Seq<G>>)
    requires g1.no_duplicates(), is_common_neighbors(g1, g2, cn), cp_inv(g1, cn, r), forall|i: int| 0 <= i < g1.len() ==> flat(r).contains(#[trigger] g1[i]),
    ensures is_common_partitions(g1, g2, r),
{
    let f = flat(r);
    assert forall|g: G| #[trigger] f.contains(g) <==> g1.contains(g) by {
        if f.contains(g) { let i = choose|i: int| 0 <= i < f.len() && f[i] == g; assert(g1.contains(f[i])); }
        if g1.contains(g) { let i = choose|i: int| 0 <= i < g1.len() && g1[i] == g; assert(f.contains(g1[i])); }
    }
    f.unique_seq_to_set(); g1.unique_seq_to_set();
    assert(f.to_set() =~= g1.to_set()) by { assert forall|g: G| f.to_set().contains(g) <==> g1.to_set().contains(g) by { assert(f.contains(g) <==> g1.contains(g)); } }
    assert forall|k: int, j: int| 0 <= k < r.len() && 1 <= j < r[k].len() implies adj(g1, r[k][j - 1], #[trigger] r[k][j]) && adj(g2, r[k][j - 1], r[k][j]) by {
        assert(part_ok(g1, cn, flat(r.take(k)), r[k]));
        lemma_pick_adj(g1, g2, cn, r[k][j - 1], flat(r.take(k)) + r[k].take(j), r[k][j]);
    }
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).len() > 0 by { assert(part_ok(g1, cn, flat(r.take(k)), r[k])); }
}
%%fn common_neighbors assume
@spec
    requires lawful_eq::<G>(), lawful_lt::<G>(), lawful_hash::<(G, G)>(), genome1@.no_duplicates(), genome2@.no_duplicates(),
    ensures is_common_neighbors(genome1@, genome2@, r@),
%%fn common_partitions
@spec
    requires lawful_eq::<G>(), lawful_lt::<G>(), lawful_hash::<G>(), lawful_hash::<(G, G)>(), genome1@.no_duplicates(), genome2@.no_duplicates(),
    ensures is_common_partitions(genome1@, genome2@, views(r@)),
@at start
    let ghost g1 = genome1@; let ghost g2 = genome2@;
@at after let common_neighbors 0
    let ghost cn = common_neighbors@;
    proof { assert(views(partitions@) =~= Seq::empty()); assert(flat(views(partitions@)).to_set() =~= visited@); }
@loop 0
    invariant
        cp_inv(g1, cn, views(partitions@)), visited@ == flat(views(partitions@)).to_set(),
        forall|i: int| 0 <= i < vx_k0 ==> flat(views(partitions@)).contains(#[trigger] g1[i]),
@at loop 0 start
    let ghost parts0 = partitions@; let ghost before = flat(views(partitions@)); let ghost kk = vx_k0 as int;
@at before loop 1
    proof {
        lemma_push_set(before, g1[kk]); assert(g1.contains(g1[kk]));
        assert(partition@ =~= seq![g1[kk]]);
        assert(visited@ =~= (before + partition@).to_set()) by { assert(before + partition@ =~= before.push(partition@[0])); }
        assert(first_unused(g1, before, g1[kk]));
    }
@loop 1
    invariant
        part_grown(g1, cn, before, partition@), visited@ == (before + partition@).to_set(), partition@.len() > 0,
        (before + partition@).no_duplicates(), forall|i: int| 0 <= i < partition@.len() ==> g1.contains(#[trigger] partition@[i]),
        partition@[0] == g1[kk],
    ensures
        picks(cn, partition@.last(), before + partition@, None),
    decreases g1.len() - before.len() - partition@.len(),
@at loop 1 start
    let ghost part0 = partition@;
@at loop 1 end
    proof {
        let x = partition@.last(); let u0 = before + part0; let u1 = before + partition@;
        assert(partition@ =~= part0.push(x));
        assert(picks(cn, part0.last(), u0, Some(x)));
        lemma_pick_adj(g1, g2, cn, part0.last(), u0, x);
        assert(u1 =~= u0.push(x));
        lemma_push_set(u0, x);
        assert forall|j: int| 1 <= j < partition@.len() implies picks(cn, partition@[j - 1], before + partition@.take(j), Some(#[trigger] partition@[j])) by {
            if j < part0.len() { assert(picks(cn, part0[j - 1], before + part0.take(j), Some(part0[j]))); assert(part0.take(j) =~= partition@.take(j)); }
            else { assert(partition@.take(j) =~= part0); }
        }
        assert forall|i: int| 0 <= i < u1.len() implies g1.contains(#[trigger] u1[i]) by {
            if i < before.len() { assert(u1[i] == before[i]); } else { assert(u1[i] == partition@[i - before.len()]); } }
        lemma_distinct_len(g1, u1);
    }
@at before push 2
    let ghost part = partition@;
@at after push 2
    proof {
        lemma_cp_push(g1, cn, views(parts0), part);
        lemma_flat_push(views(parts0), part);
        assert(views(partitions@) =~= views(parts0).push(part));
        let u = before + part;
        assert forall|i: int| 0 <= i < vx_k0 implies flat(views(partitions@)).contains(#[trigger] g1[i]) by {
            if i < kk { assert(before.contains(g1[i])); let m = choose|m: int| 0 <= m < before.len() && before[m] == g1[i]; assert(u[m] == g1[i]); }
            else { assert(u[before.len() as int] == g1[kk]); }
        }
    }
@clo 0
 -> (r: Option<G>) ensures picks(cn, *vx_p0, before + part0, r)
@clo 1
 -> (r: Option<G>) ensures r == nb(*vx_p0, last, before + part0)
@at tail
    proof { lemma_cp_final(g1, g2, cn, views(partitions@)); }
