%%prelude core hash perm
%%include find_position
%%raw
/// The gene that cyclically follows gene g in genome p.
pub open spec fn next_gene<G>(p: Seq<G>, g: G) -> G { p[succ(pos(p, g), p.len() as int)] }
/// The rule of C01 for the gene placed at index k.
pub open spec fn scx_rule<G>(p1: Seq<G>, p2: Seq<G>, off: Seq<G>, k: int) -> bool {
    let used = off.take(k);
    let n1 = next_gene(p1, off[k - 1]);
    let n2 = next_gene(p2, off[k - 1]);
    if used.contains(n1) && used.contains(n2) { first_unused(p1, used, off[k]) }
    else if used.contains(n1) { off[k] == n2 }
    else if used.contains(n2) { off[k] == n1 }
    else if pos(p2, n1) < pos(p1, n2) { off[k] == n1 }
    else { off[k] == n2 }
}
%%fn sequential_constructive_crossover
@spec
    requires lawful_eq::<G>(), lawful_hash::<G>(), same_genes(parent1@, parent2@), parent1@.contains(pivot) || parent1@.len() == 0,
    ensures
        parent1@.len() < 2 ==> r@ == parent1@,
        parent1@.len() >= 2 ==> r@[0] == pivot,
        same_genes(r@, parent1@),
        forall|k: int| 1 <= k < r@.len() ==> scx_rule(parent1@, parent2@, r@, k),
@at start
    let ghost p1 = parent1@; let ghost p2 = parent2@;
@loop 0
    invariant
        1 <= vx_k0 <= p1.len(), offspring@.len() == p1.len(),
        current == offspring@[vx_k0 - 1], offspring@[0] == pivot,
        visited@ == offspring@.take(vx_k0 - 1).to_set(),
        offspring@.take(vx_k0 as int).no_duplicates(),
        forall|i: int| 0 <= i < vx_k0 ==> p1.contains(#[trigger] offspring@[i]),
        forall|k: int| 1 <= k < vx_k0 ==> scx_rule(p1, p2, offspring@, k),
@at loop 0 start
    let ghost off0 = offspring@; let ghost kk = vx_k0 as int;
    proof {
        let used = off0.take(kk);
        lemma_take_step(off0, kk - 1);
        lemma_unused(p1, used);
        assert(p1.contains(off0[kk - 1]));
        assert(p1.contains(current) && p2.contains(current));
        lemma_pos(p1, pos(p1, current)); lemma_pos(p2, pos(p2, current));
        let n1 = next_gene(p1, current); let n2 = next_gene(p2, current);
        assert(p1.contains(n1)) by { assert(p1[succ(pos(p1, current), p1.len() as int)] == n1); }
        assert(p2.contains(n2)) by { assert(p2[succ(pos(p2, current), p2.len() as int)] == n2); }
    }
@at loop 0 end
    proof {
        let used = off0.take(kk);
        assert(offspring@ =~= off0.update(kk, current));
        assert(offspring@.take(kk) =~= used);
        assert(visited@ =~= used.to_set());
        assert(scx_rule(p1, p2, offspring@, kk));
        assert forall|k: int| 1 <= k < kk + 1 implies scx_rule(p1, p2, offspring@, k) by {
            if k < kk { assert(scx_rule(p1, p2, off0, k)); assert(offspring@.take(k) =~= off0.take(k)); }
        }
        assert(!used.contains(current));
        assert(offspring@.take(kk + 1) =~= used.push(current));
    }
@at tail
    proof { assert(offspring@.take(p1.len() as int) =~= offspring@); lemma_full(p1, offspring@); }
@clo 0
 -> (r: bool) ensures r == !visited@.contains(**gene)
%%fn sequential_constructive_crossover panics nodecreases as=vx_rejects_scx
@spec
    requires parent1@.len() != parent2@.len(), lawful_eq::<G>(), lawful_hash::<G>(),
    ensures false,
