%%prelude core hash perm map
%%include filtered
%%raw
/// the two cyclic neighbours of gene g in s
pub open spec fn nbs<G>(s: Seq<G>, g: G) -> Set<G> { seq![s[pred(pos(s, g), s.len() as int)], s[succ(pos(s, g), s.len() as int)]].to_set() }
/// the distinct unused cyclic neighbours of g in either parent
pub open spec fn unused_nbs<G>(p1: Seq<G>, p2: Seq<G>, used: Seq<G>, g: G) -> Set<G> { nbs(p1, g).union(nbs(p2, g)).difference(used.to_set()) }
/// y is an unused neighbour of cur with the fewest unused neighbours of its own
pub open spec fn fewest<G>(p1: Seq<G>, p2: Seq<G>, used: Seq<G>, cur: G, y: G) -> bool {
    unused_nbs(p1, p2, used, cur).contains(y)
    && forall|z: G| #[trigger] unused_nbs(p1, p2, used, cur).contains(z) ==> unused_nbs(p1, p2, used, y).len() <= unused_nbs(p1, p2, used, z).len()
}
/// The rule of C02 for step t.
pub open spec fn erx_rule<G>(p1: Seq<G>, p2: Seq<G>, r: Seq<G>, t: int) -> bool {
    let used = r.take(t);
    if unused_nbs(p1, p2, used, r[t - 1]) =~= Set::empty() { first_unused(p1, used, r[t]) } else { fewest(p1, p2, used, r[t - 1], r[t]) }
}
/// the neighbour lists after the first c1 genes of p1 and c2 genes of p2
pub open spec fn built<G>(m: Map<G, HashSet<G>>, p1: Seq<G>, p2: Seq<G>, c1: int, c2: int) -> bool {
    &&& forall|g: G| #[trigger] m.contains_key(g) <==> (p1.contains(g) && (pos(p1, g) < c1 || pos(p2, g) < c2))
    &&& forall|g: G| #[trigger] m.contains_key(g) ==> m[g]@ =~= (if pos(p1, g) < c1 { nbs(p1, g) } else { Set::empty() }).union(if pos(p2, g) < c2 { nbs(p2, g) } else { Set::empty() })
}
pub open spec fn lists_ok<G>(m: Map<G, HashSet<G>>, p1: Seq<G>, p2: Seq<G>, used: Seq<G>) -> bool {
    forall|g: G| p1.contains(g) ==> #[trigger] m.contains_key(g) && m[g]@ =~= unused_nbs(p1, p2, used, g)
}
/// every neighbour of a gene is a gene
pub proof fn lemma_nbs_in<G>(p1: Seq<G>, p2: Seq<G>, used: Seq<G>, g: G, x: G)
    requires same_genes(p1, p2), p1.contains(g), unused_nbs(p1, p2, used, g).contains(x),
    ensures p1.contains(x), !used.contains(x),
{
    assert(p2.contains(g));
    let n = p1.len() as int;
    let (i, j) = (pos(p1, g), pos(p2, g));
    assert(0 <= i < n && 0 <= j < n);
    assert(p1.contains(p1[pred(i, n)]) && p1.contains(p1[succ(i, n)]));
    assert(p2.contains(p2[pred(j, n)]) && p2.contains(p2[succ(j, n)]));
}
/// one more gene and its neighbours entered into the lists
pub proof fn lemma_built_step<G>(m0: Map<G, HashSet<G>>, m1: Map<G, HashSet<G>>, p1: Seq<G>, p2: Seq<G>, second: bool, i0: int, nb: Set<G>)
    requires
        same_genes(p1, p2), 0 <= i0 < p1.len(),
        built(m0, p1, p2, if !second { i0 } else { p1.len() as int }, if !second { 0 } else { i0 }),
        ({ let g0 = (if second { p2 } else { p1 })[i0];
        &&& nb =~= nbs(if second { p2 } else { p1 }, g0)
        &&& m1.dom() == m0.dom().insert(g0)
        &&& forall|j: G| j != g0 && m0.contains_key(j) ==> #[trigger] m1[j] == m0[j]
        &&& m1[g0]@ == (if m0.contains_key(g0) { m0[g0]@ } else { Set::empty() }).union(nb) }),
    ensures built(m1, p1, p2, if !second { i0 + 1 } else { p1.len() as int }, if !second { 0 } else { i0 + 1 }),
{
    lemma_pos(p1, i0); lemma_pos(p2, i0);
    let n0 = p1.len() as int;
    let g0 = (if second { p2 } else { p1 })[i0];
    assert(p1.contains(g0) && p2.contains(g0)) by { assert(p1.contains(p1[i0]) && p2.contains(p2[i0])); }
    let (d1, d2) = (if !second { i0 + 1 } else { n0 }, if !second { 0 } else { i0 + 1 });
    assert forall|g: G| (#[trigger] m1.contains_key(g) <==> (p1.contains(g) && (pos(p1, g) < d1 || pos(p2, g) < d2))) by {
        assert(m1.contains_key(g) <==> g == g0 || m0.contains_key(g));
        if p1.contains(g) { assert(p2.contains(g)); assert(p1[pos(p1, g)] == g && p2[pos(p2, g)] == g); }
    }
    assert forall|g: G| #[trigger] m1.contains_key(g) implies m1[g]@ =~= (if pos(p1, g) < d1 { nbs(p1, g) } else { Set::empty() }).union(if pos(p2, g) < d2 { nbs(p2, g) } else { Set::empty() }) by {
        assert(m1.contains_key(g) <==> g == g0 || m0.contains_key(g));
        assert(p1.contains(g) && p2.contains(g));
        assert(p1[pos(p1, g)] == g && p2[pos(p2, g)] == g);
        if g != g0 { assert(m0.contains_key(g)); assert(m1[g] == m0[g]); }
    }
}
pub proof fn lemma_built_full<G>(m: Map<G, HashSet<G>>, p1: Seq<G>, p2: Seq<G>)
    requires same_genes(p1, p2), built(m, p1, p2, p1.len() as int, p1.len() as int),
    ensures lists_ok(m, p1, p2, Seq::<G>::empty()),
{
    assert(Seq::<G>::empty().to_set() =~= Set::<G>::empty());
    assert forall|g: G| p1.contains(g) implies #[trigger] m.contains_key(g) && m[g]@ =~= unused_nbs(p1, p2, Seq::<G>::empty(), g) by {
        assert(p2.contains(g)); assert(p1[pos(p1, g)] == g && p2[pos(p2, g)] == g);
        assert(m.contains_key(g));
    }
}
/// a placed gene leaves every list
pub proof fn lemma_lists_step<G>(m0: Map<G, HashSet<G>>, m1: Map<G, HashSet<G>>, p1: Seq<G>, p2: Seq<G>, off: Seq<G>, kk: int)
    requires 1 <= kk <= off.len(), lists_ok(m0, p1, p2, off.take(kk - 1)),
        m1.dom() == m0.dom(), forall|j: G| m0.contains_key(j) ==> (#[trigger] m1[j])@ == m0[j]@.remove(off[kk - 1]),
    ensures lists_ok(m1, p1, p2, off.take(kk)),
{
    lemma_take_step(off, kk - 1);
    let used = off.take(kk);
    assert forall|g: G| p1.contains(g) implies #[trigger] m1.contains_key(g) && m1[g]@ =~= unused_nbs(p1, p2, used, g) by {
        assert(m0.contains_key(g));
        assert(m1[g]@ == m0[g]@.remove(off[kk - 1]));
        assert(unused_nbs(p1, p2, used, g) =~= unused_nbs(p1, p2, off.take(kk - 1), g).remove(off[kk - 1]));
    }
}
/// the references in fs point at exactly the elements of un
pub open spec fn refs_of<G>(fs: Seq<&G>, un: Set<G>) -> bool {
    &&& forall|j: int| 0 <= j < fs.len() ==> un.contains(*#[trigger] fs[j])
    &&& forall|x: G| #[trigger] un.contains(x) ==> ref_to(fs, x)
}
pub open spec fn ref_to<G>(fs: Seq<&G>, x: G) -> bool { exists|i: int| 0 <= i < fs.len() && *#[trigger] fs[i] == x }
pub proof fn lemma_refs_iter<G>(vs: Seq<G>, ns: Seq<&G>, un: Set<G>)
    requires vs.to_set() == un, ns.len() == vs.len(), forall|i: int| 0 <= i < vs.len() ==> *(#[trigger] ns[i]) == vs[i],
    ensures refs_of(ns, un),
{
    assert forall|j: int| 0 <= j < ns.len() implies un.contains(*#[trigger] ns[j]) by { assert(vs.contains(vs[j])); assert(vs.to_set().contains(vs[j])); }
    assert forall|x: G| #[trigger] un.contains(x) implies ref_to(ns, x) by {
        assert(vs.to_set().contains(x));
        let j = choose|j: int| 0 <= j < vs.len() && vs[j] == x;
        assert(*ns[j] == x);
    }
}
/// filtering by a condition all of un satisfies keeps everything
pub proof fn lemma_refs_filter<G>(ns: Seq<&G>, keep: Seq<bool>, fs: Seq<&G>, un: Set<G>)
    requires refs_of(ns, un), filtered(ns, keep, fs), forall|i: int| 0 <= i < ns.len() ==> keep[i],
    ensures refs_of(fs, un),
{
    assert forall|i: int| 0 <= i < fs.len() implies un.contains(*#[trigger] fs[i]) by {
        lemma_filtered_from(ns, keep, fs, i);
        let j = choose|j: int| #[trigger] from_kept(ns, keep, fs[i], j);
        assert(un.contains(*ns[j]));
    }
    assert forall|x: G| #[trigger] un.contains(x) implies ref_to(fs, x) by {
        assert(ref_to(ns, x));
        let j = choose|j: int| 0 <= j < ns.len() && *#[trigger] ns[j] == x;
        lemma_filtered_to(ns, keep, fs, j);
        let i = choose|i: int| 0 <= i < fs.len() && fs[i] == ns[j];
        assert(*fs[i] == x);
    }
}
pub proof fn lemma_refs_min<G>(p1: Seq<G>, p2: Seq<G>, used: Seq<G>, cur: G, nl: Map<G, HashSet<G>>, fs: Seq<&G>, keys: Seq<usize>, p: int)
    requires same_genes(p1, p2), p1.contains(cur), lists_ok(nl, p1, p2, used), refs_of(fs, unused_nbs(p1, p2, used, cur)),
        first_min(keys, p), keys.len() == fs.len(), forall|j: int| 0 <= j < fs.len() ==> keys[j] == nl[*#[trigger] fs[j]]@.len(),
    ensures fewest(p1, p2, used, cur, *fs[p]),
{
    let un = unused_nbs(p1, p2, used, cur);
    assert(un.contains(*fs[p]));
    assert forall|z: G| #[trigger] un.contains(z) implies unused_nbs(p1, p2, used, *fs[p]).len() <= unused_nbs(p1, p2, used, z).len() by {
        assert(ref_to(fs, z));
        let i = choose|i: int| 0 <= i < fs.len() && *#[trigger] fs[i] == z;
        assert(keys[p] <= keys[i]);
        lemma_nbs_in(p1, p2, used, cur, z); lemma_nbs_in(p1, p2, used, cur, *fs[p]);
        assert(nl.contains_key(z) && nl.contains_key(*fs[p]));
    }
}
/// one more gene placed by the rule
pub proof fn lemma_erx_step<G>(p1: Seq<G>, p2: Seq<G>, off0: Seq<G>, off1: Seq<G>, kk: int, y: G)
    requires same_genes(p1, p2), 1 <= kk < off0.len(), off1 == off0.update(kk, y), p1.contains(off0[kk - 1]),
        off0.take(kk).no_duplicates(), forall|j: int| 0 <= j < kk ==> p1.contains(#[trigger] off0[j]),
        forall|t: int| 1 <= t < kk ==> #[trigger] erx_rule(p1, p2, off0, t),
        ({ let used = off0.take(kk);
           if unused_nbs(p1, p2, used, off0[kk - 1]) =~= Set::empty() { first_unused(p1, used, y) } else { fewest(p1, p2, used, off0[kk - 1], y) } }),
    ensures
        off1.take(kk) == off0.take(kk),
        off1.take(kk + 1).no_duplicates(), forall|j: int| 0 <= j < kk + 1 ==> p1.contains(#[trigger] off1[j]),
        forall|t: int| 1 <= t < kk + 1 ==> #[trigger] erx_rule(p1, p2, off1, t),
{
    let used = off0.take(kk);
    assert(off1.take(kk) =~= used);
    assert(p1.contains(y) && !used.contains(y)) by { if !(unused_nbs(p1, p2, used, off0[kk - 1]) =~= Set::empty()) { lemma_nbs_in(p1, p2, used, off0[kk - 1], y); } }
    lemma_take_step(off1, kk);
    assert forall|t: int| 1 <= t < kk + 1 implies #[trigger] erx_rule(p1, p2, off1, t) by { if t < kk { assert(erx_rule(p1, p2, off0, t)); assert(off1.take(t) =~= off0.take(t)); } }
}
%%fn edge_recombination_crossover lower:mapindex:gene
@spec
    requires lawful_eq::<G>(), lawful_hash::<G>(), same_genes(parent1@, parent2@), parent1@.contains(pivot) || parent1@.len() < 2,
    ensures
        parent1@.len() < 2 ==> r@ == parent1@,
        same_genes(r@, parent1@),
        parent1@.len() >= 2 ==> r@[0] == pivot && forall|t: int| 1 <= t < r@.len() ==> #[trigger] erx_rule(parent1@, parent2@, r@, t),
@at start
    hide(unused_nbs); hide(erx_rule); hide(fewest); hide(lists_ok); hide(built); hide(refs_of); hide(filtered); hide(first_min);
    let ghost p1 = parent1@; let ghost p2 = parent2@; let ghost n0 = p1.len() as int;
@at before loop 0
    proof { assert(built(neighbor_lists@, p1, p2, 0, 0)) by { reveal(built); } }
@loop 0
    invariant
        vx_s0@.len() == 2, vx_s0@[0]@ == p1, vx_s0@[1]@ == p2, n == n0, n0 >= 2, same_genes(p1, p2),
        built(neighbor_lists@, p1, p2, if vx_k0 >= 1 { n0 } else { 0 }, if vx_k0 >= 2 { n0 } else { 0 }),
@at loop 0 start
    let ghost gk = vx_k0 as int;
@loop 1
    invariant
        0 <= gk < 2, vx_k0 == gk + 1, genome@ == (if gk == 0 { p1 } else { p2 }), vx_s1@.len() == n0,
        forall|j: int| 0 <= j < n0 ==> (#[trigger] vx_s1@[j]).0 == j && *(vx_s1@[j].1) == genome@[j],
        built(neighbor_lists@, p1, p2, if gk == 0 { vx_k1 as int } else { n0 }, if gk == 0 { 0 } else { vx_k1 as int }),
@at loop 1 start
    let ghost m0 = neighbor_lists@; let ghost i0 = vx_k1 as int;
@at loop 1 end
    proof {
        assert(gene == genome@[i0]);
        lemma_pos(genome@, i0);
        assert(neighbors@ =~= seq![genome@[pred(i0, n0)], genome@[succ(i0, n0)]]);
        lemma_built_step(m0, neighbor_lists@, p1, p2, gk != 0, i0, neighbors@.to_set());
    }
@at after loop 0
    proof { lemma_built_full(neighbor_lists@, p1, p2); }
@loop 2
    invariant
        1 <= vx_k2 <= n0, n == n0, n0 >= 2, offspring@.len() == n0, same_genes(p1, p2), offspring@[0] == pivot,
        current == offspring@[vx_k2 - 1], p1.contains(current),
        offspring@.take(vx_k2 as int).no_duplicates(),
        forall|j: int| 0 <= j < vx_k2 ==> p1.contains(#[trigger] offspring@[j]),
        visited@ == offspring@.take(vx_k2 - 1).to_set(),
        lists_ok(neighbor_lists@, p1, p2, offspring@.take(vx_k2 - 1)),
        forall|t: int| 1 <= t < vx_k2 ==> #[trigger] erx_rule(p1, p2, offspring@, t),
@at before loop 2
    proof { assert(offspring@.take(0) =~= Seq::<G>::empty()); assert(offspring@.take(1) =~= seq![pivot]); assert(visited@ =~= offspring@.take(0).to_set()); }
@at loop 2 start
    let ghost off0 = offspring@; let ghost kk = vx_k2 as int; let ghost used = off0.take(kk);
    let ghost ml0 = neighbor_lists@; let ghost mut nl = neighbor_lists@; let ghost un = unused_nbs(p1, p2, used, current);
    let ghost mut ns: Seq<&G> = Seq::empty(); let ghost mut fs: Seq<&G> = Seq::empty();
    proof { lemma_take_step(off0, kk - 1); lemma_unused(p1, used); }
@at after values_mut
    proof {
        nl = neighbor_lists@;
        assert(visited@ =~= used.to_set());
        lemma_lists_step(ml0, nl, p1, p2, off0, kk);
        axiom_set_iteration(nl[current]);
        assert(nl.contains_key(current) && nl[current]@ =~= un) by { reveal(lists_ok); assert(p1.contains(current)); assert(nl.contains_key(current)); }
        assert forall|x: G| un.contains(x) implies #[trigger] nl.contains_key(x) && !used.contains(x) by { lemma_nbs_in(p1, p2, used, current, x); reveal(lists_ok); }
    }
@at call iter 2
    proof { ns = vx_v_iter_2@; lemma_refs_iter(nl[current].vx_seq(), ns, un); assert forall|j: int| 0 <= j < ns.len() implies un.contains(*#[trigger] ns[j]) && !visited@.contains(*ns[j]) by { reveal(refs_of); assert(nl.contains_key(*ns[j])); } }
@at call filter 0
    proof {
        fs = vx_v_filter_0@;
        let keep = choose|keep: Seq<bool>| #[trigger] filtered(ns, keep, fs) && forall|i: int| 0 <= i < ns.len() ==> keep[i] == !visited@.contains(*#[trigger] ns[i]);
        assert forall|i: int| 0 <= i < ns.len() implies keep[i] by { assert(!visited@.contains(*ns[i])); }
        lemma_refs_filter(ns, keep, fs, un);
        assert forall|j: int| 0 <= j < fs.len() implies nl.contains_key(*#[trigger] fs[j]) by { reveal(refs_of); assert(un.contains(*fs[j])); }
    }
@at call min_by_key 0
    proof {
        match vx_v_min_by_key_0 {
            Some(x) => {
                let (p, keys) = choose|p: int, keys: Seq<usize>| #[trigger] first_min(keys, p) && keys.len() == fs.len() && x == fs[p] && forall|j: int| 0 <= j < fs.len() ==> keys[j] == nl[*#[trigger] fs[j]]@.len();
                lemma_refs_min(p1, p2, used, current, nl, fs, keys, p);
                assert(un.contains(*x)) by { reveal(fewest); }
            }
            None => { assert(un =~= Set::empty()) by { reveal(refs_of); assert forall|x: G| !un.contains(x) by { if un.contains(x) { assert(ref_to(fs, x)); } } } }
        }
    }
@clo 0
 -> (r: bool) ensures r == !visited@.contains(**gene)
@clo 1
 -> (r: usize) requires neighbor_lists@.contains_key(**vx_p0) ensures r == neighbor_lists@[**vx_p0]@.len()
@clo 2
 -> (r: G) requires exists|i: int| 0 <= i < parent1@.len() && !visited@.contains(#[trigger] parent1@[i]) ensures first_unused(parent1@, used, r)
@clo 3
 -> (r: bool) ensures r == !visited@.contains(**gene)
@at loop 2 end
    proof {
        assert(offspring@ =~= off0.update(kk, current));
        lemma_erx_step(p1, p2, off0, offspring@, kk, current);
    }
@at tail
    proof { assert(offspring@.take(n0) =~= offspring@); lemma_full(p1, offspring@); }
%%fn edge_recombination_crossover panics nodecreases lower:mapindex:gene as=vx_rejects_erx
@spec
    requires parent1@.len() != parent2@.len(), lawful_eq::<G>(), lawful_hash::<G>(),
    ensures false,
@clo 1
 -> (r: usize) requires neighbor_lists@.contains_key(**vx_p0)
