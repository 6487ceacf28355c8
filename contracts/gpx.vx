%%prelude core hash perm
%%include adj
%%include parts
%%raw
pub proof fn lemma_flat_push<G>(r: Seq<Seq<G>>, p: Seq<G>)
    ensures flat(r.push(p)) == flat(r) + p,
{ assert(r.push(p).drop_last() =~= r); }
pub proof fn lemma_filtered_all<T>(s: Seq<T>, keep: Seq<bool>, r: Seq<T>)
    requires filtered(s, keep, r), forall|i: int| 0 <= i < keep.len() ==> keep[i],
    ensures r == s,
    decreases s.len(),
{
    if s.len() > 0 { lemma_filtered_all(s.drop_last(), keep.drop_last(), r.drop_last()); assert(r =~= r.drop_last().push(r.last())); assert(s =~= s.drop_last().push(s.last())); } else { assert(r =~= s); }
}
/// partitions k and l of a duplicate-free concatenation share no gene
pub proof fn lemma_flat_contains<G>(r: Seq<Seq<G>>, k: int, j: int)
    requires 0 <= k < r.len(), 0 <= j < r[k].len(),
    ensures flat(r).contains(r[k][j]),
    decreases r.len(),
{
    let f = flat(r); let d = flat(r.drop_last());
    if k == r.len() - 1 { assert(f[d.len() + j] == r[k][j]); } else {
        lemma_flat_contains(r.drop_last(), k, j);
        let m = choose|m: int| 0 <= m < d.len() && d[m] == r[k][j]; assert(f[m] == r[k][j]);
    }
}
pub proof fn lemma_disjoint<G>(r: Seq<Seq<G>>, k: int, i: int, l: int, j: int)
    requires flat(r).no_duplicates(), 0 <= k < r.len(), 0 <= l < r.len(), k != l, 0 <= i < r[k].len(), 0 <= j < r[l].len(),
    ensures r[k][i] != r[l][j],
    decreases r.len(),
{
    let f = flat(r); let d = r.drop_last();
    assert(flat(d).no_duplicates()) by { assert forall|x: int, y: int| 0 <= x < y < flat(d).len() implies flat(d)[x] != flat(d)[y] by { assert(f[x] == flat(d)[x] && f[y] == flat(d)[y]); } }
    if k < d.len() && l < d.len() { lemma_disjoint(d, k, i, l, j); }
    else if k < d.len() { lemma_flat_contains(d, k, i); let m = choose|m: int| 0 <= m < flat(d).len() && flat(d)[m] == r[k][i]; assert(f[m] == r[k][i]); assert(f[flat(d).len() + j] == r[l][j]); }
    else { lemma_flat_contains(d, l, j); let m = choose|m: int| 0 <= m < flat(d).len() && flat(d)[m] == r[l][j]; assert(f[m] == r[l][j]); assert(f[flat(d).len() + i] == r[k][i]); }
}
pub proof fn lemma_part_nodup<G>(r: Seq<Seq<G>>, k: int, i: int, j: int)
    requires flat(r).no_duplicates(), 0 <= k < r.len(), 0 <= i < j < r[k].len(),
    ensures r[k][i] != r[k][j],
    decreases r.len(),
{
    let f = flat(r); let d = r.drop_last();
    assert(flat(d).no_duplicates()) by { assert forall|x: int, y: int| 0 <= x < y < flat(d).len() implies flat(d)[x] != flat(d)[y] by { assert(f[x] == flat(d)[x] && f[y] == flat(d)[y]); } }
    if k < d.len() { lemma_part_nodup(d, k, i, j); } else { assert(f[flat(d).len() + i] == r[k][i]); assert(f[flat(d).len() + j] == r[k][j]); }
}
pub open spec fn pickseq<G>(parts: Seq<Seq<G>>, order: Seq<int>) -> Seq<Seq<G>> { Seq::new(order.len(), |t: int| parts[order[t]]) }
/// rem lists, each once, the partitions not placed in the first t steps
pub open spec fn remaining(m: int, order: Seq<int>, rem: Seq<int>) -> bool {
    &&& rem.no_duplicates() && order.no_duplicates()
    &&& forall|p: int| #[trigger] rem.contains(p) <==> 0 <= p < m && !order.contains(p)
    &&& forall|t: int| 0 <= t < order.len() ==> 0 <= #[trigger] order[t] < m
}
pub open spec fn shows<G>(parts: Seq<Seq<G>>, rem: Seq<int>, shown: Seq<Vec<G>>) -> bool {
    shown.len() == rem.len() && forall|i: int| #![trigger shown[i]] #![trigger rem[i]] 0 <= i < rem.len() ==> 0 <= rem[i] < parts.len() && shown[i]@ == parts[rem[i]]
}
pub open spec fn shown_last<G>(last: Option<&G>, placed: Seq<G>) -> bool { match last { Some(g) => placed.len() > 0 && *g == placed.last(), None => placed.len() == 0 } }
/// C06: step t asked the selection function with the gene placed last and exactly the partitions not yet placed, and placed the one it chose.
pub open spec fn gpx_step<G, F: FnMut(Option<&G>, &[Vec<G>]) -> usize>(f: F, parts: Seq<Seq<G>>, order: Seq<int>, t: int) -> bool {
    exists|last: Option<&G>, shown: &[Vec<G>], idx: usize, rem: Seq<int>| #![trigger call_ensures(f, (last, shown), idx), remaining(parts.len() as int, order.take(t), rem)]
        call_ensures(f, (last, shown), idx) && remaining(parts.len() as int, order.take(t), rem) && shows(parts, rem, shown@)
        && shown_last(last, flat(pickseq(parts, order.take(t)))) && idx < rem.len() && rem[idx as int] == order[t]
}
pub open spec fn is_gpx<G: PartialOrd, F: FnMut(Option<&G>, &[Vec<G>]) -> usize>(f: F, g1: Seq<G>, g2: Seq<G>, r: Seq<G>) -> bool {
    exists|parts: Seq<Seq<G>>, order: Seq<int>| #[trigger] is_common_partitions(g1, g2, parts) && #[trigger] flat(pickseq(parts, order)) == r
        && remaining(parts.len() as int, order, Seq::empty())
        && forall|t: int| 0 <= t < order.len() ==> gpx_step(f, parts, #[trigger] order.take(t + 1), t)
}
pub proof fn lemma_take_choose(m: int, order: Seq<int>, rem: Seq<int>, i: int, rem2: Seq<int>)
    requires remaining(m, order, rem), 0 <= i < rem.len(), rem2 == rem.update(i, rem.last()).drop_last(),
    ensures remaining(m, order.push(rem[i]), rem2),
{
    let x = rem[i]; let o2 = order.push(x);
    assert(rem.contains(x));
    lemma_push_set(order, x);
    assert(rem2.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < b < rem2.len() implies rem2[a] != rem2[b] by { let n = rem.len() - 1; if a == i { assert(rem[b] != rem[n]); } else if b == i { assert(rem[a] != rem[n]); } else { assert(rem[a] != rem[b]); } } }
    assert forall|p: int| #[trigger] rem2.contains(p) <==> 0 <= p < m && !o2.contains(p) by {
        if rem2.contains(p) { let j = choose|j: int| 0 <= j < rem2.len() && rem2[j] == p; if j == i { assert(rem[rem.len() - 1] == p); } else { assert(rem[j] == p); } assert(rem.contains(p)); assert(p != x); }
        if 0 <= p < m && !o2.contains(p) {
            assert(!order.contains(p)); assert(rem.contains(p));
            let j = choose|j: int| 0 <= j < rem.len() && rem[j] == p;
            assert(p != x);
            if j == rem.len() - 1 { assert(i != j); assert(rem2[i] == p); } else { assert(rem2[j] == p); }
        }
    }
    assert forall|t: int| 0 <= t < o2.len() implies 0 <= #[trigger] o2[t] < m by { if t < order.len() { assert(o2[t] == order[t]); } }
}
pub open spec fn in_order<G>(parts: Seq<Seq<G>>, order: Seq<int>, g: G) -> bool {
    exists|t: int, i: int| 0 <= t < order.len() && 0 <= i < parts[order[t]].len() && #[trigger] parts[order[t]][i] == g
}
pub proof fn lemma_flat_len_bound<G>(parts: Seq<Seq<G>>, order: Seq<int>)
    requires flat(parts).no_duplicates(), forall|t: int| 0 <= t < order.len() ==> 0 <= #[trigger] order[t] < parts.len(), order.no_duplicates(),
    ensures flat(pickseq(parts, order)).no_duplicates(),
        forall|j: int| 0 <= j < flat(pickseq(parts, order)).len() ==> in_order(parts, order, #[trigger] flat(pickseq(parts, order))[j]),
    decreases order.len(),
{
    let f = flat(pickseq(parts, order));
    if order.len() > 0 {
        let o1 = order.drop_last(); let f1 = flat(pickseq(parts, o1));
        assert(pickseq(parts, order).drop_last() =~= pickseq(parts, o1));
        assert(o1.no_duplicates());
        assert forall|t: int| 0 <= t < o1.len() implies 0 <= #[trigger] o1[t] < parts.len() by { assert(o1[t] == order[t]); }
        lemma_flat_len_bound(parts, o1);
        let k = order.last(); let p = parts[k];
        assert(f =~= f1 + p);
        assert forall|j: int| 0 <= j < f.len() implies in_order(parts, order, #[trigger] f[j]) by {
            if j < f1.len() { assert(f1[j] == f[j]); let (t, i) = choose|t: int, i: int| 0 <= t < o1.len() && 0 <= i < parts[o1[t]].len() && #[trigger] parts[o1[t]][i] == f1[j]; assert(o1[t] == order[t]); assert(parts[order[t]][i] == f[j]); }
            else { assert(parts[order[order.len() - 1]][j - f1.len()] == f[j]); }
        }
        assert forall|x: int, y: int| 0 <= x < y < f.len() implies f[x] != f[y] by {
            if y < f1.len() { assert(f1[x] != f1[y]); }
            else if x >= f1.len() { lemma_part_nodup(parts, k, x - f1.len(), y - f1.len()); }
            else { assert(f1[x] == f[x]); let (t, i) = choose|t: int, i: int| 0 <= t < o1.len() && 0 <= i < parts[o1[t]].len() && #[trigger] parts[o1[t]][i] == f1[x];
                assert(o1[t] == order[t]); assert(order[t] != order[order.len() - 1]); lemma_disjoint(parts, o1[t], i, k, y - f1.len()); }
        }
        assert(forall|j: int| 0 <= j < flat(pickseq(parts, order)).len() ==> in_order(parts, order, #[trigger] flat(pickseq(parts, order))[j]));
    } else { assert(flat(pickseq(parts, order)) =~= Seq::empty()); }
}
pub proof fn lemma_gpx_perm<G: PartialOrd>(g1: Seq<G>, g2: Seq<G>, parts: Seq<Seq<G>>, order: Seq<int>)
    requires is_common_partitions(g1, g2, parts), remaining(parts.len() as int, order, Seq::empty()),
    ensures same_genes(flat(pickseq(parts, order)), g1),
{
    let f = flat(pickseq(parts, order));
    lemma_flat_len_bound(parts, order);
    assert forall|g: G| #[trigger] f.contains(g) <==> flat(parts).contains(g) by {
        if f.contains(g) { let j = choose|j: int| 0 <= j < f.len() && f[j] == g;
            let (t, i) = choose|t: int, i: int| 0 <= t < order.len() && 0 <= i < parts[order[t]].len() && #[trigger] parts[order[t]][i] == f[j];
            lemma_flat_contains(parts, order[t], i); }
        if flat(parts).contains(g) {
            lemma_flat_find(parts, g);
            let (k, i) = choose|k: int, i: int| 0 <= k < parts.len() && 0 <= i < parts[k].len() && #[trigger] parts[k][i] == g;
            assert(!Seq::<int>::empty().contains(k));
            assert(order.contains(k));
            let t = choose|t: int| 0 <= t < order.len() && order[t] == k;
            assert(pickseq(parts, order)[t][i] == g);
            lemma_flat_contains(pickseq(parts, order), t, i);
        }
    }
    f.unique_seq_to_set(); flat(parts).unique_seq_to_set();
    assert(f.to_set() =~= flat(parts).to_set()) by { assert forall|g: G| f.to_set().contains(g) <==> flat(parts).to_set().contains(g) by { assert(f.contains(g) <==> flat(parts).contains(g)); } }
    assert forall|g: G| #[trigger] f.contains(g) <==> g1.contains(g) by { assert(f.contains(g) <==> flat(parts).contains(g)); assert(flat(parts).contains(g) <==> g1.contains(g)); }
}
pub proof fn lemma_flat_find<G>(r: Seq<Seq<G>>, g: G)
    requires flat(r).contains(g),
    ensures exists|k: int, i: int| 0 <= k < r.len() && 0 <= i < r[k].len() && #[trigger] r[k][i] == g,
    decreases r.len(),
{
    let f = flat(r);
    if r.len() > 0 {
        let d = r.drop_last();
        let m = choose|m: int| 0 <= m < f.len() && f[m] == g;
        if m < flat(d).len() { assert(flat(d)[m] == g); lemma_flat_find(d, g); let (k, i) = choose|k: int, i: int| 0 <= k < d.len() && 0 <= i < d[k].len() && #[trigger] d[k][i] == g; assert(r[k][i] == g); }
        else { assert(r[r.len() - 1][m - flat(d).len()] == g); }
    }
}
%%fn common_partitions assume
@spec
    requires lawful_eq::<G>(), lawful_lt::<G>(), lawful_hash::<G>(), lawful_hash::<(G, G)>(), genome1@.no_duplicates(), genome2@.no_duplicates(),
    ensures is_common_partitions(genome1@, genome2@, views(r@)),
%%fn generalized_partition_2_crossover
@spec
    requires lawful_eq::<G>(), lawful_lt::<G>(), lawful_hash::<G>(), lawful_hash::<(G, G)>(), parent1@.no_duplicates(), parent2@.no_duplicates(),
        forall|l: Option<&G>, s: &[Vec<G>]| s@.len() > 0 ==> #[trigger] partition_selector.requires((l, s)),
        forall|l: Option<&G>, s: &[Vec<G>], i: usize| s@.len() > 0 && #[trigger] partition_selector.ensures((l, s), i) ==> i < s@.len(),
    ensures
        same_genes(r@, parent1@),
        is_gpx(partition_selector, parent1@, parent2@, r@),
@at start
    let ghost g1 = parent1@; let ghost g2 = parent2@; let ghost f0 = partition_selector;
    let ghost mut order: Seq<int> = Seq::empty();
@at after let partitions 0
    let ghost parts = views(partitions@); let ghost mut rem: Seq<int> = Seq::new(parts.len(), |i: int| i); let ghost m0 = parts.len() as int;
    proof {
        assert forall|p: int| #[trigger] rem.contains(p) <==> 0 <= p < m0 && !order.contains(p) by { if 0 <= p < m0 { assert(rem[p] == p); } }
        assert(pickseq(parts, order) =~= Seq::empty());
        assert(offspring@ =~= flat(pickseq(parts, order)));
    }
@loop 0
    invariant
        remaining(m0, order, rem), shows(parts, rem, partitions@), offspring@ == flat(pickseq(parts, order)),
        forall|t: int| 0 <= t < order.len() ==> gpx_step(f0, parts, #[trigger] order.take(t + 1), t),
        is_common_partitions(g1, g2, parts), m0 == parts.len(), f0 == partition_selector,
        forall|l: Option<&G>, s: &[Vec<G>]| s@.len() > 0 ==> #[trigger] partition_selector.requires((l, s)),
        forall|l: Option<&G>, s: &[Vec<G>], i: usize| s@.len() > 0 && #[trigger] partition_selector.ensures((l, s), i) ==> i < s@.len(),
    decreases rem.len(),
@at loop 0 start
    let ghost shown = partitions@; let ghost off0 = offspring@; let ghost order0 = order; let ghost rem0 = rem;
@at after let partition 0
    let ghost sel = partition_index as int; let ghost part = partition@; let ghost after0 = partitions@;
    proof {
        assert(shown[sel]@ == parts[rem0[sel]]);
        order = order0.push(rem0[sel]);
        rem = rem0.update(sel, rem0.last()).drop_last();
        lemma_take_choose(m0, order0, rem0, sel, rem);
        assert(order.take(order0.len() as int) =~= order0);
        assert(order.take(order0.len() as int + 1) =~= order);
        assert(gpx_step(f0, parts, order, order0.len() as int));
        assert forall|t: int| 0 <= t < order.len() implies gpx_step(f0, parts, #[trigger] order.take(t + 1), t) by {
            if t < order0.len() { assert(order.take(t + 1) =~= order0.take(t + 1)); }
        }
        assert(shows(parts, rem, partitions@)) by {
            assert forall|i: int| #![trigger partitions@[i]] #![trigger rem[i]] 0 <= i < rem.len() implies 0 <= rem[i] < parts.len() && partitions@[i]@ == parts[rem[i]] by {
                let n = rem0.len() - 1;
                assert(shown[n]@ == parts[rem0[n]]); assert(shown[i]@ == parts[rem0[i]]);
            }
        }
        assert(pickseq(parts, order) =~= pickseq(parts, order0).push(parts[rem0[sel]]));
        lemma_flat_push(pickseq(parts, order0), parts[rem0[sel]]);
    }
@loop 1
    invariant
        shows(parts, rem, partitions@), genes_in_selected_partition@ == part.to_set(),
        forall|i: int| 0 <= i < rem.len() ==> #[trigger] rem[i] != rem0[sel],
@at before loop 1
    proof { assert(genes_in_selected_partition@ =~= part.to_set());
        assert forall|i: int| 0 <= i < rem.len() implies #[trigger] rem[i] != rem0[sel] by { assert(rem.contains(rem[i])); assert(order.contains(rem0[sel])) by { assert(order[order0.len() as int] == rem0[sel]); } } }
@at loop 1 start
    let ghost sh0 = partitions@; let ghost ci = vx_k1 as int;
@at loop 1 end
    proof {
        let k = rem[ci];
        let keep = choose|keep: Seq<bool>| #[trigger] filtered(sh0[ci]@, keep, partitions@[ci]@)
            && forall|i: int| 0 <= i < sh0[ci]@.len() ==> keep[i] == !part.to_set().contains(#[trigger] sh0[ci]@[i]);
        assert forall|i: int| 0 <= i < keep.len() implies keep[i] by {
            let g = sh0[ci]@[i];
            if part.contains(g) { let j = choose|j: int| 0 <= j < part.len() && part[j] == g; lemma_disjoint(parts, k, i, rem0[sel], j); }
        }
        lemma_filtered_all(sh0[ci]@, keep, partitions@[ci]@);
    }
@at before retain 1
    let ghost sh1 = partitions@;
@at after retain 1
    proof {
        let keep = choose|keep: Seq<bool>| #[trigger] filtered(sh1, keep, partitions@)
            && forall|i: int| 0 <= i < sh1.len() ==> keep[i] == ((#[trigger] sh1[i])@.len() != 0);
        assert forall|i: int| 0 <= i < keep.len() implies keep[i] by { assert(parts[rem[i]].len() > 0); }
        lemma_filtered_all(sh1, keep, partitions@);
    }
@clo 0
 -> (r: bool) ensures r == !genes_in_selected_partition@.contains(*gene)
@clo 1
 -> (r: bool) ensures r == (partition@.len() != 0)
@at tail
    proof {
        assert(rem =~= Seq::empty()) by { if rem.len() > 0 { } }
        assert(order.take(order.len() as int) =~= order);
        assert(forall|t: int| 0 <= t < order.len() ==> gpx_step(f0, parts, #[trigger] order.take(t + 1), t));
        lemma_gpx_perm(g1, g2, parts, order);
    }
