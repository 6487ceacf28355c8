%%prelude core perm
%%include find_position
%%raw
/// The position a cycle visits after i: fp follows p1's gene into p2, !fp follows p2's gene into p1.
pub open spec fn sg<G>(p1: Seq<G>, p2: Seq<G>, fp: bool, i: int) -> int { if fp { pos(p2, p1[i]) } else { pos(p1, p2[i]) } }
pub open spec fn walk<G>(p1: Seq<G>, p2: Seq<G>, fp: bool, w: Seq<int>) -> bool { w.len() >= 1 && forall|k: int| 0 <= k < w.len() - 1 ==> #[trigger] w[k + 1] == sg(p1, p2, fp, w[k]) }
pub open spec fn same_cycle<G>(p1: Seq<G>, p2: Seq<G>, m: int, i: int) -> bool { exists|fp: bool, w: Seq<int>| #[trigger] walk(p1, p2, fp, w) && w[0] == m && w.last() == i }
/// cyc numbers the position cycles of (p1, p2) by their smallest positions, listed in starts.
pub open spec fn cycles<G>(p1: Seq<G>, p2: Seq<G>, cyc: Seq<int>, starts: Seq<int>) -> bool {
    &&& cyc.len() == p1.len()
    &&& forall|l: int, m: int| 0 <= l < m < starts.len() ==> #[trigger] starts[l] < #[trigger] starts[m]
    &&& forall|l: int| 0 <= l < starts.len() ==> 0 <= #[trigger] starts[l] < p1.len() && cyc[starts[l]] == l
    &&& forall|i: int| 0 <= i < p1.len() ==> 0 <= #[trigger] cyc[i] < starts.len() && starts[cyc[i]] <= i && same_cycle(p1, p2, starts[cyc[i]], i)
    &&& forall|i: int| 0 <= i < p1.len() ==> cyc[#[trigger] sg(p1, p2, true, i)] == cyc[i]
}
pub proof fn lemma_sg<G>(p1: Seq<G>, p2: Seq<G>, fp: bool, i: int)
    requires same_genes(p1, p2), 0 <= i < p1.len(),
    ensures 0 <= sg(p1, p2, fp, i) < p1.len(), sg(p1, p2, !fp, sg(p1, p2, fp, i)) == i,
        (if fp { p2[sg(p1, p2, fp, i)] == p1[i] } else { p1[sg(p1, p2, fp, i)] == p2[i] }),
{
    if fp { assert(p1.contains(p1[i])); assert(p2.contains(p1[i])); lemma_pos(p1, i); } else { assert(p2.contains(p2[i])); assert(p1.contains(p2[i])); lemma_pos(p2, i); }
}
pub proof fn lemma_bounded_distinct(w: Seq<int>, n: int)
    requires w.no_duplicates(), n >= 0, forall|k: int| 0 <= k < w.len() ==> 0 <= #[trigger] w[k] < n,
    ensures w.len() <= n,
{
    let all = Seq::new(n as nat, |t: int| t);
    if w.len() > n {
        lemma_unused(w, all);
        let t = choose|t: int| 0 <= t < w.len() && !all.contains(#[trigger] w[t]);
        assert(all[w[t]] == w[t]);
    }
}
pub proof fn lemma_cx_perm<G>(p1: Seq<G>, p2: Seq<G>, cyc: Seq<int>, starts: Seq<int>, r: Seq<G>)
    requires same_genes(p1, p2), cycles(p1, p2, cyc, starts), r.len() == p1.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (if cyc[i] % 2 == 0 { p1[i] } else { p2[i] }),
    ensures same_genes(r, p1),
{
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by {
        if r[i] == r[j] {
            if cyc[i] % 2 == 0 && cyc[j] % 2 == 1 { lemma_sg(p1, p2, true, i); assert(p2[sg(p1, p2, true, i)] == p2[j]); assert(sg(p1, p2, true, i) == j); }
            if cyc[j] % 2 == 0 && cyc[i] % 2 == 1 { lemma_sg(p1, p2, true, j); assert(p2[sg(p1, p2, true, j)] == p2[i]); assert(sg(p1, p2, true, j) == i); }
        }
    }
    assert forall|i: int| 0 <= i < r.len() implies p1.contains(#[trigger] r[i]) by { assert(p2.contains(p2[i])); assert(p1.contains(p1[i])); }
    lemma_full(p1, r);
}
/// State between cycles.
pub open spec fn cx_inv<G>(p1: Seq<G>, p2: Seq<G>, visited: Seq<bool>, off: Seq<G>, cyc: Seq<int>, starts: Seq<int>) -> bool {
    &&& visited.len() == p1.len() && off.len() == p1.len() && cyc.len() == p1.len()
    &&& forall|l: int, m: int| 0 <= l < m < starts.len() ==> #[trigger] starts[l] < #[trigger] starts[m]
    &&& forall|l: int| 0 <= l < starts.len() ==> 0 <= #[trigger] starts[l] < p1.len() && visited[starts[l]] && cyc[starts[l]] == l
    &&& forall|i: int| 0 <= i < p1.len() && visited[i] ==> 0 <= #[trigger] cyc[i] < starts.len() && starts[cyc[i]] <= i && same_cycle(p1, p2, starts[cyc[i]], i)
    &&& forall|i: int, fp: bool| 0 <= i < p1.len() && visited[i] ==> visited[#[trigger] sg(p1, p2, fp, i)] && cyc[sg(p1, p2, fp, i)] == cyc[i]
    &&& forall|i: int| 0 <= i < p1.len() && visited[i] ==> #[trigger] off[i] == (if cyc[i] % 2 == 0 { p1[i] } else { p2[i] })
}
/// State within a cycle: w are its positions so far.
pub open spec fn cx_walk<G>(p1: Seq<G>, p2: Seq<G>, fp: bool, start: int, index: int, w: Seq<int>, v0: Seq<bool>, off0: Seq<G>, visited: Seq<bool>, off: Seq<G>) -> bool {
    &&& visited.len() == p1.len() && off.len() == p1.len()
    &&& 0 <= index < p1.len()
    &&& w.no_duplicates()
    &&& forall|k: int| 0 <= k < w.len() ==> 0 <= #[trigger] w[k] < p1.len() && !v0[w[k]]
    &&& (if w.len() == 0 { index == start } else { w[0] == start && walk(p1, p2, fp, w) && index == sg(p1, p2, fp, w.last()) })
    &&& forall|i: int| 0 <= i < p1.len() ==> #[trigger] visited[i] == (v0[i] || w.contains(i))
    &&& forall|i: int| 0 <= i < p1.len() ==> #[trigger] off[i] == (if w.contains(i) { if fp { p1[i] } else { p2[i] } } else { off0[i] })
}
pub proof fn lemma_cx_step<G>(p1: Seq<G>, p2: Seq<G>, fp: bool, start: int, index: int, w: Seq<int>, v0: Seq<bool>, off0: Seq<G>, visited: Seq<bool>, off: Seq<G>, index2: int, visited2: Seq<bool>, off2: Seq<G>)
    requires same_genes(p1, p2), cx_walk(p1, p2, fp, start, index, w, v0, off0, visited, off), !visited[index],
        visited2 == visited.update(index, true), off2 == off.update(index, if fp { p1[index] } else { p2[index] }), index2 == sg(p1, p2, fp, index),
    ensures cx_walk(p1, p2, fp, start, index2, w.push(index), v0, off0, visited2, off2), w.len() < p1.len(),
{
    let w2 = w.push(index);
    lemma_sg(p1, p2, fp, index);
    assert(!w.contains(index));
    assert(w2.no_duplicates());
    assert(walk(p1, p2, fp, w2));
    assert forall|i: int| #[trigger] w2.contains(i) <==> (w.contains(i) || i == index) by {
        if w2.contains(i) { let k = choose|k: int| 0 <= k < w2.len() && w2[k] == i; if k < w.len() { assert(w[k] == i); } }
        if w.contains(i) { let k = choose|k: int| 0 <= k < w.len() && w[k] == i; assert(w2[k] == i); }
        assert(w2[w.len() as int] == index);
    }
    lemma_bounded_distinct(w2, p1.len() as int);
}
pub proof fn lemma_cx_close<G>(p1: Seq<G>, p2: Seq<G>, fp: bool, start: int, index: int, w: Seq<int>, v0: Seq<bool>, off0: Seq<G>, visited: Seq<bool>, off: Seq<G>, cyc: Seq<int>, starts: Seq<int>) -> (cyc2: Seq<int>)
    requires same_genes(p1, p2), cx_inv(p1, p2, v0, off0, cyc, starts), cx_walk(p1, p2, fp, start, index, w, v0, off0, visited, off), visited[index], 0 <= start < p1.len(), !v0[start],
        fp == (starts.len() % 2 == 0), forall|i: int| 0 <= i < start ==> v0[i], forall|l: int| 0 <= l < starts.len() ==> #[trigger] starts[l] <= start,
    ensures cx_inv(p1, p2, visited, off, cyc2, starts.push(start)),
        forall|i: int| 0 <= i <= start ==> visited[i],
{
    let n = p1.len() as int; let lab = starts.len() as int;
    assert(w.len() > 0);
    lemma_sg(p1, p2, fp, w.last());
    // the walk ends where it began
    if v0[index] { assert(v0[sg(p1, p2, !fp, index)]); assert(false); }
    let s = choose|s: int| 0 <= s < w.len() && w[s] == index;
    if s > 0 { assert(w[(s - 1) + 1] == sg(p1, p2, fp, w[s - 1])); lemma_sg(p1, p2, fp, w[s - 1]); assert(w[s - 1] == w.last()); assert(false); }
    assert(index == start);
    let cyc2 = Seq::new(n as nat, |i: int| if w.contains(i) { lab } else { cyc[i] });
    let starts2 = starts.push(start);
    assert(w.contains(start)) by { assert(w[0] == start); }
    assert forall|i: int, f: bool| 0 <= i < n && visited[i] implies visited[#[trigger] sg(p1, p2, f, i)] && cyc2[sg(p1, p2, f, i)] == cyc2[i] by {
        lemma_sg(p1, p2, f, i);
        let j = sg(p1, p2, f, i);
        if w.contains(i) {
            let k = choose|k: int| 0 <= k < w.len() && w[k] == i;
            if f == fp {
                if k + 1 < w.len() { assert(w[k + 1] == j); assert(w.contains(j)); } else { assert(j == start); }
            } else {
                if k > 0 { assert(w[(k - 1) + 1] == sg(p1, p2, fp, w[k - 1])); lemma_sg(p1, p2, fp, w[k - 1]); assert(j == w[k - 1]); assert(w.contains(j)); }
                else { assert(j == w.last()); assert(w.contains(w.last())); }
            }
        } else {
            assert(v0[i]); assert(v0[j]);
            if w.contains(j) { let k = choose|k: int| 0 <= k < w.len() && w[k] == j; assert(!v0[w[k]]); }
        }
    }
    assert forall|i: int| 0 <= i < n && visited[i] implies 0 <= #[trigger] cyc2[i] < starts2.len() && starts2[cyc2[i]] <= i && same_cycle(p1, p2, starts2[cyc2[i]], i) by {
        if w.contains(i) {
            let k = choose|k: int| 0 <= k < w.len() && w[k] == i;
            assert(walk(p1, p2, fp, w.take(k + 1)));
            assert(w.take(k + 1)[0] == start && w.take(k + 1).last() == i);
            assert(!v0[w[k]]);
        } else { assert(v0[i]); assert(0 <= cyc[i] < starts.len()); assert(starts2[cyc[i]] == starts[cyc[i]]); }
    }
    assert forall|l: int| 0 <= l < starts2.len() implies 0 <= #[trigger] starts2[l] < p1.len() && visited[starts2[l]] && cyc2[starts2[l]] == l by {
        if l < starts.len() {
            assert(starts2[l] == starts[l]); assert(v0[starts[l]]);
            if w.contains(starts[l]) { let k = choose|k: int| 0 <= k < w.len() && w[k] == starts[l]; assert(!v0[w[k]]); }
        }
    }
    assert forall|l: int, m: int| 0 <= l < m < starts2.len() implies #[trigger] starts2[l] < #[trigger] starts2[m] by {
        if m < starts.len() { assert(starts[l] < starts[m]); } else {
            assert(starts[l] == starts2[l]); assert(v0[starts[l]]); assert(0 <= l < starts.len());
            assert(starts[l] <= start); assert(starts[l] != start);
        }
    }
    assert forall|i: int| 0 <= i < n && visited[i] implies #[trigger] off[i] == (if cyc2[i] % 2 == 0 { p1[i] } else { p2[i] }) by { if !w.contains(i) { assert(v0[i]); } }
    cyc2
}
%%fn cycle_crossover
@spec
    requires lawful_eq::<G>(), same_genes(parent1@, parent2@),
    ensures
        parent1@.len() < 2 ==> r@ == parent1@,
        same_genes(r@, parent1@),
        parent1@.len() >= 2 ==> exists|cyc: Seq<int>, starts: Seq<int>| #[trigger] cycles(parent1@, parent2@, cyc, starts)
            && forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (if cyc[i] % 2 == 0 { parent1@[i] } else { parent2@[i] }),
@at start
    let ghost p1 = parent1@; let ghost p2 = parent2@; let ghost n0 = p1.len() as int;
    let ghost mut cyc: Seq<int> = Seq::new(n0 as nat, |i: int| 0int);
    let ghost mut starts: Seq<int> = Seq::empty();
    let ghost mut w: Seq<int> = Seq::empty();
@loop 0
    invariant_except_break
        !visited@[cycle_start as int],
    invariant
        0 <= cycle_start < n0, cx_inv(p1, p2, visited@, offspring@, cyc, starts), first_parent == (starts.len() % 2 == 0),
        forall|i: int| 0 <= i < cycle_start ==> visited@[i],
        forall|l: int| 0 <= l < starts.len() ==> #[trigger] starts[l] <= cycle_start,
    ensures cx_inv(p1, p2, visited@, offspring@, cyc, starts), forall|i: int| 0 <= i < n0 ==> visited@[i],
    decreases n0 - cycle_start,
@at loop 0 start
    let ghost v0 = visited@; let ghost off0 = offspring@;
    proof { w = Seq::empty(); assert(!v0[cycle_start as int]); }
@loop 1
    invariant
        cx_walk(p1, p2, first_parent, cycle_start as int, index as int, w, v0, off0, visited@, offspring@),
    decreases n0 - w.len(),
@at loop 1 start
    let ghost idx0 = index as int; let ghost v1 = visited@; let ghost off1 = offspring@;
    proof { lemma_sg(p1, p2, first_parent, idx0); assert(p1.contains(p1[idx0]) && p2.contains(p2[idx0])); assert(p2.contains(p1[idx0]) && p1.contains(p2[idx0])); }
@at loop 1 end
    proof {
        if first_parent { lemma_pos(p2, index as int); } else { lemma_pos(p1, index as int); }
        lemma_cx_step(p1, p2, first_parent, cycle_start as int, idx0, w, v0, off0, v1, off1, index as int, visited@, offspring@);
        w = w.push(idx0);
    }
@at after loop 1
    proof {
        cyc = lemma_cx_close(p1, p2, first_parent, cycle_start as int, index as int, w, v0, off0, visited@, offspring@, cyc, starts);
        starts = starts.push(cycle_start as int);
    }
@clo 0
 -> (r: bool) ensures r == !*vx_p0
@at tail
    proof { assert(cycles(p1, p2, cyc, starts)); lemma_cx_perm(p1, p2, cyc, starts, offspring@); }
%%fn cycle_crossover panics nodecreases as=vx_rejects_cx
@spec
    requires parent1@.len() != parent2@.len(), lawful_eq::<G>(),
    ensures false,
