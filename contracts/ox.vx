%%prelude core perm
%%raw
/// q without the genes of seg, in order
pub open spec fn outside<G>(q: Seq<G>, seg: Seq<G>) -> Seq<G>
    decreases q.len(),
{
    if q.len() == 0 { Seq::empty() } else {
        let rest = outside(q.drop_last(), seg);
        if seg.contains(q.last()) { rest } else { rest.push(q.last()) }
    }
}
/// s read cyclically from position b
pub open spec fn from_pos<G>(s: Seq<G>, b: int) -> Seq<G> { s.subrange(b, s.len() as int) + s.subrange(0, b) }
pub open spec fn cyc(i: int, n: int) -> int { if i < n { i } else { i - n } }
pub proof fn lemma_outside<G>(q: Seq<G>, seg: Seq<G>)
    ensures
        forall|g: G| #[trigger] outside(q, seg).contains(g) <==> q.contains(g) && !seg.contains(g),
        q.no_duplicates() ==> outside(q, seg).no_duplicates(),
        outside(q, seg).len() <= q.len(),
    decreases q.len(),
{
    if q.len() > 0 {
        let d = q.drop_last(); let rest = outside(d, seg); let o = outside(q, seg);
        lemma_outside(d, seg);
        assert(q =~= d.push(q.last()));
        assert forall|g: G| #[trigger] o.contains(g) <==> q.contains(g) && !seg.contains(g) by {
            if o.contains(g) { let i = choose|i: int| 0 <= i < o.len() && o[i] == g; if i < rest.len() { assert(rest[i] == g); assert(rest.contains(g));
                let j = choose|j: int| 0 <= j < d.len() && d[j] == g; assert(q[j] == g); } else { assert(q[q.len() - 1] == g); } }
            if q.contains(g) && !seg.contains(g) { let i = choose|i: int| 0 <= i < q.len() && q[i] == g;
                if i < d.len() { assert(d[i] == g); assert(rest.contains(g)); let j = choose|j: int| 0 <= j < rest.len() && rest[j] == g; assert(o[j] == g); }
                else { assert(o[o.len() - 1] == g); } }
        }
        if q.no_duplicates() {
            assert(d.no_duplicates());
            assert(!d.contains(q.last())) by { if d.contains(q.last()) { let i = choose|i: int| 0 <= i < d.len() && d[i] == q.last(); assert(q[i] == q[q.len() - 1]); } }
            assert(!rest.contains(q.last()));
            assert forall|i: int, j: int| 0 <= i < j < o.len() implies o[i] != o[j] by {
                if j < rest.len() { assert(rest[i] != rest[j]); } else { assert(rest[i] == o[i]); assert(rest.contains(rest[i])); }
            }
        }
    }
}
pub proof fn lemma_outside_prefix<G>(q: Seq<G>, seg: Seq<G>, t: int)
    requires 0 <= t < q.len(),
    ensures outside(q.take(t + 1), seg) == (if seg.contains(q[t]) { outside(q.take(t), seg) } else { outside(q.take(t), seg).push(q[t]) }),
{ assert(q.take(t + 1).drop_last() =~= q.take(t)); }
pub proof fn lemma_outside_len<G>(p: Seq<G>, q: Seq<G>, a: int, b: int)
    requires same_genes(p, q), 0 <= a <= b <= p.len(),
    ensures outside(q, p.subrange(a, b)).len() == p.len() - (b - a), same_genes(outside(q, p.subrange(a, b)) + p.subrange(a, b), p),
{
    let seg = p.subrange(a, b); let o = outside(q, seg); let u = o + seg;
    lemma_outside(q, seg);
    assert(seg.no_duplicates());
    assert forall|g: G| #[trigger] u.contains(g) <==> p.contains(g) by {
        if u.contains(g) { let i = choose|i: int| 0 <= i < u.len() && u[i] == g; if i < o.len() { assert(o.contains(o[i])); assert(q.contains(g)); } else { assert(p[a + i - o.len()] == g); } }
        if p.contains(g) { assert(q.contains(g));
            if seg.contains(g) { let j = choose|j: int| 0 <= j < seg.len() && seg[j] == g; assert(u[o.len() + j] == g); }
            else { assert(o.contains(g)); let j = choose|j: int| 0 <= j < o.len() && o[j] == g; assert(u[j] == g); } }
    }
    assert(u.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < j < u.len() implies u[i] != u[j] by {
            if i < o.len() && j >= o.len() { assert(o.contains(o[i])); assert(seg.contains(seg[j - o.len()])); }
        }
    }
    u.unique_seq_to_set(); p.unique_seq_to_set();
    assert(u.to_set() =~= p.to_set()) by {
        assert forall|g: G| u.to_set().contains(g) <==> p.to_set().contains(g) by { assert(u.contains(g) <==> p.contains(g)); }
    }
}
pub proof fn lemma_from_pos_genes<G>(s: Seq<G>, b: int)
    requires 0 <= b <= s.len(),
    ensures from_pos(s, b).len() == s.len(), s.no_duplicates() <==> from_pos(s, b).no_duplicates(), forall|g: G| #[trigger] s.contains(g) <==> from_pos(s, b).contains(g),
        forall|t: int| 0 <= t < s.len() ==> #[trigger] from_pos(s, b)[t] == s[cyc(b + t, s.len() as int)],
{
    let u = from_pos(s, b); let n = s.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] s[i] == u[if i >= b { i - b } else { i + n - b }] by { }
    if u.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < j < n implies s[i] != s[j] by {
            let x = if i >= b { i - b } else { i + n - b }; let y = if j >= b { j - b } else { j + n - b };
            assert(u[x] != u[y]);
        }
    }
    if s.no_duplicates() { assert(u.no_duplicates()); }
    assert forall|g: G| #[trigger] s.contains(g) <==> u.contains(g) by {
        if s.contains(g) { let i = choose|i: int| 0 <= i < n && s[i] == g; assert(u[if i >= b { i - b } else { i + n - b }] == g); }
        if u.contains(g) { let t = choose|t: int| 0 <= t < n && u[t] == g; assert(s[cyc(b + t, n)] == g); }
    }
}
/// Once all genes outside the segment are found, reading on adds nothing.
pub proof fn lemma_rest<G>(q: Seq<G>, seg: Seq<G>, t: int, m: int)
    requires 0 <= t <= q.len(), outside(q.take(t), seg).len() == m, outside(q, seg).len() == m,
    ensures outside(q.take(t), seg) == outside(q, seg),
    decreases q.len() - t,
{
    if t < q.len() {
        lemma_outside_prefix(q, seg, t);
        lemma_outside_mono(q, seg, t + 1);
        lemma_rest(q, seg, t + 1, m);
    } else { assert(q.take(t) =~= q); }
}
pub proof fn lemma_outside_mono<G>(q: Seq<G>, seg: Seq<G>, t: int)
    requires 0 <= t <= q.len(),
    ensures outside(q.take(t), seg).len() <= outside(q, seg).len(),
    decreases q.len() - t,
{
    if t < q.len() { lemma_outside_prefix(q, seg, t); lemma_outside_mono(q, seg, t + 1); } else { assert(q.take(t) =~= q); }
}
%%fn order_crossover
@spec
    requires lawful_eq::<G>(), same_genes(parent1@, parent2@), parent1@.len() < 2 || range.start <= range.end <= parent1@.len(),
    ensures
        parent1@.len() < 2 ==> r@ == parent1@,
        same_genes(r@, parent1@),
        parent1@.len() >= 2 ==> {
            &&& r@.subrange(range.start as int, range.end as int) == parent1@.subrange(range.start as int, range.end as int)
            &&& from_pos(r@, range.end as int) == outside(from_pos(parent2@, range.end as int), parent1@.subrange(range.start as int, range.end as int)) + parent1@.subrange(range.start as int, range.end as int)
        },
@at start
    let ghost g1 = parent1@; let ghost g2 = parent2@; let ghost a = range.start as int; let ghost b = range.end as int; let ghost n0 = g1.len() as int;
    let ghost q = from_pos(g2, b); let ghost seg = g1.subrange(a, b);
    let ghost mut t: int = 0;
@at before loop 0
    proof {
        lemma_from_pos_genes(g2, b);
        assert(same_genes(g1, q)) by { assert forall|g: G| #[trigger] g1.contains(g) <==> q.contains(g) by { assert(g2.contains(g) <==> q.contains(g)); } }
        lemma_outside_len(g1, q, a, b);
        assert(genome@.subrange(a, b) =~= seg);
        assert(q.take(0) =~= Seq::empty());
        assert(q.take(n0) =~= q);
    }
@loop 0
    invariant
        0 <= t <= n0, genome@.len() == n0, 0 <= index1 < n0, 0 <= index2 < n0,
        genome@.subrange(a, b) == seg,
        remaining + outside(q.take(t), seg).len() == n0 - (b - a),
        index2 == cyc(b + t, n0) || (t == n0 && index2 == cyc(b, n0)),
        remaining > 0 ==> index1 == cyc(b + outside(q.take(t), seg).len(), n0),
        forall|j: int| 0 <= j < outside(q.take(t), seg).len() ==> genome@[cyc(b + j, n0)] == #[trigger] outside(q.take(t), seg)[j],
    decreases n0 - t,
@at loop 0 start
    let ghost gen0 = genome@; let ghost f0 = outside(q.take(t), seg);
    proof {
        assert(t < n0);
        lemma_outside_prefix(q, seg, t);
        assert(q[t] == g2[index2 as int]);
        assert forall|g: G| seg.contains(g) <==> genome@.subrange(a, b).contains(g) by { }
    }
@at loop 0 end
    proof {
        t = t + 1;
        let f1 = outside(q.take(t), seg);
        assert(genome@.subrange(a, b) =~= seg) by {
            assert forall|i: int| a <= i < b implies genome@[i] == gen0[i] by { }
            assert forall|i: int| 0 <= i < b - a implies genome@.subrange(a, b)[i] == seg[i] by { assert(gen0.subrange(a, b)[i] == seg[i]); assert(gen0[a + i] == genome@[a + i]); }
        }
        assert forall|j: int| 0 <= j < f1.len() implies genome@[cyc(b + j, n0)] == #[trigger] f1[j] by {
            if j < f0.len() { assert(f0[j] == f1[j]); assert(gen0[cyc(b + j, n0)] == f0[j]); }
        }
    }
@at tail
    proof {
        let f = outside(q.take(t), seg);
        lemma_outside(q.take(t), seg);
        // the rest of q lies in the segment: f is already outside(q, seg)
        lemma_rest(q, seg, t, n0 - (b - a));
        assert(f == outside(q, seg));
        let u = f + seg;
        assert(from_pos(genome@, b) =~= u) by {
            lemma_from_pos_genes(genome@, b);
            assert forall|i: int| 0 <= i < n0 implies #[trigger] from_pos(genome@, b)[i] == u[i] by {
                if i < f.len() { assert(genome@[cyc(b + i, n0)] == f[i]); }
                else { let x = cyc(b + i, n0); assert(x == a + (i - f.len())); assert(genome@.subrange(a, b)[x - a] == seg[x - a]); }
            }
        }
        lemma_from_pos_genes(genome@, b);
        assert(same_genes(genome@, g1)) by {
            assert forall|g: G| #[trigger] genome@.contains(g) <==> g1.contains(g) by { assert(genome@.contains(g) <==> u.contains(g)); assert(u.contains(g) <==> g1.contains(g)); }
        }
    }
%%fn order_crossover panics nodecreases as=vx_rejects_ox
@spec
    requires parent1@.len() != parent2@.len(), lawful_eq::<G>(),
    ensures false,
