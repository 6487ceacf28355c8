// ---- permutation lemmas (all proved)
pub proof fn lemma_unused<G>(p: Seq<G>, pre: Seq<G>)
    requires p.no_duplicates(), pre.len() < p.len(),
    ensures exists|i: int| 0 <= i < p.len() && !pre.contains(#[trigger] p[i]),
{
    if forall|i: int| 0 <= i < p.len() ==> pre.contains(#[trigger] p[i]) {
        p.unique_seq_to_set();
        pre.lemma_cardinality_of_set();
        assert(p.to_set().subset_of(pre.to_set())) by {
            assert forall|g: G| p.to_set().contains(g) implies pre.to_set().contains(g) by {
                let i = choose|i: int| 0 <= i < p.len() && p[i] == g;
                assert(pre.contains(p[i]));
            }
        }
        vstd::set_lib::lemma_len_subset(p.to_set(), pre.to_set());
    }
}
/// n distinct genes of p in a sequence as long as p: all of p.
pub proof fn lemma_full<G>(p: Seq<G>, r: Seq<G>)
    requires p.no_duplicates(), r.no_duplicates(), r.len() == p.len(), forall|i: int| 0 <= i < r.len() ==> p.contains(#[trigger] r[i]),
    ensures same_genes(r, p),
{
    assert forall|g: G| #[trigger] r.contains(g) <==> p.contains(g) by {
        if r.contains(g) { let i = choose|i: int| 0 <= i < r.len() && r[i] == g; assert(p.contains(r[i])); }
        if p.contains(g) && !r.contains(g) {
            let j = choose|j: int| 0 <= j < p.len() && p[j] == g;
            let q = p.remove(j);
            assert(r.len() > q.len());
            assert(q.no_duplicates()) by { reveal(Seq::no_duplicates); };
            lemma_unused(r, q);
            let i = choose|i: int| 0 <= i < r.len() && !q.contains(#[trigger] r[i]);
            assert(p.contains(r[i]));
            let m = choose|m: int| 0 <= m < p.len() && p[m] == r[i];
            assert(m != j);
            if m < j { assert(q[m] == r[i]); } else { assert(q[m - 1] == r[i]); }
            assert(false);
        }
    }
}
pub proof fn lemma_same_genes_contains<G>(a: Seq<G>, b: Seq<G>, i: int)
    requires same_genes(a, b), 0 <= i < a.len(),
    ensures b.contains(a[i]),
{ assert(a.contains(a[i])); }
/// In a duplicate-free sequence the index of a gene is unique.
pub open spec fn pos<G>(s: Seq<G>, g: G) -> int { s.index_of(g) }
pub proof fn lemma_pos<G>(s: Seq<G>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len(),
    ensures pos(s, s[i]) == i,
{ assert(s.contains(s[i])); }
pub proof fn lemma_take_step<G>(s: Seq<G>, k: int)
    requires 0 <= k < s.len(),
    ensures forall|g: G| #[trigger] s.take(k + 1).contains(g) <==> (g == s[k] || s.take(k).contains(g)),
        s.take(k + 1) =~= s.take(k).push(s[k]),
        s.take(k + 1).to_set() =~= s.take(k).to_set().insert(s[k]),
        s.take(k).no_duplicates() && !s.take(k).contains(s[k]) ==> s.take(k + 1).no_duplicates(),
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    assert forall|g: G| #[trigger] s.take(k + 1).contains(g) <==> (g == s[k] || s.take(k).contains(g)) by {
        if s.take(k + 1).contains(g) {
            let t = s.take(k + 1); let i = choose|i: int| 0 <= i < t.len() && t[i] == g;
            if i < k { assert(s.take(k)[i] == g); }
        }
        if g == s[k] { assert(s.take(k + 1)[k] == g); }
        if s.take(k).contains(g) {
            let i = choose|i: int| 0 <= i < s.take(k).len() && s.take(k)[i] == g;
            assert(s.take(k + 1)[i] == g);
        }
    }
}
/// x is the first gene of p that is not in used
pub open spec fn first_unused<G>(p: Seq<G>, used: Seq<G>, x: G) -> bool {
    exists|j: int| 0 <= j < p.len() && #[trigger] p[j] == x && !used.contains(x) && forall|i: int| 0 <= i < j ==> used.contains(#[trigger] p[i])
}
pub proof fn lemma_push_set<G>(s: Seq<G>, x: G)
    ensures s.push(x).to_set() == s.to_set().insert(x), forall|g: G| #[trigger] s.push(x).contains(g) <==> g == x || s.contains(g),
        s.no_duplicates() && !s.contains(x) ==> s.push(x).no_duplicates(),
{
    let t = s.push(x);
    assert forall|g: G| #[trigger] t.contains(g) <==> g == x || s.contains(g) by {
        if t.contains(g) { let i = choose|i: int| 0 <= i < t.len() && t[i] == g; if i < s.len() { assert(s[i] == g); } }
        if s.contains(g) { let i = choose|i: int| 0 <= i < s.len() && s[i] == g; assert(t[i] == g); }
        assert(t[s.len() as int] == x);
    }
    assert(t.to_set() =~= s.to_set().insert(x));
}
/// Distinct genes of p: no more than p has.
pub proof fn lemma_distinct_len<G>(p: Seq<G>, s: Seq<G>)
    requires p.no_duplicates(), s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> p.contains(#[trigger] s[i]),
    ensures s.len() <= p.len(),
{
    if s.len() > p.len() {
        lemma_unused(s, p);
    }
}
