%%raw
pub open spec fn from_kept<T>(s: Seq<T>, keep: Seq<bool>, x: T, j: int) -> bool { 0 <= j < s.len() && j < keep.len() && keep[j] && s[j] == x }
/// every item of r is a kept item of s
pub open spec fn kept_item<T>(s: Seq<T>, keep: Seq<bool>, x: T) -> bool { exists|j: int| #[trigger] from_kept(s, keep, x, j) }
pub proof fn lemma_filtered_from<T>(s: Seq<T>, keep: Seq<bool>, r: Seq<T>, i: int)
    requires filtered(s, keep, r), 0 <= i < r.len(),
    ensures kept_item(s, keep, r[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let (s1, k1) = (s.drop_last(), keep.drop_last());
        if keep.last() && i == r.len() - 1 { assert(from_kept(s, keep, r[i], s.len() - 1)); }
        else {
            let r1 = if keep.last() { r.drop_last() } else { r };
            lemma_filtered_from(s1, k1, r1, i);
            let j = choose|j: int| #[trigger] from_kept(s1, k1, r1[i], j);
            assert(from_kept(s, keep, r[i], j));
        }
    }
}
pub proof fn lemma_filtered_to<T>(s: Seq<T>, keep: Seq<bool>, r: Seq<T>, j: int)
    requires filtered(s, keep, r), 0 <= j < s.len(), keep[j],
    ensures r.contains(s[j]),
    decreases s.len(),
{
    let (s1, k1) = (s.drop_last(), keep.drop_last());
    if j == s.len() - 1 { assert(r[r.len() - 1] == s[j]); }
    else {
        let r1 = if keep.last() { r.drop_last() } else { r };
        assert(k1[j] && s1[j] == s[j]);
        lemma_filtered_to(s1, k1, r1, j);
        let i = choose|i: int| 0 <= i < r1.len() && r1[i] == s[j];
        assert(r[i] == s[j]);
    }
}
