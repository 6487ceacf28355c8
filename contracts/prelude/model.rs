/// helpers of the reference implementations
pub fn vx_ref_swap<T>(v: &mut [T], a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]),
{
    if a < b { let (x, y) = v.split_at_mut(b); core::mem::swap(&mut x[a], &mut y[0]); }
    else if b < a { let (x, y) = v.split_at_mut(a); core::mem::swap(&mut x[b], &mut y[0]); }
    assert(v@ =~= old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]));
}
pub fn vx_ref_reverse<T>(v: &mut [T], lo: usize, hi: usize)
    requires lo <= hi <= old(v)@.len(),
    ensures final(v)@ == Seq::new(old(v)@.len(), |i: int| if lo <= i < hi { old(v)@[lo + hi - 1 - i] } else { old(v)@[i] }),
{
    let ghost s = v@; let (mut a, mut b) = (lo, hi);
    while a < b && a < b - 1
        invariant v@.len() == s.len(), lo <= a <= hi, lo <= b <= hi, a + b == lo + hi,
            forall|i: int| 0 <= i < s.len() ==> #[trigger] v@[i] == (if lo <= i < a || b <= i < hi { s[lo + hi - 1 - i] } else { s[i] }),
        decreases b - a
    { vx_ref_swap(v, a, b - 1); a += 1; b -= 1; }
    assert(v@ =~= Seq::new(s.len(), |i: int| if lo <= i < hi { s[lo + hi - 1 - i] } else { s[i] }));
}
pub fn vx_ref_extend<T: Clone>(v: &mut Vec<T>, o: &[T])
    ensures final(v)@ == old(v)@ + o@,
{
    let n = o.len(); let mut i: usize = 0;
    while i < n invariant n == o@.len(), i <= n, v@ == old(v)@ + o@.subrange(0, i as int) decreases n - i { v.push(vx_clone_of(&o[i])); i += 1; assert(v@ =~= old(v)@ + o@.subrange(0, i as int)); }
    assert(o@.subrange(0, n as int) =~= o@);
}
pub proof fn vx_ref_push_set<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures s.subrange(0, i + 1).to_set() == s.subrange(0, i).to_set().insert(s[i]),
{
    let (a, b) = (s.subrange(0, i), s.subrange(0, i + 1));
    assert forall|y: T| #[trigger] b.to_set().contains(y) <==> a.to_set().insert(s[i]).contains(y) by {
        if a.contains(y) { let q = choose|q: int| 0 <= q < a.len() && a[q] == y; assert(b[q] == y); }
        if y == s[i] { assert(b[i] == y); }
        if b.contains(y) { let q = choose|q: int| 0 <= q < b.len() && b[q] == y; if q < i { assert(a[q] == y); } }
    }
    assert(b.to_set() =~= a.to_set().insert(s[i]));
}
/// the keys of a map, in some order
pub fn vx_ref_keys<K: Eq + Hash + Clone, V>(m: &HashMap<K, V>) -> (r: Vec<K>)
    requires lawful_hash::<K>(),
    ensures r@.no_duplicates(), r@.to_set() == m@.dom(),
{
    let mut r: Vec<K> = Vec::new();
    use vstd::std_specs::iter::IteratorSpec;
    let it = m.keys(); let ghost ks = it.remaining();
    for k in y: it
        invariant y.seq() == ks, r@.len() == y.index@, forall|j: int| 0 <= j < y.index@ ==> #[trigger] r@[j] == *y.seq()[j],
    { r.push(vx_clone_of(k)); }
    assert(r@ =~= ks.unref());
    r
}
/// s with the element at i moved to m, those in between one place up
pub open spec fn vx_ref_moved<T>(s: Seq<T>, m: int, i: int) -> Seq<T> { Seq::new(s.len(), |q: int| if q == m { s[i] } else if m < q && q <= i { s[q - 1] } else { s[q] }) }
pub proof fn vx_ref_moved_perm(p: Seq<int>, m: int, i: int, n: int)
    requires is_perm(p, n), 0 <= m <= i < n,
    ensures is_perm(vx_ref_moved(p, m, i), n),
{
    let r = vx_ref_moved(p, m, i);
    assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
        let a0 = if a == m { i } else if m < a <= i { a - 1 } else { a };
        let b0 = if b == m { i } else if m < b <= i { b - 1 } else { b };
        assert(a0 != b0 && r[a] == p[a0] && r[b] == p[b0]);
    }
}
