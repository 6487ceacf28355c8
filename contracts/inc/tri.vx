%%raw
global size_of usize == 8;
pub open spec fn tri(k: int) -> int decreases k { if k <= 0 { 0 } else { tri(k - 1) + k } }
pub proof fn lemma_tri(k: int)
    requires 0 <= k,
    ensures tri(k) * 2 == k * (k + 1), tri(k) >= 0,
    decreases k,
{ if k > 0 { lemma_tri(k - 1); assert((k - 1) * k + 2 * k == k * (k + 1)) by(nonlinear_arith); } }
pub proof fn lemma_tri_bound(k: int, n: int)
    requires 0 <= k <= n, n < 0x1_0000_0000,
    ensures tri(k) <= tri(n), n * (n + 1) <= 0xffff_ffff * 0x1_0000_0000, n > 0 ==> tri(n) >= 1, tri(n) == n * (n + 1) / 2,
    decreases n - k,
{
    lemma_tri(n);
    assert(n * (n + 1) <= 0xffff_ffff * 0x1_0000_0000) by(nonlinear_arith) requires 0 <= n < 0x1_0000_0000;
    if n > 0 { lemma_tri(n - 1); }
    if k < n { lemma_tri_bound(k + 1, n); }
}
