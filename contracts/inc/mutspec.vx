%%raw
pub open spec fn swapped<G>(s: Seq<G>, a: int, b: int) -> Seq<G> { s.update(a, s[b]).update(b, s[a]) }
pub open spec fn seg<G>(s: Seq<G>, a: int, b: int, m: Seq<G>) -> Seq<G> { s.subrange(0, a) + m + s.subrange(b, s.len() as int) }
pub open spec fn is_seg<G>(s: Seq<G>, a: int, b: int) -> bool { 0 <= a && a + 2 <= b && b <= s.len() }
/// t is a rearrangement of s
pub open spec fn rearranged<G>(s: Seq<G>, t: Seq<G>) -> bool { exists|p: Seq<int>| #[trigger] is_perm(p, s.len() as int) && t == permuted(s, p) }
pub open spec fn swap_ok<G>(s: Seq<G>, t: Seq<G>) -> bool { if s.len() < 2 { t == s } else { rearranged(s, t) && exists|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b && t == #[trigger] swapped(s, a, b) } }
pub open spec fn scrambled<G>(s: Seq<G>, t: Seq<G>, a: int, b: int) -> bool { exists|q: Seq<int>| #[trigger] is_perm(q, b - a) && t == seg(s, a, b, permuted(s.subrange(a, b), q)) }
pub open spec fn scramble_ok<G>(s: Seq<G>, t: Seq<G>) -> bool { if s.len() < 2 { t == s } else { rearranged(s, t) && exists|a: int, b: int| #[trigger] is_seg(s, a, b) && scrambled(s, t, a, b) } }
pub open spec fn inversion_ok<G>(s: Seq<G>, t: Seq<G>) -> bool { if s.len() < 2 { t == s } else { rearranged(s, t) && exists|a: int, b: int| #[trigger] is_seg(s, a, b) && t == seg(s, a, b, s.subrange(a, b).reverse()) } }
pub open spec fn insertion_ok<G>(s: Seq<G>, t: Seq<G>) -> bool { if s.len() < 2 { t == s } else { rearranged(s, t) && exists|a: int, b: int| #[trigger] is_seg(s, a, b) && t == seg(s, a, b, seq![s[b - 1]] + s.subrange(a, b - 1)) } }
pub open spec fn duplicate_ok<G>(s: Seq<G>, t: Seq<G>) -> bool { if s.len() < 2 { t == s } else { exists|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b && t == #[trigger] s.update(b, s[a]) } }
