// Trusted specifications of the std / rayon iterator and slice operations the extracted code uses.
// Every #[verifier::external_body] below is an assumption; they are counted by bin/check.

/// assert!/panic! in a function verified for valid input: reaching it is a failed obligation.
#[verifier::external_body]
pub fn vx_panic() -> (r: ()) requires false { unimplemented!() }
/// assert!/panic! in a function verified for invalid input: reaching it is what the contract demands.
#[verifier::external_body]
pub fn vx_rejects() -> (r: ()) ensures false { unimplemented!() }

pub open spec fn lawful_eq<G: PartialEq>() -> bool {
    &&& <G as PartialEqSpec<G>>::obeys_eq_spec()
    &&& forall|x: G, y: G| #[trigger] x.eq_spec(&y) <==> x == y
}

pub mod vx_len {
    use vstd::prelude::*;
    /// A slice of genes (never zero-sized) has at most isize::MAX elements.
    pub broadcast axiom fn axiom_slice_len_bound<T>(s: &[T]) ensures #[trigger] s@.len() <= isize::MAX;
}
//%broadcast vx_len::axiom_slice_len_bound

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct It<T> { v: Vec<T> }
impl<T> View for It<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }

pub open spec fn deref_seq<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }

impl<T> It<T> {
    #[verifier::external_body]
    pub fn vx_count(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() /*%is self.v.len() %*/ }
    #[verifier::external_body]
    pub fn vx_at(&self, k: usize) -> (r: T) requires k < self@.len() ensures r == self@[k as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
    { unimplemented!() /*%is if self.v.len() == 0 { None } else { Some(self.v.remove(0)) } %*/ }
    // what Iterator::size_hint promises: a lower bound and, perhaps, an upper bound
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.0 <= self@.len(), r.1.is_some() ==> self@.len() <= r.1.unwrap(),
    { unimplemented!() /*%is (self.v.len(), Some(self.v.len())) %*/ }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r@.len() == self@.len(), r@.len() <= usize::MAX,
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i].0 == i && r@[i].1 == self@[i],
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0; let mut r: Vec<(usize, T)> = Vec::new();
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).0 == j && r@[j].1 == s[j] decreases n - i { let x = v.remove(0); r.push((i, x)); i += 1; }
        It { v: r } %*/ }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> f.ensures((self@[i],), r@[i]),
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0; let mut r: Vec<U> = Vec::new();
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> f.ensures((s[j],), #[trigger] r@[j]) decreases n - i { let x = v.remove(0); assert(x == s[i as int]); let y = f(x); r.push(y); i += 1; }
        It { v: r } %*/ }
    #[verifier::external_body]
    pub fn chain(self, o: It<T>) -> (r: It<T>) ensures r@ == self@ + o@ { unimplemented!() /*%is let mut v = self.v; let mut w = o.v; v.append(&mut w); It { v } %*/ }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>)
        ensures r@ == (if n <= self@.len() { self@.subrange(n as int, self@.len() as int) } else { Seq::empty() }),
    { unimplemented!() /*%is let mut v = self.v; let vx_n = n; let n = v.len(); let ghost s = v@; let mut i: usize = 0; 
        while i < n && i < vx_n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, i <= vx_n decreases n - i { let x = v.remove(0); i += 1; }
        It { v } %*/ }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>)
        ensures r@ == (if n <= self@.len() { self@.subrange(0, n as int) } else { self@ }),
    { unimplemented!() /*%is let mut v = self.v; v.truncate(n); It { v } %*/ }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r@ == self@.reverse() { unimplemented!() /*%is let mut v = self.v; let n = v.len(); let ghost s = v@; let mut r: Vec<T> = Vec::new(); let mut i: usize = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(0, n - i), i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == s[n - 1 - j] decreases n - i { let x = v.pop().unwrap(); r.push(x); i += 1; }
        It { v: r } %*/ }
    #[verifier::external_body]
    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        ensures r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == self@[i] && r@[i].1 == o@[i],
    { unimplemented!() /*%is let mut v = self.v; let mut w = o.v; let ghost s = v@; let ghost t = w@; let n = if v.len() <= w.len() { v.len() } else { w.len() };
        let mut r: Vec<(T, U)> = Vec::new(); let mut i: usize = 0;
        while i < n invariant n <= s.len(), n <= t.len(), v@ == s.subrange(i as int, s.len() as int), w@ == t.subrange(i as int, t.len() as int), i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j]).0 == s[j] && r@[j].1 == t[j] decreases n - i { let x = v.remove(0); let y = w.remove(0); r.push((x, y)); i += 1; }
        It { v: r } %*/ }
    #[verifier::external_body]
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            match r {
                Some(p) => p < self@.len() && f.ensures((self@[p as int],), true) && forall|j: int| 0 <= j < p ==> f.ensures((#[trigger] self@[j],), false),
                None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), false),
            },
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] s[j],), false) decreases n - i { let x = v.remove(0); assert(x == s[i as int]); if f(x) { return Some(i); } i += 1; }
        None %*/ }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            r ==> exists|p: int| 0 <= p < self@.len() && f.ensures((#[trigger] self@[p],), true),
            !r ==> forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), false),
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] s[j],), false) decreases n - i { let x = v.remove(0); assert(x == s[i as int]); if f(x) { return true; } i += 1; }
        false %*/ }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            !r ==> exists|p: int| 0 <= p < self@.len() && f.ensures((#[trigger] self@[p],), false),
            r ==> forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), true),
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] s[j],), true) decreases n - i { let x = v.remove(0); assert(x == s[i as int]); if !f(x) { return false; } i += 1; }
        true %*/ }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures
            match r {
                Some(x) => exists|p: int| 0 <= p < self@.len() && x == #[trigger] self@[p] && f.ensures((&self@[p],), true)
                    && forall|j: int| 0 <= j < p ==> f.ensures((&#[trigger] self@[j],), false),
                None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((&#[trigger] self@[j],), false),
            },
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s[j],), false) decreases n - i { let x = v.remove(0); assert(x == s[i as int]); if f(&x) { return Some(x); } i += 1; }
        None %*/ }
    #[verifier::external_body]
    pub fn find_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            match r {
                Some(x) => exists|p: int| 0 <= p < self@.len() && f.ensures((#[trigger] self@[p],), Some(x))
                    && forall|j: int| 0 <= j < p ==> f.ensures((#[trigger] self@[j],), None::<U>),
                None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), None::<U>),
            },
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, forall|j: int| 0 <= j < i ==> f.ensures((#[trigger] s[j],), None::<U>) decreases n - i { let x = v.remove(0); assert(x == s[i as int]); let y = f(x); if y.is_some() { return y; } i += 1; }
        None %*/ }
    /// The kept items in order; `idx` (ghost, existential) lists the kept positions.
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures exists|keep: Seq<bool>| #[trigger] filtered(self@, keep, r@)
            && forall|i: int| 0 <= i < self@.len() ==> f.ensures((&#[trigger] self@[i],), keep[i]),
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0; let mut r: Vec<T> = Vec::new(); let ghost mut keep = Seq::<bool>::empty();
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, keep.len() == i, filtered(s.subrange(0, i as int), keep, r@), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s[j],), keep[j]) decreases n - i {
            let x = v.remove(0); assert(x == s[i as int]); let k = f(&x);
            let ghost (k0, r0) = (keep, r@);
            proof { keep = keep.push(k); }
            if k { r.push(x); }
            proof { assert(keep.drop_last() == k0); assert(s.subrange(0, i + 1).drop_last() == s.subrange(0, i as int)); if k { assert(r@.drop_last() == r0); } }
            i += 1;
        }
        proof { assert(s.subrange(0, n as int) == s); }
        let o = It { v: r }; assert(filtered(s, keep, o@)); o %*/ }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() /*%is self.v.len() %*/ }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>) ensures r == (if self@.len() == 0 { None } else { Some(self@.last()) }) { unimplemented!() /*%is let mut v = self.v; v.pop() %*/ }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures n < old(self)@.len() ==> r == Some(old(self)@[n as int]) && final(self)@ == old(self)@.subrange(n + 1, old(self)@.len() as int),
            n >= old(self)@.len() ==> r.is_none() && final(self)@.len() == 0,
    { unimplemented!() /*%is let k = n; let mut i: usize = 0; let n = self.v.len(); let ghost s = self.v@;
        while i < n && i < k invariant n == s.len(), self.v@ == s.subrange(i as int, n as int), i <= n, i <= k decreases n - i { let x = self.v.remove(0); i += 1; }
        if self.v.len() == 0 { None } else { Some(self.v.remove(0)) } %*/ }
    #[verifier::external_body]
    pub fn rposition<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
        ensures
            match r {
                Some(p) => p < self@.len() && f.ensures((self@[p as int],), true) && forall|j: int| p < j < self@.len() ==> f.ensures((#[trigger] self@[j],), false),
                None => forall|j: int| 0 <= j < self@.len() ==> f.ensures((#[trigger] self@[j],), false),
            },
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = n;
        while i > 0 invariant n == s.len(), v@ == s.subrange(0, i as int), i <= n, forall|j: int| i <= j < n ==> f.ensures((#[trigger] s[j],), false) decreases i { let x = v.pop().unwrap(); i -= 1; assert(x == s[i as int]); if f(x) { return Some(i); } }
        None %*/ }
    #[verifier::external_body]
    pub fn step_by(self, k: usize) -> (r: It<T>) requires k > 0
        ensures r@.len() == (if self@.len() == 0 { 0 } else { (self@.len() - 1) / (k as int) + 1 }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[i * k],
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0; let mut r: Vec<T> = Vec::new(); let mut w: usize = 0; let ghost d: int = k as int; let ghost mut q: int = 0; let ghost mut pos: Seq<int> = Seq::empty();
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, q == r@.len(), q == pos.len(), i + w == q * d, w < d, forall|j: int| 0 <= j < q ==> #[trigger] pos[j] == j * d && 0 <= pos[j] < i && r@[j] == s[pos[j]] decreases n - i {
            let x = v.remove(0); assert(x == s[i as int]);
            proof { assert((q + 1) * d == q * d + d) by (nonlinear_arith); }
            if w == 0 { r.push(x); proof { pos = pos.push(i as int); q = q + 1; } w = k - 1; } else { w -= 1; }
            i += 1;
        }
        proof {
            assert(q * d == (q - 1) * d + d) by (nonlinear_arith);
            if n > 0 { assert(n - 1 == (q - 1) * d + (d - 1 - w)); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, d, q - 1, d - 1 - w); }
            else { assert(q == 0) by (nonlinear_arith) requires q * d == w, 0 <= w < d, q >= 0; }
            assert forall|j: int| 0 <= j < r@.len() implies #[trigger] r@[j] == s[j * k] by { assert(pos[j] == j * d); }
        }
        It { v: r } %*/ }
    #[verifier::external_body]
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures r@.len() <= self@.len(), r@ == self@.subrange(0, r@.len() as int), forall|j: int| 0 <= j < r@.len() ==> f.ensures((&#[trigger] self@[j],), true),
            r@.len() < self@.len() ==> f.ensures((&self@[r@.len() as int],), false),
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0; let mut r: Vec<T> = Vec::new();
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, r@ == s.subrange(0, i as int), forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s[j],), true) decreases n - i { let x = v.remove(0); assert(x == s[i as int]); if !f(&x) { return It { v: r }; } r.push(x); i += 1; }
        It { v: r } %*/ }
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures r@.len() <= self@.len(), r@ == self@.subrange(self@.len() - r@.len(), self@.len() as int), forall|j: int| 0 <= j < self@.len() - r@.len() ==> f.ensures((&#[trigger] self@[j],), true),
            r@.len() > 0 ==> f.ensures((&self@[self@.len() - r@.len()],), false),
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s[j],), true) decreases n - i { assert(v@[0] == s[i as int]); if !f(&v[0]) { return It { v }; } let x = v.remove(0); i += 1; }
        It { v } %*/ }
    /// `acc` (ghost, existential) lists the accumulator before each item and at the end.
    #[verifier::external_body]
    pub fn fold<B, F: Fn(B, T) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B, i: int| 0 <= i < self@.len() ==> #[trigger] f.requires((b, self@[i])),
        ensures exists|acc: Seq<B>| #[trigger] acc.len() == self@.len() + 1 && acc[0] == init && r == acc.last() && forall|i: int| 0 <= i < self@.len() ==> f.ensures((acc[i], #[trigger] self@[i]), acc[i + 1]),
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0; let mut a = init; let ghost mut acc: Seq<B> = seq![init];
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, acc.len() == i + 1, acc[0] == init, a == acc.last(), forall|j: int| 0 <= j < i ==> f.ensures((acc[j], #[trigger] s[j]), acc[j + 1]) decreases n - i { let x = v.remove(0); assert(x == s[i as int]); a = f(a, x); proof { acc = acc.push(a); } i += 1; }
        a %*/ }
    #[verifier::external_body]
    pub fn vx_collect(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() /*%is self.v %*/ }
    /// min_by_key returns the first minimum.
    #[verifier::external_body]
    pub fn min_by_key<F: Fn(&T) -> usize>(self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < self@.len() ==> f.requires((&#[trigger] self@[i],)),
        ensures
            match r {
                Some(x) => exists|p: int, keys: Seq<usize>| #[trigger] first_min(keys, p) && keys.len() == self@.len() && x == self@[p]
                    && forall|j: int| 0 <= j < self@.len() ==> f.ensures((&#[trigger] self@[j],), keys[j]),
                None => self@.len() == 0,
            },
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0; if n == 0 { return None; }
        let mut best = v.remove(0); assert(best == s[0]); let mut low = f(&best); i = 1; let ghost mut keys: Seq<usize> = seq![low]; let ghost mut p: int = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, 1 <= i, keys.len() == i, first_min(keys, p), best == s[p], low == keys[p], forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] s[j],), keys[j]) decreases n - i {
            let x = v.remove(0); assert(x == s[i as int]); let y = f(&x); proof { keys = keys.push(y); }
            if y < low { best = x; low = y; proof { p = i as int; } }
            i += 1;
        }
        Some(best) %*/ }
}
pub open spec fn first_min(keys: Seq<usize>, p: int) -> bool { 0 <= p < keys.len() && forall|j: int| 0 <= j < keys.len() ==> keys[p] <= #[trigger] keys[j] && (j < p ==> keys[p] < keys[j]) }
/// `r` is the subsequence of `s` at the positions where `keep` is true.
pub open spec fn filtered<T>(s: Seq<T>, keep: Seq<bool>, r: Seq<T>) -> bool
    decreases s.len(),
{
    keep.len() == s.len() && if s.len() == 0 { r.len() == 0 } else if keep.last() {
        r.len() > 0 && r.last() == s.last() && filtered(s.drop_last(), keep.drop_last(), r.drop_last())
    } else { filtered(s.drop_last(), keep.drop_last(), r) }
}
impl<'a, T: Clone> It<&'a T> {
    #[verifier::external_body]
    pub fn vx_copied(self) -> (r: It<T>) ensures r@.len() == self@.len(), forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> r@[i] == *self@[i] { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0; let mut r: Vec<T> = Vec::new();
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == *s[j] decreases n - i { let x = v.remove(0); r.push(vx_clone_of(x)); i += 1; }
        It { v: r } %*/ }
}
impl It<usize> {
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<usize>)
        ensures match r {
            Some(x) => (exists|p: int| 0 <= p < self@.len() && #[trigger] self@[p] == x) && forall|j: int| 0 <= j < self@.len() ==> #[trigger] self@[j] <= x,
            None => self@.len() == 0,
        }
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0; if n == 0 { return None; } let mut m = v.remove(0); i = 1; let ghost mut p: int = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, 1 <= i, 0 <= p < i, s[p] == m, forall|j: int| 0 <= j < i ==> #[trigger] s[j] <= m decreases n - i { let x = v.remove(0); if x > m { m = x; proof { p = i as int; } } i += 1; }
        Some(m) %*/ }
    #[verifier::external_body]
    pub fn min(self) -> (r: Option<usize>)
        ensures match r {
            Some(x) => (exists|p: int| 0 <= p < self@.len() && #[trigger] self@[p] == x) && forall|j: int| 0 <= j < self@.len() ==> #[trigger] self@[j] >= x,
            None => self@.len() == 0,
        }
    { unimplemented!() /*%is let ghost s = self@; let mut v = self.v; let n = v.len(); let mut i: usize = 0; if n == 0 { return None; } let mut m = v.remove(0); i = 1; let ghost mut p: int = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, 1 <= i, 0 <= p < i, s[p] == m, forall|j: int| 0 <= j < i ==> #[trigger] s[j] >= m decreases n - i { let x = v.remove(0); if x < m { m = x; proof { p = i as int; } } i += 1; }
        Some(m) %*/ }
}

#[verifier::external_body]
pub fn vx_once<T>(x: T) -> (r: It<T>) ensures r@ == seq![x] { unimplemented!() /*%is let mut v = Vec::new(); v.push(x); It { v } %*/ }

pub trait VxSeqLike { type VxItem; spec fn vx_seq(&self) -> Seq<Self::VxItem>;
    fn vx_iter(&self) -> (r: It<&Self::VxItem>)
        ensures r@.len() == self.vx_seq().len(), r@.len() <= usize::MAX, forall|i: int| #![trigger r@[i]] #![trigger self.vx_seq()[i]] 0 <= i < self.vx_seq().len() ==> *(r@[i]) == self.vx_seq()[i];
}
impl<T> VxSeqLike for [T] { type VxItem = T; open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: It<&T>) { unimplemented!() /*%is let n = self.len(); let mut r: Vec<&T> = Vec::new(); let mut i: usize = 0;
        while i < n invariant n == self@.len(), i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] r@[j]) == self@[j] decreases n - i { r.push(&self[i]); i += 1; }
        It { v: r } %*/ } }
impl<T, const N: usize> VxSeqLike for [T; N] { type VxItem = T; open spec fn vx_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: It<&T>) { unimplemented!() /*%is let n = N; let mut r: Vec<&T> = Vec::new(); let mut i: usize = 0;
        while i < n invariant n == self@.len(), i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] r@[j]) == self@[j] decreases n - i { r.push(&self[i]); i += 1; }
        It { v: r } %*/ } }

/// Sources a lowered for loop can run over.
pub trait VxLoopSource: Sized { type VxIt; spec fn vx_items(&self) -> Seq<Self::VxIt>;
    fn vx_loop_items(self) -> (r: It<Self::VxIt>) ensures r@ == self.vx_items(), r@.len() <= usize::MAX; }
impl<T> VxLoopSource for It<T> { type VxIt = T; open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_loop_items(self) -> (r: It<T>) { unimplemented!() /*%is proof { assert(self.v@.len() == self.v.len()); } self %*/ } }
pub open spec fn range_seq(a: int, b: int) -> Seq<usize> { if a <= b { Seq::new((b - a) as nat, |i: int| (a + i) as usize) } else { Seq::empty() } }
impl VxLoopSource for Range<usize> { type VxIt = usize; open spec fn vx_items(&self) -> Seq<usize> { range_seq(self.start as int, self.end as int) }
    #[verifier::external_body] fn vx_loop_items(self) -> (r: It<usize>) { unimplemented!() /*%is let mut r: Vec<usize> = Vec::new(); let mut x = self.start;
        while x < self.end invariant self.start <= x, x <= self.end || x == self.start, r@.len() == x - self.start, forall|j: int| 0 <= j < r@.len() ==> #[trigger] r@[j] == (self.start + j) as usize decreases self.end - x { r.push(x); x += 1; }
        assert(r@ =~= range_seq(self.start as int, self.end as int));
        It { v: r } %*/ } }
impl<'a, T> VxLoopSource for &'a Vec<T> { type VxIt = &'a T; open spec fn vx_items(&self) -> Seq<&'a T> { Seq::new((**self)@.len(), |i: int| &(**self)@[i]) }
    #[verifier::external_body] fn vx_loop_items(self) -> (r: It<&'a T>) { unimplemented!() /*%is let n = self.len(); let mut r: Vec<&'a T> = Vec::new(); let mut i: usize = 0;
        while i < n invariant n == (*self)@.len(), i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == &(*self)@[j] decreases n - i { r.push(&self[i]); i += 1; }
        assert(r@ =~= <&'a Vec<T> as VxLoopSource>::vx_items(&self));
        It { v: r } %*/ } }
impl<'a, T> VxLoopSource for &'a [T] { type VxIt = &'a T; open spec fn vx_items(&self) -> Seq<&'a T> { Seq::new((**self)@.len(), |i: int| &(**self)@[i]) }
    #[verifier::external_body] fn vx_loop_items(self) -> (r: It<&'a T>) { unimplemented!() /*%is let n = self.len(); let mut r: Vec<&'a T> = Vec::new(); let mut i: usize = 0;
        while i < n invariant n == (*self)@.len(), i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == &(*self)@[j] decreases n - i { r.push(&self[i]); i += 1; }
        assert(r@ =~= <&'a [T] as VxLoopSource>::vx_items(&self));
        It { v: r } %*/ } }
impl<T> VxLoopSource for Vec<T> { type VxIt = T; open spec fn vx_items(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_loop_items(self) -> (r: It<T>) { unimplemented!() /*%is let n = self.len(); It { v: self } %*/ } }
pub fn vx_loop_source<S: VxLoopSource>(s: S) -> (r: It<S::VxIt>) ensures r@ == s.vx_items(), r@.len() <= usize::MAX { s.vx_loop_items() }
pub trait VxIntoIt: VxLoopSource { fn vx_into_it(self) -> (r: It<Self::VxIt>) ensures r@ == self.vx_items(), r@.len() <= usize::MAX; }
impl<S: VxLoopSource> VxIntoIt for S { fn vx_into_it(self) -> (r: It<S::VxIt>) { self.vx_loop_items() } }

/// The state a rayon worker carries from item to item: anything, since earlier items may have changed it.
#[verifier::external_body]
pub fn vx_worker_state<T>(x: T) -> (r: T) { x }
#[verifier::external_body]
pub fn vx_clone_of<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
/// `.clone()`: the clone equals the original (assumption on user Clone implementations).
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: T) { unimplemented!() } }

#[verifier::external_body]
pub fn vx_vec_from_elem<T: Clone>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() /*%is let mut r: Vec<T> = Vec::new(); let mut i: usize = 0;
    while i < n invariant i <= n, r@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] r@[j] == x decreases n - i { r.push(vx_clone_of(&x)); i += 1; }
    r %*/ }

pub trait VxSlice<T> {
    spec fn vxs(&self) -> Seq<T>;
    fn vx_swap(&mut self, a: usize, b: usize)
        requires a < old(self).vxs().len(), b < old(self).vxs().len(),
        ensures final(self).vxs() == old(self).vxs().update(a as int, old(self).vxs()[b as int]).update(b as int, old(self).vxs()[a as int]);
    fn vx_reverse(&mut self) ensures final(self).vxs() == old(self).vxs().reverse();
    fn vx_rotate_right(&mut self, k: usize) requires k <= old(self).vxs().len()
        ensures final(self).vxs() == old(self).vxs().subrange(old(self).vxs().len() - k, old(self).vxs().len() as int) + old(self).vxs().subrange(0, old(self).vxs().len() - k);
    fn vx_rotate_left(&mut self, k: usize) requires k <= old(self).vxs().len()
        ensures final(self).vxs() == old(self).vxs().subrange(k as int, old(self).vxs().len() as int) + old(self).vxs().subrange(0, k as int);
    fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vxs().len() > 0 && *x == self.vxs()[0], None => self.vxs().len() == 0 };
    fn vx_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.vxs().len() > 0 && *x == self.vxs().last(), None => self.vxs().len() == 0 };
    fn vx_get(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self.vxs().len() && *x == self.vxs()[i as int], None => i >= self.vxs().len() };
    fn vx_split_at(&self, i: usize) -> (r: (&[T], &[T])) requires i <= self.vxs().len()
        ensures r.0@ == self.vxs().subrange(0, i as int), r.1@ == self.vxs().subrange(i as int, self.vxs().len() as int);
    fn vx_windows(&self, k: usize) -> (r: It<&[T]>) requires k > 0
        ensures r@.len() == (if self.vxs().len() >= k { self.vxs().len() - k + 1 } else { 0 }),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.vxs().subrange(i, i + k);
}
impl<T> VxSlice<T> for [T] {
    open spec fn vxs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_swap(&mut self, a: usize, b: usize) { unimplemented!() /*%is vx_ref_swap(self, a, b) %*/ }
    #[verifier::external_body] fn vx_reverse(&mut self) { unimplemented!() /*%is let n = self.len(); vx_ref_reverse(self, 0, n); assert(self@ =~= old(self)@.reverse()); %*/ }
    #[verifier::external_body] fn vx_rotate_right(&mut self, k: usize) { unimplemented!() /*%is let n = self.len(); vx_ref_reverse(self, 0, n); vx_ref_reverse(self, 0, k); vx_ref_reverse(self, k, n); assert(self@ =~= old(self)@.subrange(n - k, n as int) + old(self)@.subrange(0, n - k)); %*/ }
    #[verifier::external_body] fn vx_rotate_left(&mut self, k: usize) { unimplemented!() /*%is let n = self.len(); vx_ref_reverse(self, 0, n); vx_ref_reverse(self, 0, n - k); vx_ref_reverse(self, n - k, n); assert(self@ =~= old(self)@.subrange(k as int, n as int) + old(self)@.subrange(0, k as int)); %*/ }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() /*%is self.first() %*/ }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() /*%is let n = self.len(); if n == 0 { None } else { Some(&self[n - 1]) } %*/ }
    #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() /*%is if i < self.len() { Some(&self[i]) } else { None } %*/ }
    #[verifier::external_body] fn vx_split_at(&self, i: usize) -> (r: (&[T], &[T])) { unimplemented!() /*%is self.split_at(i) %*/ }
    #[verifier::external_body] fn vx_windows(&self, k: usize) -> (r: It<&[T]>) { unimplemented!() /*%is let n = self.len(); let mut r: Vec<&[T]> = Vec::new(); let mut i: usize = 0;
        while i < n && k <= n - i invariant n == self@.len(), i <= n, r@.len() == i, i == 0 || i + k <= n + 1, forall|j: int| 0 <= j < i ==> (#[trigger] r@[j])@ == self@.subrange(j, j + k) decreases n - i { r.push(vstd::slice::slice_subrange(self, i, i + k)); i += 1; }
        It { v: r } %*/ }
}
pub trait VxRange { spec fn vx_lo(&self) -> int; spec fn vx_hi(&self, n: int) -> int;
    fn vx_ends(&self, n: usize) -> (r: (usize, usize)) ensures r.0 == self.vx_lo(), r.1 == self.vx_hi(n as int); }
impl VxRange for Range<usize> { open spec fn vx_lo(&self) -> int { self.start as int } open spec fn vx_hi(&self, n: int) -> int { self.end as int } fn vx_ends(&self, n: usize) -> (r: (usize, usize)) { (self.start, self.end) } }
impl VxRange for std::ops::RangeFrom<usize> { open spec fn vx_lo(&self) -> int { self.start as int } open spec fn vx_hi(&self, n: int) -> int { n } fn vx_ends(&self, n: usize) -> (r: (usize, usize)) { (self.start, n) } }
impl VxRange for std::ops::RangeTo<usize> { open spec fn vx_lo(&self) -> int { 0 } open spec fn vx_hi(&self, n: int) -> int { self.end as int } fn vx_ends(&self, n: usize) -> (r: (usize, usize)) { (0, self.end) } }
pub trait VxSubMut<T> { spec fn vxu(&self) -> Seq<T>;
    fn vx_sub_mut<R: VxRange>(&mut self, g: R) -> (r: &mut [T])
        requires 0 <= g.vx_lo() <= g.vx_hi(old(self).vxu().len() as int) <= old(self).vxu().len()
        ensures r@ == old(self).vxu().subrange(g.vx_lo(), g.vx_hi(old(self).vxu().len() as int)),
            final(self).vxu() == old(self).vxu().subrange(0, g.vx_lo()) + final(r)@ + old(self).vxu().subrange(g.vx_hi(old(self).vxu().len() as int), old(self).vxu().len() as int);
}
impl<T> VxSubMut<T> for Vec<T> { open spec fn vxu(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sub_mut<R: VxRange>(&mut self, g: R) -> (r: &mut [T]) { unimplemented!() /*%is let e = g.vx_ends(self.len()); let s = self.as_mut_slice(); &mut s[e.0..e.1] %*/ } }
impl<T> VxSubMut<T> for [T] { open spec fn vxu(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sub_mut<R: VxRange>(&mut self, g: R) -> (r: &mut [T]) { unimplemented!() /*%is let e = g.vx_ends(self.len()); &mut self[e.0..e.1] %*/ } }
pub trait VxSliceCopy<T> {
    spec fn vxc(&self) -> Seq<T>;
    fn vx_copy_from_slice(&mut self, o: &[T]) requires old(self).vxc().len() == o@.len() ensures final(self).vxc() == o@;
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vxc();
}
impl<T: Clone> VxSliceCopy<T> for [T] {
    open spec fn vxc(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_copy_from_slice(&mut self, o: &[T]) { unimplemented!() /*%is let n = self.len(); let mut i: usize = 0;
        while i < n invariant n == self@.len(), n == o@.len(), i <= n, forall|j: int| 0 <= j < i ==> #[trigger] self@[j] == o@[j] decreases n - i { self[i] = vx_clone_of(&o[i]); i += 1; }
        assert(self@ =~= o@); %*/ }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() /*%is let mut r: Vec<T> = Vec::new(); vx_ref_extend(&mut r, self); assert(r@ =~= self@); r %*/ }
}
pub trait VxSliceContains<T> { spec fn vxk(&self) -> Seq<T>; spec fn vxl(&self) -> bool;
    fn vx_contains(&self, x: &T) -> (r: bool) requires self.vxl() ensures r == self.vxk().contains(*x); }
impl<T: PartialEq> VxSliceContains<T> for [T] { open spec fn vxk(&self) -> Seq<T> { self@ }
    open spec fn vxl(&self) -> bool { lawful_eq::<T>() }
    #[verifier::external_body] fn vx_contains(&self, x: &T) -> (r: bool) { unimplemented!() /*%is let n = self.len(); let mut i: usize = 0;
        while i < n invariant n == self@.len(), i <= n, forall|j: int| 0 <= j < i ==> #[trigger] self@[j] != *x decreases n - i { if self[i] == *x { assert(self@.contains(self@[i as int])); return true; } i += 1; }
        false %*/ } }
pub trait VxRangeContains { fn vx_contains(&self, x: &usize) -> (r: bool) ensures r == self.vx_in(*x as int); spec fn vx_in(&self, x: int) -> bool; }
impl VxRangeContains for Range<usize> { open spec fn vx_in(&self, x: int) -> bool { self.start <= x && x < self.end }
    #[verifier::external_body] fn vx_contains(&self, x: &usize) -> (r: bool) { unimplemented!() /*%is self.start <= *x && *x < self.end %*/ } }
pub struct RangeIncl<T> { pub start: T, pub end: T }
impl<T> RangeIncl<T> { pub fn new(start: T, end: T) -> (r: RangeIncl<T>) ensures r.start == start, r.end == end { RangeIncl { start, end } } }
pub trait VxCopiedOpt<T> { spec fn vxo(&self) -> Option<T>; fn vx_copied(self) -> (r: Option<T>) ensures r == self.vxo(); }
impl<'a, T: Clone> VxCopiedOpt<T> for Option<&'a T> {
    open spec fn vxo(&self) -> Option<T> { match self { Some(x) => Some(**x), None => None } }
    #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { unimplemented!() /*%is match self { Some(x) => Some(vx_clone_of(x)), None => None } %*/ } }

pub trait VxVec<T> {
    spec fn vxv(&self) -> Seq<T>;
    fn vx_extend(&mut self, it: It<T>) ensures final(self).vxv() == old(self).vxv() + it@;
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vxv().len() ==> f.requires((&#[trigger] old(self).vxv()[i],)),
        ensures exists|keep: Seq<bool>| #[trigger] filtered(old(self).vxv(), keep, final(self).vxv())
            && forall|i: int| 0 <= i < old(self).vxv().len() ==> f.ensures((&#[trigger] old(self).vxv()[i],), keep[i]);
    fn vx_reserve(&mut self, n: usize) ensures final(self).vxv() == old(self).vxv();
    fn vx_truncate(&mut self, n: usize) ensures final(self).vxv() == (if n <= old(self).vxv().len() { old(self).vxv().subrange(0, n as int) } else { old(self).vxv() });
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vxv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_extend(&mut self, it: It<T>) { unimplemented!() /*%is let mut w = it.v; self.append(&mut w); %*/ }
    #[verifier::external_body] fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() /*%is let ghost s = old(self).vxv(); let ghost mut keep = Seq::<bool>::empty(); let n = self.len(); let mut j: usize = 0; let mut i: usize = 0;
        while j < n invariant n == s.len(), j <= n, i <= j, self@.len() == i + (n - j), keep.len() == j, filtered(s.subrange(0, j as int), keep, self@.subrange(0, i as int)),
            self@.subrange(i as int, self@.len() as int) == s.subrange(j as int, n as int), forall|q: int| 0 <= q < j ==> f.ensures((&#[trigger] s[q],), keep[q]) decreases n - j {
            let ghost (t, k0) = (self@, keep);
            assert(self@[i as int] == self@.subrange(i as int, self@.len() as int)[0]);
            assert(self@[i as int] == s[j as int]);
            let k = f(&self[i]);
            proof { keep = keep.push(k); assert(keep.drop_last() == k0); assert(s.subrange(0, j + 1).drop_last() == s.subrange(0, j as int)); }
            if k { i += 1; proof { assert(self@.subrange(0, i as int).drop_last() == t.subrange(0, i - 1)); } } else { let x = self.remove(i); proof { assert(self@.subrange(0, i as int) == t.subrange(0, i as int)); } }
            j += 1;
            proof { assert forall|q: int| 0 <= q < n - j implies self@.subrange(i as int, self@.len() as int)[q] == #[trigger] s.subrange(j as int, n as int)[q] by { assert(s.subrange(j - 1, n as int)[q + 1] == s[j + q]); assert(t.subrange(t.len() - (n - j + 1), t.len() as int)[q + 1] == s[j + q]); }
                assert(self@.subrange(i as int, self@.len() as int) =~= s.subrange(j as int, n as int)); }
        }
        proof { assert(s.subrange(0, n as int) == s); assert(self@.subrange(0, i as int) == self@); assert(filtered(old(self).vxv(), keep, self.vxv())); } %*/ }
    #[verifier::external_body] fn vx_reserve(&mut self, n: usize) { unimplemented!() /*%is self.reserve(n) %*/ }
    #[verifier::external_body] fn vx_truncate(&mut self, n: usize) { unimplemented!() /*%is self.truncate(n) %*/ }
}
/// keep[i] is true for the first item of every run of equal items
pub open spec fn run_starts<T>(s: Seq<T>) -> Seq<bool> { Seq::new(s.len(), |i: int| i == 0 || s[i] != s[i - 1]) }
pub trait VxDedup<T> { spec fn vxd(&self) -> Seq<T>; spec fn vxdl(&self) -> bool;
    fn vx_dedup(&mut self) requires old(self).vxdl() ensures filtered(old(self).vxd(), run_starts(old(self).vxd()), final(self).vxd()); }
impl<T: PartialEq> VxDedup<T> for Vec<T> { open spec fn vxd(&self) -> Seq<T> { self@ } open spec fn vxdl(&self) -> bool { lawful_eq::<T>() }
    #[verifier::external_body] fn vx_dedup(&mut self) { unimplemented!() /*%is let ghost s = self@; let ghost keep = run_starts(s); let n = self.len(); let mut j: usize = 0; let mut i: usize = 0;
        while j < n invariant n == s.len(), j <= n, i <= j, i == 0 <==> j == 0, i > 0 ==> self@[i - 1] == s[j - 1], self@.len() == i + (n - j), filtered(s.subrange(0, j as int), keep.subrange(0, j as int), self@.subrange(0, i as int)),
            self@.subrange(i as int, self@.len() as int) == s.subrange(j as int, n as int) decreases n - j {
            let ghost t = self@;
            assert(self@[i as int] == self@.subrange(i as int, self@.len() as int)[0]);
            assert(self@[i as int] == s[j as int]);
            let k = i == 0 || !(self[i] == self[i - 1]);
            proof { assert(k == keep[j as int]); assert(keep.subrange(0, j + 1).drop_last() == keep.subrange(0, j as int)); assert(s.subrange(0, j + 1).drop_last() == s.subrange(0, j as int)); }
            if k { i += 1; proof { assert(self@.subrange(0, i as int).drop_last() == t.subrange(0, i - 1)); } } else { let x = self.remove(i); proof { assert(self@.subrange(0, i as int) == t.subrange(0, i as int)); } }
            j += 1;
            proof { assert forall|q: int| 0 <= q < n - j implies self@.subrange(i as int, self@.len() as int)[q] == #[trigger] s.subrange(j as int, n as int)[q] by { assert(s.subrange(j - 1, n as int)[q + 1] == s[j + q]); assert(t.subrange(t.len() - (n - j + 1), t.len() as int)[q + 1] == s[j + q]); }
                assert(self@.subrange(i as int, self@.len() as int) =~= s.subrange(j as int, n as int)); }
        }
        proof { assert(s.subrange(0, n as int) == s); assert(keep.subrange(0, n as int) == keep); assert(self@.subrange(0, i as int) == self@); } %*/ } }
pub trait VxExtendSlice<T> { spec fn vxe(&self) -> Seq<T>;
    fn vx_extend_from_slice(&mut self, o: &[T]) ensures final(self).vxe() == old(self).vxe() + o@; }
impl<T: Clone> VxExtendSlice<T> for Vec<T> { open spec fn vxe(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_extend_from_slice(&mut self, o: &[T]) { unimplemented!() /*%is vx_ref_extend(self, o) %*/ } }
pub trait VxAsUsizeSpec { spec fn vx_as_usize_spec(&self) -> usize; }
pub trait VxAsUsize: VxAsUsizeSpec { fn vx_to_usize(self) -> (r: usize) ensures r == self.vx_as_usize_spec(); }
impl VxAsUsizeSpec for u8 { open spec fn vx_as_usize_spec(&self) -> usize { *self as usize } }
impl VxAsUsize for u8 { fn vx_to_usize(self) -> (r: usize) { self as usize } }
impl VxAsUsizeSpec for u16 { open spec fn vx_as_usize_spec(&self) -> usize { *self as usize } }
impl VxAsUsize for u16 { fn vx_to_usize(self) -> (r: usize) { self as usize } }
impl VxAsUsizeSpec for u32 { open spec fn vx_as_usize_spec(&self) -> usize { *self as usize } }
impl VxAsUsize for u32 { fn vx_to_usize(self) -> (r: usize) { self as usize } }
impl VxAsUsizeSpec for u64 { open spec fn vx_as_usize_spec(&self) -> usize { *self as usize } }
impl VxAsUsize for u64 { fn vx_to_usize(self) -> (r: usize) { self as usize } }
impl VxAsUsizeSpec for u128 { open spec fn vx_as_usize_spec(&self) -> usize { *self as usize } }
impl VxAsUsize for u128 { fn vx_to_usize(self) -> (r: usize) { self as usize } }
impl VxAsUsizeSpec for i32 { open spec fn vx_as_usize_spec(&self) -> usize { *self as usize } }
impl VxAsUsize for i32 { fn vx_to_usize(self) -> (r: usize) { self as usize } }
impl VxAsUsizeSpec for i64 { open spec fn vx_as_usize_spec(&self) -> usize { *self as usize } }
impl VxAsUsize for i64 { fn vx_to_usize(self) -> (r: usize) { self as usize } }
impl VxAsUsizeSpec for isize { open spec fn vx_as_usize_spec(&self) -> usize { *self as usize } }
impl VxAsUsize for isize { fn vx_to_usize(self) -> (r: usize) { self as usize } }
impl VxAsUsizeSpec for usize { open spec fn vx_as_usize_spec(&self) -> usize { *self as usize } }
impl VxAsUsize for usize { fn vx_to_usize(self) -> (r: usize) { self as usize } }
pub fn vx_as_usize<T: VxAsUsize>(x: T) -> (r: usize) ensures r == x.vx_as_usize_spec() { x.vx_to_usize() }
// (the spec functions sit in traits of their own: with both in one trait Verus can lose the spec's definition)
pub trait VxMinMaxSpec: Sized { spec fn vx_min_spec(self, o: Self) -> Self; spec fn vx_max_spec(self, o: Self) -> Self; }
pub trait VxMinMax: VxMinMaxSpec { fn vx_min(self, o: Self) -> (r: Self) ensures r == self.vx_min_spec(o); fn vx_max(self, o: Self) -> (r: Self) ensures r == self.vx_max_spec(o); }
impl VxMinMaxSpec for usize {
    open spec fn vx_min_spec(self, o: usize) -> usize { if self <= o { self } else { o } }
    open spec fn vx_max_spec(self, o: usize) -> usize { if self >= o { self } else { o } }
}
impl VxMinMax for usize {
    fn vx_min(self, o: usize) -> (r: usize) { if self <= o { self } else { o } }
    fn vx_max(self, o: usize) -> (r: usize) { if self >= o { self } else { o } }
}
impl VxMinMaxSpec for u64 {
    open spec fn vx_min_spec(self, o: u64) -> u64 { if self <= o { self } else { o } }
    open spec fn vx_max_spec(self, o: u64) -> u64 { if self >= o { self } else { o } }
}
impl VxMinMax for u64 {
    fn vx_min(self, o: u64) -> (r: u64) { if self <= o { self } else { o } }
    fn vx_max(self, o: u64) -> (r: u64) { if self >= o { self } else { o } }
}
impl VxMinMaxSpec for u32 {
    open spec fn vx_min_spec(self, o: u32) -> u32 { if self <= o { self } else { o } }
    open spec fn vx_max_spec(self, o: u32) -> u32 { if self >= o { self } else { o } }
}
impl VxMinMax for u32 {
    fn vx_min(self, o: u32) -> (r: u32) { if self <= o { self } else { o } }
    fn vx_max(self, o: u32) -> (r: u32) { if self >= o { self } else { o } }
}
impl VxMinMaxSpec for i64 {
    open spec fn vx_min_spec(self, o: i64) -> i64 { if self <= o { self } else { o } }
    open spec fn vx_max_spec(self, o: i64) -> i64 { if self >= o { self } else { o } }
}
impl VxMinMax for i64 {
    fn vx_min(self, o: i64) -> (r: i64) { if self <= o { self } else { o } }
    fn vx_max(self, o: i64) -> (r: i64) { if self >= o { self } else { o } }
}

/// unwrap in a function verified for invalid input: None panics
pub trait VxUnwrap<T> { fn vx_unwrap_or_panic(self) -> (r: T) ensures self.vx_some(r); spec fn vx_some(&self, r: T) -> bool; }
impl<T> VxUnwrap<T> for Option<T> { open spec fn vx_some(&self, r: T) -> bool { *self == Some(r) }
    #[verifier::external_body] fn vx_unwrap_or_panic(self) -> (r: T) { unimplemented!() /*%is match self { Some(x) => x, None => { vx_rejects(); vstd::pervasive::unreached() } } %*/ } }
impl<T, E> VxUnwrap<T> for Result<T, E> { open spec fn vx_some(&self, r: T) -> bool { *self == Ok::<T, E>(r) }
    #[verifier::external_body] fn vx_unwrap_or_panic(self) -> (r: T) { unimplemented!() /*%is match self { Ok(x) => x, Err(e) => { vx_rejects(); vstd::pervasive::unreached() } } %*/ } }

// ---- sequences: permutations
pub open spec fn distinct<G>(s: Seq<G>) -> bool { s.no_duplicates() }
pub open spec fn same_genes<G>(a: Seq<G>, b: Seq<G>) -> bool { a.len() == b.len() && a.no_duplicates() && b.no_duplicates() && forall|g: G| #[trigger] a.contains(g) <==> b.contains(g) }
pub open spec fn succ(i: int, n: int) -> int { if i + 1 < n { i + 1 } else { 0 } }
pub open spec fn pred(i: int, n: int) -> int { if i > 0 { i - 1 } else { n - 1 } }
pub trait VxClampSpec: Sized { spec fn vx_clamp_req(self, a: Self, b: Self) -> bool; spec fn vx_clamped(self, a: Self, b: Self, r: Self) -> bool; }
pub trait VxClamp: VxClampSpec { fn vx_clamp(self, a: Self, b: Self) -> (r: Self) requires self.vx_clamp_req(a, b) ensures self.vx_clamped(a, b, r); }
impl VxClampSpec for usize {
    open spec fn vx_clamp_req(self, a: usize, b: usize) -> bool { a <= b }
    open spec fn vx_clamped(self, a: usize, b: usize, r: usize) -> bool { r == (if self < a { a } else if self > b { b } else { self }) }
}
impl VxClamp for usize { fn vx_clamp(self, a: usize, b: usize) -> (r: usize) { if self < a { a } else if self > b { b } else { self } } }
