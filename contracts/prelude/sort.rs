// sorting: par_sort_unstable_by and its relatives
pub open spec fn reversed(o: core::cmp::Ordering) -> core::cmp::Ordering { match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less } }
/// the comparison can be called on the elements of s and answers consistently with a total preorder
pub open spec fn cmp_total<T, F: Fn(&T, &T) -> core::cmp::Ordering>(f: F, s: Seq<T>) -> bool {
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() ==> f.requires((&s[i], &s[j]))
    &&& forall|i: int, j: int, o1: core::cmp::Ordering, o2: core::cmp::Ordering| 0 <= i < s.len() && 0 <= j < s.len() && #[trigger] f.ensures((&s[i], &s[j]), o1) && #[trigger] f.ensures((&s[j], &s[i]), o2) ==> o2 == reversed(o1)
    &&& forall|i: int, j: int, k: int, o1: core::cmp::Ordering, o2: core::cmp::Ordering, o3: core::cmp::Ordering|
        0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] f.ensures((&s[i], &s[j]), o1) && #[trigger] f.ensures((&s[j], &s[k]), o2) && #[trigger] f.ensures((&s[i], &s[k]), o3)
            && o1 != core::cmp::Ordering::Greater && o2 != core::cmp::Ordering::Greater ==> o3 != core::cmp::Ordering::Greater
}
pub open spec fn in_order<T, F: Fn(&T, &T) -> core::cmp::Ordering>(f: F, x: T, y: T) -> bool { exists|o: core::cmp::Ordering| #[trigger] f.ensures((&x, &y), o) && o != core::cmp::Ordering::Greater }
pub trait VxSort<T> { spec fn vxq(&self) -> Seq<T>;
    fn vx_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
        requires cmp_total(f, old(self).vxq()),
        ensures exists|p: Seq<int>| #[trigger] is_perm(p, old(self).vxq().len() as int) && final(self).vxq() == permuted(old(self).vxq(), p),
            forall|i: int, j: int| #![trigger final(self).vxq()[i], final(self).vxq()[j]] 0 <= i < j < final(self).vxq().len() ==> in_order(f, final(self).vxq()[i], final(self).vxq()[j]);
}
impl<T> VxSort<T> for [T] { open spec fn vxq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() /*%is let ghost s = old(self).vxq(); let n = self.len(); let mut i: usize = 0; let ghost mut p: Seq<int> = Seq::new(n as nat, |q: int| q);
        assert(self@ =~= permuted(s, p));
        while i < n
            invariant n == s.len(), i <= n, is_perm(p, n as int), self@ == permuted(s, p), forall|a: int, b: int| #![trigger self@[a], self@[b]] 0 <= a < b < i ==> in_order(f, self@[a], self@[b])
            decreases n - i
        {
            let ghost t = self@; let ghost p0 = p;
            // the first place whose element is greater
            let mut k: usize = 0; let mut stop = false;
            while k < i && !stop
                invariant k <= i, i < n, self@ == t, forall|a: int| 0 <= a < k ==> in_order(f, #[trigger] t[a], t[i as int]), stop ==> k < i && f.ensures((&t[k as int], &t[i as int]), core::cmp::Ordering::Greater)
                decreases (i - k) + (if stop { 0int } else { 1int })
            {
                assert(t[k as int] == s[p0[k as int]] && t[i as int] == s[p0[i as int]]);
                let o = f(&self[k], &self[i]);
                match o { core::cmp::Ordering::Greater => { stop = true; }, _ => { assert(in_order(f, t[k as int], t[i as int])); k += 1; } }
            }
            // everything from there on is not less
            let mut j: usize = k;
            while j < i
                invariant k <= j <= i, i < n, self@ == t, stop || k == i, forall|a: int| k <= a < j ==> in_order(f, t[i as int], #[trigger] t[a]),
                    j > k ==> f.ensures((&t[i as int], &t[k as int]), core::cmp::Ordering::Less)
                decreases i - j
            {
                assert(t[j as int] == s[p0[j as int]] && t[i as int] == s[p0[i as int]] && t[k as int] == s[p0[k as int]]);
                let c = f(&self[i], &self[j]);
                proof {
                    if j == k { assert(c == reversed(core::cmp::Ordering::Greater)); }
                    else {
                        assert(in_order(f, t[k as int], t[j as int]));
                        let o2 = choose|o: core::cmp::Ordering| #[trigger] f.ensures((&t[k as int], &t[j as int]), o) && o != core::cmp::Ordering::Greater;
                        assert(f.ensures((&s[p0[k as int]], &s[p0[j as int]]), o2));
                        assert(f.ensures((&s[p0[i as int]], &s[p0[k as int]]), core::cmp::Ordering::Less));
                        assert(f.ensures((&s[p0[i as int]], &s[p0[j as int]]), c));
                        assert(c != core::cmp::Ordering::Greater);
                    }
                    assert(in_order(f, t[i as int], t[j as int]));
                }
                j += 1;
            }
            let mut m: usize = i;
            assert(self@ =~= vx_ref_moved(t, m as int, i as int)); assert(p =~= vx_ref_moved(p0, m as int, i as int));
            while m > k
                invariant k <= m <= i, i < n, t.len() == n, self@ == vx_ref_moved(t, m as int, i as int), p == vx_ref_moved(p0, m as int, i as int), p0.len() == n
                decreases m
            {
                vx_ref_swap(self, m - 1, m);
                m -= 1;
                proof { p = vx_ref_moved(p0, m as int, i as int); assert(self@ =~= vx_ref_moved(t, m as int, i as int)); }
            }
            proof {
                vx_ref_moved_perm(p0, k as int, i as int, n as int);
                assert(self@ =~= permuted(s, p));
                assert forall|a: int, b: int| #![trigger self@[a], self@[b]] 0 <= a < b < i + 1 implies in_order(f, self@[a], self@[b]) by {
                    let a0 = if a == k { i as int } else if k < a <= i { a - 1 } else { a };
                    let b0 = if b == k { i as int } else if k < b <= i { b - 1 } else { b };
                    assert(self@[a] == t[a0] && self@[b] == t[b0]);
                }
            }
            i += 1;
        }
        assert(is_perm(p, old(self).vxq().len() as int) && self.vxq() == permuted(old(self).vxq(), p)); %*/ } }
pub assume_specification[ core::cmp::Ordering::is_ne ](o: core::cmp::Ordering) -> (r: bool) returns o != core::cmp::Ordering::Equal;
pub assume_specification[ core::cmp::Ordering::is_eq ](o: core::cmp::Ordering) -> (r: bool) returns o == core::cmp::Ordering::Equal;
pub assume_specification[ core::cmp::Ordering::is_lt ](o: core::cmp::Ordering) -> (r: bool) returns o == core::cmp::Ordering::Less;
pub assume_specification[ core::cmp::Ordering::is_gt ](o: core::cmp::Ordering) -> (r: bool) returns o == core::cmp::Ordering::Greater;
pub assume_specification[ core::cmp::Ordering::is_le ](o: core::cmp::Ordering) -> (r: bool) returns o != core::cmp::Ordering::Greater;
pub assume_specification[ core::cmp::Ordering::is_ge ](o: core::cmp::Ordering) -> (r: bool) returns o != core::cmp::Ordering::Less;
