//%broadcast vstd::std_specs::hash::group_hash_axioms
pub open spec fn lawful_hash<G>() -> bool { vstd::std_specs::hash::obeys_key_model::<G>() && vstd::std_specs::hash::builds_valid_hashers::<std::collections::hash_map::RandomState>() }
pub trait VxSetContains<T> { fn vx_contains(&self, x: &T) -> (r: bool) requires self.vx_ok() ensures r == self.vx_set().contains(*x); spec fn vx_set(&self) -> Set<T>; spec fn vx_ok(&self) -> bool; }
impl<T: Eq + Hash> VxSetContains<T> for HashSet<T> {
    open spec fn vx_set(&self) -> Set<T> { self@ }
    open spec fn vx_ok(&self) -> bool { lawful_hash::<T>() }
    fn vx_contains(&self, x: &T) -> (r: bool) { self.contains(x) } }
pub trait VxSetExtend<T> { fn vx_extend(&mut self, it: It<T>) requires old(self).vx_okx() ensures final(self).vx_setx() == old(self).vx_setx().union(it@.to_set()); spec fn vx_setx(&self) -> Set<T>; spec fn vx_okx(&self) -> bool; }
impl<T: Eq + Hash> VxSetExtend<T> for HashSet<T> {
    open spec fn vx_setx(&self) -> Set<T> { self@ }
    open spec fn vx_okx(&self) -> bool { lawful_hash::<T>() }
    #[verifier::external_body] fn vx_extend(&mut self, it: It<T>) { unimplemented!() /*%is let ghost s = it@; let mut v = it.v; let n = v.len(); let mut i: usize = 0;
        while i < n invariant n == s.len(), v@ == s.subrange(i as int, n as int), i <= n, lawful_hash::<T>(), self@ == old(self)@.union(s.subrange(0, i as int).to_set()) decreases n - i {
            let x = v.remove(0); assert(x == s[i as int]); self.insert(x);
            proof { vx_ref_push_set(s, i as int); assert(self@ =~= old(self)@.union(s.subrange(0, i + 1).to_set())); }
            i += 1;
        }
        assert(s.subrange(0, n as int) =~= s); %*/ } }
impl<T> VxSeqLike for HashSet<T> { type VxItem = T; uninterp spec fn vx_seq(&self) -> Seq<T>;
    #[verifier::external_body] fn vx_iter(&self) -> (r: It<&T>) { unimplemented!() } }
pub broadcast axiom fn axiom_set_iteration<T>(s: HashSet<T>) ensures #[trigger] s.vx_seq().no_duplicates(), s.vx_seq().to_set() == s@;
