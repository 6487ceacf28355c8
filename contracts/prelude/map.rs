/// m.entry(k).or_insert_with(HashSet::new).extend(v)
#[verifier::external_body]
pub fn vx_entry_extend<K: Eq + Hash, T: Eq + Hash + Clone, const N: usize>(m: &mut HashMap<K, HashSet<T>>, k: K, v: [T; N])
    requires lawful_hash::<K>(), lawful_hash::<T>(),
    ensures final(m)@.dom() == old(m)@.dom().insert(k),
        forall|j: K| j != k && old(m)@.contains_key(j) ==> #[trigger] final(m)@[j] == old(m)@[j],
        final(m)@[k]@ == (if old(m)@.contains_key(k) { old(m)@[k]@ } else { Set::empty() }).union(v@.to_set()),
{ unimplemented!() /*%is let mut s = match m.remove(&k) { Some(s) => s, None => HashSet::new() };
    let mut w: Vec<T> = Vec::new(); vx_ref_extend(&mut w, &v); assert(w@ =~= v@); let it = It { v: w };
    s.vx_extend(it);
    m.insert(k, s); %*/ }
/// for s in m.values_mut() { s.remove(x); }
#[verifier::external_body]
pub fn vx_values_mut_remove<K: Eq + Hash + Clone, T: Eq + Hash>(m: &mut HashMap<K, HashSet<T>>, x: &T)
    requires lawful_hash::<K>(), lawful_hash::<T>(),
    ensures final(m)@.dom() == old(m)@.dom(),
        forall|j: K| old(m)@.contains_key(j) ==> (#[trigger] final(m)@[j])@ == old(m)@[j]@.remove(*x),
{ unimplemented!() /*%is let ks = vx_ref_keys(&*m); let n = ks.len(); let mut i: usize = 0; let ghost om = m@;
    while i < n invariant n == ks@.len(), i <= n, ks@.no_duplicates(), ks@.to_set() == om.dom(), om == old(m)@, lawful_hash::<K>(), lawful_hash::<T>(), m@.dom() == om.dom(),
        forall|j: int| 0 <= j < i ==> (#[trigger] m@[ks@[j]])@ == om[ks@[j]]@.remove(*x), forall|j: int| i <= j < n ==> #[trigger] m@[ks@[j]] == om[ks@[j]] decreases n - i {
        let k = &ks[i]; proof { assert(ks@.to_set().contains(ks@[i as int])); }
        match m.remove(k) { Some(s) => { let mut s = s; s.remove(x); m.insert(vx_clone_of(k), s); }, None => {} }
        assert(m@.dom() =~= om.dom());
        i += 1;
    }
    assert forall|j: K| old(m)@.contains_key(j) implies (#[trigger] m@[j])@ == old(m)@[j]@.remove(*x) by { assert(ks@.to_set().contains(j)); let q = choose|q: int| 0 <= q < ks@.len() && ks@[q] == j; assert(m@[ks@[q]]@ == om[ks@[q]]@.remove(*x)); } %*/ }
/// m[&k]: panics when k is absent
#[verifier::external_body]
pub fn vx_map_index<'a, K: Eq + Hash, V>(m: &'a HashMap<K, V>, k: &K) -> (r: &'a V)
    requires lawful_hash::<K>(), m@.contains_key(*k),
    ensures *r == m@[*k],
{ unimplemented!() /*%is match m.get(k) { Some(x) => x, None => vstd::pervasive::unreached() } %*/ }
