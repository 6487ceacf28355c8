pub fn cases(out: &mut Vec<String>) {
    for k in 0..1500u64 {
        seed(k);
        let v = floats(k as usize % 9, k % 4 == 0);
        guard(out, || { let mut s = Stats::default(); for &x in &v { s.record(fl(x)); } (s.avg().map(un), s.var().map(un), s.std().map(un)) });
        guard(out, || { let s = Stats::from_iter(items(v.iter().map(|x| fl(*x)).collect())); (s.avg().map(un), s.var().map(un), s.std().map(un)) });
    }
}
