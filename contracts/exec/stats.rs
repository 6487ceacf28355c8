pub fn cases(out: &mut Vec<String>) {
    for k in 0..1500u64 {
        seed(k);
        let v = floats(k as usize % 9, k % 4 == 0);
        guard(out, || { let mut s = Stats::default(); for &x in &v { s.record(fl(x)); } (s.count(), s.min().map(un), s.arg_min(), s.max().map(un), s.arg_max(), s.snapshot().map(|p| (p.count(), un(p.min()), p.arg_min(), un(p.max()), p.arg_max()))) });
        guard(out, || { let s = Stats::from_iter(items(v.iter().map(|x| fl(*x)).collect())); (s.count(), s.min().map(un), s.arg_min(), s.max().map(un), s.arg_max()) });
    }
}
