pub fn cases(out: &mut Vec<String>) {
    for k in 0..20000u64 {
        seed(k);
        let v = floats(3, k % 4 == 0);
        let (a, b) = (draw64() as usize >> (draw64() % 64), draw64() as usize >> (draw64() % 64));
        let r = draw64() as f64 / u64::MAX as f64;
        guard(out, || un(interpolate_f64(fl(v[0]), fl(v[1]), fl(v[2]))));
        guard(out, || un(interpolate_f64(fl(v[0]), fl(v[1]), fl(r))));
        guard(out, || interpolate_usize(a, b, fl(r)));
        guard(out, || interpolate_usize(a, b, fl(v[2])));
    }
}
