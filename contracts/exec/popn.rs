// the sort is not stable: equally fit individuals are put in order of their id, and of the places of extremes only the fitness is kept
pub fn cases(out: &mut Vec<String>) {
    for k in 0..6000u64 {
        seed(k * 64);
        let (n, fs, ids) = (k % 17, 1 + draw64() % 6, 1 + draw64() % 5);
        let v: Vec<Ind> = (0..n).map(|_| Ind { f: fl((draw64() % fs) as f64 * 0.3 - 0.6), id: (draw64() % ids) as usize }).collect();
        guard(out, || {
            let (mut v, lo, a, hi, b, c) = made(v);
            let (fa, fb) = (v[a].0, v[b].0);
            assert!(v.windows(2).all(|w| w[0].0 <= w[1].0));
            v.sort_by(|x, y| x.partial_cmp(y).unwrap());
            (v, lo, fa, hi, fb, c)
        });
    }
}
