pub fn cases(out: &mut Vec<String>) {
    for n in 0..9usize { for k in 0..60u64 {
        guard(out, || { seed(k * 77 + n as u64); (random_pair(n, &mut Script), draw64()) });
        guard(out, || { seed(k * 77 + n as u64); (random_range(n, &mut Script), draw64()) });
        for a in 0..5 { for b in 0..9 { guard(out, || { seed(k * 77 + n as u64); (bounded_random_range(n, a, b, &mut Script), draw64()) }); } }
    } }
}
