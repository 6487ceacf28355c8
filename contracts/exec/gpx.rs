pub fn cases(out: &mut Vec<String>) {
    for (a, b) in pairs() { for k in 0..3 { guard(out, || generalized_partition_2_crossover(&a, &b, |last: Option<&usize>, p: &[Vec<usize>]| (last.copied().unwrap_or(1) * k + p[0].len()) % p.len())); } }
}
