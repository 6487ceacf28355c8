pub fn cases(out: &mut Vec<String>) {
    for (a, b) in pairs() { for s in 0..=a.len().min(7) { for e in s..=a.len().min(9) { guard(out, || order_crossover(&a, &b, s..e)); } } }
}
