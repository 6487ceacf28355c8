pub fn cases(out: &mut Vec<String>) {
    for (a, b) in pairs() { guard(out, || cycle_crossover(&a, &b)); }
}
