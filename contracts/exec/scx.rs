pub fn cases(out: &mut Vec<String>) {
    for (a, b) in pairs() { for &p in a.iter().take(6) { guard(out, || sequential_constructive_crossover(&a, &b, p)); } }
}
