pub fn cases(out: &mut Vec<String>) {
    for (a, b) in pairs() { for p in 0..a.len() + 2 { guard(out, || single_point_crossover(&a, &b, p)); } }
}
