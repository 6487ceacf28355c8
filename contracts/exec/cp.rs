pub fn cases(out: &mut Vec<String>) {
    for (a, b) in pairs() { guard(out, || common_partitions(&a, &b)); }
}
