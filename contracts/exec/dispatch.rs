// edge recombination is left out: std's hash sets are iterated in an arbitrary order
pub fn cases(out: &mut Vec<String>) {
    let st = [CrossoverStrategy::GeneralizedPartition2, CrossoverStrategy::SequentialConstructive, CrossoverStrategy::PartiallyMapped, CrossoverStrategy::Order, CrossoverStrategy::Cycle, CrossoverStrategy::SinglePoint];
    for (k, (a, b)) in pairs().into_iter().enumerate() { for s in &st { for j in 0..3 {
        guard(out, || { seed(k as u64 * 3 + j); (s.crossover(&a, &b, &mut Script), draw64()) });
    } } }
}
