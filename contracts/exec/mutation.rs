pub fn cases(out: &mut Vec<String>) {
    let st = [MutationStrategy::Swap, MutationStrategy::Scramble, MutationStrategy::Inversion, MutationStrategy::Insertion, MutationStrategy::Duplicate];
    for n in 0..14usize { for k in 0..40u64 { for s in &st {
        guard(out, || { let mut v: Vec<usize> = (0..n).collect(); seed(k * 1000 + n as u64); s.mutate(&mut v, &mut Script); (v, draw64()) });
    } } }
}
