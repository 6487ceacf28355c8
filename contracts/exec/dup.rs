pub fn cases(out: &mut Vec<String>) {
    for n in 0..14usize { for k in 0..200u64 {
        guard(out, || { let mut v: Vec<usize> = (0..n).collect(); seed(k * 1000 + n as u64); duplicate_mutation(&mut v, &mut Script); (v, draw64()) });
    } }
}
