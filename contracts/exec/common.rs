// Shared by the extracted text (run with the prelude's reference implementations) and by the real crate: both print the
// results of the same calls, and the outputs must agree. One stream of numbers stands for the generator on both sides.
thread_local! { static STREAM: std::cell::Cell<u64> = std::cell::Cell::new(0); }
pub fn seed(x: u64) { STREAM.with(|s| s.set(x)); }
pub fn draw64() -> u64 {
    STREAM.with(|s| {
        let x = s.get().wrapping_add(0x9E3779B97F4A7C15);
        s.set(x);
        let z = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        let z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    })
}
/// all permutations of 0..n
pub fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 { return vec![vec![]]; }
    let mut r = vec![];
    for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); r.push(q); } }
    r
}
pub fn some_perm(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() { let j = draw64() as usize % (i + 1); v.swap(i, j); }
    v
}
/// pairs of parents: all permutations up to four genes, longer ones at random, related ones, some of unequal length
pub fn pairs() -> Vec<(Vec<usize>, Vec<usize>)> {
    let mut r = vec![];
    for n in 0..5 { let ps = perms(n); for a in &ps { for b in &ps { r.push((a.clone(), b.clone())); } } }
    seed(42);
    for k in 0..300 {
        let n = 5 + k % 12;
        let a = some_perm(n);
        let mut b = if k % 3 == 0 { some_perm(n) } else { a.clone() };
        if k % 3 == 1 { let i = draw64() as usize % n; b[i..].reverse(); b.rotate_left(i / 2); }
        if k % 3 == 2 { for _ in 0..k % 4 { let (i, j) = (draw64() as usize % n, draw64() as usize % n); b.swap(i, j); } }
        r.push((a, b));
    }
    for (m, n) in [(0, 1), (1, 0), (1, 2), (2, 1), (3, 5), (5, 3), (6, 7)] { r.push(((0..m).collect(), (0..n).collect())); }
    r
}
pub fn guard<T: std::fmt::Debug>(out: &mut Vec<String>, f: impl FnOnce() -> T) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    out.push(match r { Ok(x) => format!("{x:?}"), Err(_) => "panic".into() });
}
pub fn floats(n: usize, odd: bool) -> Vec<f64> {
    (0..n).map(|_| match draw64() % if odd { 9 } else { 6 } {
        0 => (draw64() % 4) as f64, 1 => -((draw64() % 4) as f64), 2 => draw64() as f64 / u64::MAX as f64, 3 => (draw64() % 1000) as f64 * 0.1,
        4 => (draw64() as i64 >> 20) as f64 * 1e-3, 5 => f64::from_bits(0x3FF0_0000_0000_0000 | draw64() >> 12),
        6 => f64::NAN, 7 => f64::INFINITY, _ => -f64::MAX,
    }).collect()
}
