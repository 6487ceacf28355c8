// What rand 0.8 makes of the stream, for the extracted text (the real crate draws through rand itself).
pub fn below(lo: usize, hi: usize) -> usize {
    let range = (hi - lo) as u64;
    let zone = (range << range.leading_zeros()).wrapping_sub(1);
    loop { let m = draw64() as u128 * range as u128; if m as u64 <= zone { return lo + (m >> 64) as usize; } }
}
pub fn pick(n: usize) -> usize {
    let range = n as u32;
    let zone = (range << range.leading_zeros()).wrapping_sub(1);
    loop { let m = (draw64() as u32) as u64 * range as u64; if m as u32 <= zone { return (m >> 32) as usize; } }
}
pub fn unit() -> f64 { (draw64() >> 11) as f64 * (1.0 / (1u64 << 53) as f64) }
/// rand's Uniform::new(lo, hi)
pub fn uniform(lo: usize, hi: usize) -> usize {
    let range = (hi - lo) as u64;
    let zone = u64::MAX - (u64::MAX - range + 1) % range;
    loop { let m = draw64() as u128 * range as u128; if m as u64 <= zone { return lo + (m >> 64) as usize; } }
}
