//! Facts about double-precision arithmetic that the contracts assume (contracts/prelude/f64leaf.rs), each decided over the
//! whole domain (no loop, no bound) by Kani's bit-precise floating point; the harness has the name of the fact.
#![cfg(kani)]

const EXACT: f64 = 9007199254740992.0; // 2^53

/// floor(a) is the largest whole number not above a, exactly
#[kani::proof]
fn leaf_floor() {
    let a: f64 = kani::any();
    kani::assume(a.is_finite());
    let f = a.floor();
    assert!(f.is_finite());
    if a.abs() < EXACT {
        // below 2^53 whole numbers and their successors are exact
        assert!((f as i64) as f64 == f);
        assert!(f <= a && a < f + 1.0);
    } else {
        // from 2^53 on every double is whole
        assert!(f == a);
    }
}

/// a share below one of a whole number up to 2^53 stays below that number, and is not negative
#[kani::proof]
fn leaf_share_below() {
    let n: u64 = kani::any();
    let r: f64 = kani::any();
    kani::assume(0 < n && n <= (1u64 << 53) && 0.0 <= r && r < 1.0);
    let x = (n as f64) * r;
    assert!(x.is_finite() && 0.0 <= x && x < n as f64);
    // up to 2^53 the conversion is exact
    assert!((n as f64) as u64 == n);
}

/// adding to zero (as converted from a whole number) changes nothing
#[kani::proof]
fn leaf_zero_add() {
    let x: f64 = kani::any();
    let r = (0usize as f64) + x;
    assert!(if x.is_nan() { r.is_nan() } else { r == x });
}


/// whole numbers up to 2^53 convert exactly
#[kani::proof]
fn leaf_whole() {
    let n: u64 = kani::any();
    kani::assume(n <= 1u64 << 53);
    let x = n as f64;
    assert!(x as u64 == n && x.floor() == x);
}

/// a number from [0, 1] and its difference from one add up to one
#[kani::proof]
fn leaf_one_minus() {
    let a: f64 = kani::any();
    kani::assume(0.0 <= a && a <= 1.0);
    assert!(a + (1.0 - a) == 1.0);
}

/// a zero divided by a finite non-zero number is zero (by IEEE 754, zero by infinity is zero; zero by zero, and anything by NaN, is NaN)
#[kani::proof]
fn leaf_zero_div() {
    let x: f64 = kani::any();
    let y: f64 = kani::any();
    kani::assume(x == 0.0 && y != 0.0 && y.is_finite());
    assert!(x / y == 0.0);
}
