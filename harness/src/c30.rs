//! remainder, gcd-inverse and power helpers (through the vp_hooks wrappers)
use crate::mint::cycle;
use crate::vp::*;
use rust_cp::math::internal_math::vp_hooks::{inv_gcd, mul_mod, pow_mod, safe_mod};

/// moduli of every size, up to the largest 64-bit one
const M64: [i64; 24] = [
    1, 2, 3, 4, 5, 7, 10, 16, 61, 97, 255, 256, 1000, 65537, 998244353, 1000000007, (1 << 31) - 1, 1 << 31, (1 << 32) + 15, 6620319213327, 1 << 40,
    (1 << 62) - 57, 1 << 62, i64::MAX,
];
fn gcd(a: u64, b: u64) -> u64 {
    // the definition: largest common divisor
    let mut g = a.max(b);
    while g > 1 {
        if a % g == 0 && b % g == 0 {
            return g;
        }
        g -= 1;
    }
    g
}
harness! {
/// x = q * m + r for every remainder and quotient that keeps x within 62 bits
fn c30_safe_mod() {
    let m = M64[pick(24)];
    let bits = (62 - (64 - (m as u64).leading_zeros()) as i32).max(1) as u32;
    let q = any_i64(bits + 1);
    let r = below(m as u64) as i64;
    if bits == 1 {
        assume(q.unsigned_abs() < 1);
    }
    let x = q * m + r;
    let s = safe_mod(x, m);
    observe(s as u64);
    check(s == r, "Euclidean remainder");
}
/// the ends of the 64-bit range
fn c30_safe_mod_extremes() {
    let m = M64[pick(24)];
    let d = any(16) as i64;
    let x = if pick(2) == 0 { i64::MIN + d } else { i64::MAX - d };
    let s = safe_mod(x, m);
    observe(s as u64);
    check((0 <= s) & (s < m), "in range");
    check((x as i128 - s as i128) % m as i128 == 0, "congruent");
}
/// every modulus of 63 bits with x between -2m and 2m
fn c30_safe_mod_any_modulus() {
    let q = pick(4) as i128 - 2;
    let m = 1 + any(62) as i64;
    let r = any(62) as i64;
    assume(r < m);
    let x = q * m as i128 + r as i128;
    assume((x >= i64::MIN as i128) & (x <= i64::MAX as i128));
    let s = safe_mod(x as i64, m);
    check(s == r, "Euclidean remainder");
}
/// every a against every small b
fn c30_inv_gcd() {
    let b = 1 + pick(param(0)) as i64;
    let r = pick(b as usize) as i64;
    let q = any(55) as i64;
    let a = if pick(2) == 0 { q * b + r } else { r - (q + 1) * b };
    let (g, x) = inv_gcd(a, b);
    observe(g as u64);
    observe(x as u64);
    let e = if r == 0 { b } else { gcd(r as u64, b as u64) as i64 };
    check(g == e, "greatest common divisor");
    check((0 <= x) & (x < b / e), "range of the inverse");
    check((r * x - e) % b == 0, "inverse up to the gcd");
}
/// a = A*g and b = B*g for small coprime A, B and every g
fn c30_inv_gcd_scaled() {
    let big_b = 1 + pick(param(0)) as i64;
    let big_a = pick(2 * param(0)) as i64 - param(0) as i64;
    assume(gcd(big_a.unsigned_abs() % big_b as u64, big_b as u64) == 1 || big_b == 1);
    let g = 1 + any(50) as i64;
    let (h, x) = inv_gcd(big_a * g, big_b * g);
    check(h == g, "greatest common divisor");
    check((0 <= x) & (x < big_b), "range of the inverse");
    check((big_a * x - 1) % big_b == 0, "inverse up to the gcd");
}
/// large moduli, picked residues
fn c30_inv_gcd_large() {
    let b = M64[13 + pick(11)];
    let t = pick(8);
    let r = [1, 2, 3, b - 1, b / 2, b / 3 + 1, 1 << 31, 123456789][t] % b;
    let k = pick(3) as i128 - 1;
    let a = k * b as i128 + r as i128;
    assume(a >= i64::MIN as i128 && a <= i64::MAX as i128);
    let (g, x) = inv_gcd(a as i64, b);
    check(g >= 1 && b % g == 0 && r % g == 0, "common divisor");
    check((0 <= x) & (x < b / g), "range of the inverse");
    check((r as i128 * x as i128 - g as i128) % b as i128 == 0, "greatest, and inverse");
}
/// every exponent below a bound, every 60-bit x, small modulus
fn c30_pow_mod() {
    let m = 1 + pick(param(0)) as i32;
    let r = pick(m as usize) as i64;
    let q = any(50) as i64;
    let x = if pick(2) == 0 { q * m as i64 + r } else { r - (q + 1) * m as i64 };
    let n = any_by_length(param(1) as u32) as i64;
    let s = pow_mod(x, n, m);
    observe(s as u64);
    check((0 <= s) & (s < m as i64), "in range");
    check(s as u64 == cycle(r as u64, m as u64, n as u64), "power");
}
/// exponents of 63 bits: any window of bits, the rest 0 or 1
fn c30_pow_window() {
    let m = 1 + pick(param(0)) as i32;
    let x = pick(m as usize) as i64;
    let bits = param(1) as u32;
    let at = [8, 16, 24, 29, 40, 63 - bits][pick(6)];
    let low = [0, 1, (1 << at) - 1][pick(3)];
    let n = ((any_by_length(bits) as i64) << at) | low;
    let s = pow_mod(x, n, m);
    observe(s as u64);
    check(s as u64 == cycle(x as u64, m as u64, n as u64), "power");
}
/// large moduli: every x with tiny exponents, picked x with larger ones
fn c30_pow_large() {
    let m = [65537, 998244353, 1000000007, i32::MAX, i32::MAX - 1, 1 << 30][pick(6)];
    let n = pick(param(0)) as i64;
    let x = if n <= 3 { below(m as u64) as i64 } else { [2, 3, m as i64 - 1, m as i64 / 2, -5, 1 << 40, i64::MIN, i64::MAX][pick(8)] };
    let s = pow_mod(x, n, m);
    let y = (x as i128).rem_euclid(m as i128) as u64;
    let mut e = 1u64;
    for _ in 0..n {
        e = e * y % m as u64;
    }
    check(s as u64 == e, "power");
}
/// modular product through Barrett reduction
fn c30_mul_mod() {
    let m = M64[pick(18)] as u32;
    let (a, b) = (below(m as u64), below(m as u64));
    let r = mul_mod(a as u32, b as u32, m);
    check(r as u64 == a * b % m as u64, "product");
}
}
