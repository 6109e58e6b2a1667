//! gcd, lcm and extended gcd over every integer type
use crate::vp::*;
use rust_cp::math::number_theory::{ex_gcd, gcd, lcm};

fn plain_gcd(a: u64, b: u64) -> u64 {
    if a == 0 || b == 0 {
        return a | b;
    }
    let mut g = a.min(b);
    while a % g != 0 || b % g != 0 {
        g -= 1;
    }
    g
}
/// a symbolic number of `bits` bits, up to 124
fn wide(bits: u32) -> u128 {
    if bits == 0 {
        0
    } else if bits <= 64 {
        any(bits) as u128
    } else {
        ((any(bits - 64) as u128) << 64) | any(64) as u128
    }
}
fn bits_of(v: u64) -> u32 {
    64 - v.leading_zeros()
}
macro_rules! types {
    ($f:ident, $k:expr) => {
        match $k {
            0 => $f!(u8, 8),
            1 => $f!(u16, 16),
            2 => $f!(u32, 32),
            3 => $f!(u64, 64),
            4 => $f!(usize, 64),
            5 => $f!(u128, 124),
            6 => $f!(i8, 7),
            7 => $f!(i16, 15),
            8 => $f!(i32, 31),
            9 => $f!(i64, 63),
            10 => $f!(isize, 63),
            _ => $f!(i128, 123),
        }
    };
}
macro_rules! signed {
    ($f:ident, $k:expr) => {
        match $k {
            0 => $f!(i8, 7),
            1 => $f!(i16, 15),
            2 => $f!(i32, 31),
            3 => $f!(i64, 63),
            4 => $f!(isize, 63),
            _ => $f!(i128, 123),
        }
    };
}
/// consecutive Fibonacci numbers: the longest chains of divisions
fn fib(n: usize) -> (u64, u64) {
    let (mut a, mut b) = (1, 1);
    for _ in 0..n {
        (a, b) = (a + b, a);
    }
    (a, b)
}
harness! {
/// a = q * b + r for every q, every small b and r
fn c23_gcd() {
    let b = pick(param(0) + 1) as u64;
    let r = if b == 0 { 0 } else { pick(b as usize) as u64 };
    let flip = pick(2) == 1;
    macro_rules! go {
        ($t:ty, $n:expr) => {{
            let q = if b == 0 || $n <= bits_of(b) { pick(2) as $t } else { wide($n - bits_of(b) - 1) as $t + flip as $t };
            let a = if b == 0 { wide($n) as $t } else { q * b as $t + r as $t };
            let g = if flip {
                // the larger number second
                gcd(b as $t, a)
            } else {
                gcd(a, b as $t)
            };
            let e = if b == 0 { a } else { plain_gcd(r, b) as $t };
            observe(g as u64);
            check(g == e, "greatest common divisor");
        }};
    }
    types!(go, pick(12))
}
/// gcd and lcm of A*g and B*g for coprime A, B and every g
fn c23_scaled() {
    let (p, q) = (1 + pick(param(0)) as u64, 1 + pick(param(0)) as u64);
    assume(plain_gcd(p, q) == 1);
    macro_rules! go {
        ($t:ty, $n:expr) => {{
            let s = bits_of(p * q);
            let v = 1 + wide($n - s - 1) as $t;
            check(gcd(p as $t * v, q as $t * v) == v, "greatest common divisor");
            check(lcm(p as $t * v, q as $t * v) == (p * q) as $t * v, "least common multiple");
        }};
    }
    types!(go, pick(12))
}
/// long division chains, every common factor
fn c23_chain() {
    let k = 2 + pick(param(0));
    let (a, b) = fib(k);
    let extra = pick(3) as u64;
    macro_rules! go {
        ($t:ty, $n:expr) => {{
            if $n > bits_of(a) + 4 {
                let v = 1 + wide($n - bits_of(a) - 3) as $t;
                let a = (a + extra * b) as $t * v;
                check(gcd(a, b as $t * v) == v, "greatest common divisor");
                check(gcd(b as $t * v, a) == v, "greatest common divisor");
            }
        }};
    }
    types!(go, pick(12))
}
/// lcm of a = q * b + r and b
fn c23_lcm() {
    let b = 1 + pick(param(0)) as u64;
    let r = pick(b as usize) as u64;
    let flip = pick(2) == 1;
    macro_rules! go {
        ($t:ty, $n:expr) => {{
            let q = if $n > 2 * bits_of(b) { wide($n - 2 * bits_of(b) - 1) as $t + (flip || r == 0) as $t } else { any(1) as $t };
            assume($n > 2 * bits_of(b) || q == 0);
            let a = q * b as $t + r as $t;
            assume(a > 0);
            if $n > 2 * bits_of(b) || 2 * bits_of(b) - 1 < $n {
                let g = plain_gcd(r, b) as $t;
                let l = if flip { lcm(b as $t, a) } else { lcm(a, b as $t) };
                check(l == a * (b as $t / g), "least common multiple");
            }
        }};
    }
    types!(go, pick(12))
}
/// the coefficients for a = q * b + r with every sign
fn c23_ex_gcd() {
    let b = pick(param(0) + 1) as i64;
    let r = if b == 0 { 0 } else { pick(b as usize) as i64 };
    let (sa, sb, flip) = (pick(2) == 1, pick(2) == 1, pick(2) == 1);
    macro_rules! go {
        ($t:ty, $n:expr) => {{
            if b < 1 << ($n as u32).min(30) {
                let q = if b == 0 || $n <= bits_of(b as u64) { 0 } else { wide($n - bits_of(b as u64) - 1) as $t + if flip { 2 } else { 0 } };
                let a = if b == 0 { wide($n) as $t } else { q * b as $t + r as $t };
                let e = if b == 0 { a } else { plain_gcd(r as u64, b as u64) as $t };
                let a = if sa { -a } else { a };
                let c = if sb { -b } else { b } as $t;
                let (x, y, g) = if flip {
                    let (y, x, g) = ex_gcd(c, a);
                    (x, y, g)
                } else {
                    ex_gcd(a, c)
                };
                check((g == e) | (g == -e), "greatest common divisor");
                check(a.wrapping_mul(x).wrapping_add(c.wrapping_mul(y)) == g, "coefficients");
            }
        }};
    }
    signed!(go, pick(6))
}
/// multiples of every g by small numbers of every sign
fn c23_ex_scaled() {
    let p = pick(2 * param(0) + 1) as i64 - param(0) as i64;
    let q = pick(2 * param(0) + 1) as i64 - param(0) as i64;
    assume(plain_gcd(p.unsigned_abs(), q.unsigned_abs()) == 1);
    macro_rules! go {
        ($t:ty, $n:expr) => {{
            let v = 1 + wide($n - bits_of(p.unsigned_abs().max(q.unsigned_abs())) - 1) as $t;
            let (a, b) = (p as $t * v, q as $t * v);
            let (x, y, g) = ex_gcd(a, b);
            check((g == v) | (g == -v), "greatest common divisor");
            check(p as $t * x + q as $t * y == if branch(g == v) { 1 } else { -1 }, "coefficients");
        }};
    }
    signed!(go, pick(6))
}
/// the ends of the types
fn c23_extremes() {
    let (i, j) = (pick(9), pick(9));
    macro_rules! go {
        ($t:ty, $n:expr) => {{
            let v = [<$t>::MAX, <$t>::MAX - 1, <$t>::MAX / 2, <$t>::MAX / 2 + 1, <$t>::MAX / 3, 1, 0, -<$t>::MAX, -<$t>::MAX / 2];
            let (a, b) = (v[i], v[j]);
            let (x, y, g) = ex_gcd(a, b);
            if g == 0 {
                check(a == 0 && b == 0, "greatest common divisor");
            } else {
                // a common divisor that is a combination of both is the greatest
                check(a % g == 0 && b % g == 0, "greatest common divisor");
            }
            check(a.wrapping_mul(x).wrapping_add(b.wrapping_mul(y)) == g, "coefficients");
            if a >= 0 && b >= 0 {
                let h = gcd(a, b);
                check(h == if g < 0 { -g } else { g }, "greatest common divisor");
            }
        }};
    }
    signed!(go, pick(6))
}
}
