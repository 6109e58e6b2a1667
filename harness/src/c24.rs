//! systems of linear congruences
use crate::vp::*;
use rust_cp::math::number_theory::ex_crt;

fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
/// every integer congruent to r mod m, up to 60 bits
fn like(r: i64, m: i64, signed: bool) -> i64 {
    let q = any(60 - (64 - (m as u64).leading_zeros())) as i64;
    if signed && pick(2) == 1 {
        -(q * m) - if r == 0 { 0 } else { m - r }
    } else {
        q * m + r
    }
}
/// compare with all x below the least common multiple of the moduli
fn small(n: usize, top: usize, signed: usize) {
    let m: Vec<i64> = (0..n).map(|_| 1 + pick(top) as i64).collect();
    let ra: Vec<i64> = m.iter().map(|&m| pick(m as usize) as i64).collect();
    let rb: Vec<i64> = m.iter().map(|&m| pick(m as usize) as i64).collect();
    let l = m.iter().fold(1, |l, &m| l / gcd(l as i128, m as i128) as i64 * m);
    let fits: Vec<i64> = (0..l).filter(|x| (0..n).all(|i| (ra[i] * x - rb[i]) % m[i] == 0)).collect();
    let sign = if signed == 0 { n } else { pick(n + 1) };
    let a: Vec<i64> = (0..n).map(|i| like(ra[i], m[i], sign == i)).collect();
    let b: Vec<i64> = (0..n).map(|i| like(rb[i], m[i], sign == i)).collect();
    match ex_crt(&a, &b, &m) {
        None => check(fits.is_empty(), "a solvable system has a solution"),
        Some((x, step)) => {
            observe(x as u64);
            observe(step as u64);
            check(!fits.is_empty(), "an unsolvable system has none");
            check((0 <= x) & (x < step), "smallest non-negative solution");
            check(l % step == 0 && fits.len() as i64 == l / step && fits[0] == x, "exactly the solutions");
            check(fits.iter().all(|f| f % step == x), "exactly the solutions");
        }
    }
}
harness! {
fn c24_one() {
    small(pick(2), param(0), 1)
}
fn c24_two() {
    small(2, param(0), param(1))
}
fn c24_three() {
    small(3, param(0), param(1))
}
/// large moduli: every b with a few remainders, a coprime to the modulus or not
fn c24_large() {
    const P: [(i64, i64); 14] = [
        (2147483647, 2147483648), (1000000007, 998244353), (3037000499, 3037000500), (i64::MAX, 1), (1, i64::MAX), (1 << 62, 2), (1 << 31, 1 << 32), (1 << 62, 1 << 61),
        (i64::MAX, i64::MAX), (1 << 20, 3486784401), (6620319213327, 7), (4294967291, 2147483646), (3, 3074457345618258602), (i64::MAX, 7),
    ];
    let (m0, m1) = P[pick(14)];
    let rs = [0, 1, 2, 12345, i64::MAX];
    let pr = |m: i64| match pick(6) { 5 => m - 1, t => rs[t] % m };
    let far = |r: i64, m: i64| {
        let n = (m as u64).leading_zeros() as i32 - 2;
        if n <= 0 { r } else { let q = any(n as u32) as i64; if pick(2) == 0 { q * m + r } else { -(q * m) - if r == 0 { 0 } else { m - r } } }
    };
    let (r0, r1) = (pr(m0), pr(m1));
    let k: i64 = [1, 2, -1, 3][pick(4)];
    let a = vec![1, k];
    let b = vec![far(r0, m0), far(r1, m1)];
    let m = vec![m0, m1];
    let (w0, w1) = (m0 as i128, m1 as i128);
    // x = r0 + m0 t: the second congruence becomes k m0 t = r1 - k r0 mod m1
    let g = gcd((k as i128 * w0).rem_euclid(w1), w1);
    let d = r1 as i128 - k as i128 * r0 as i128;
    let step = w0 * (w1 / g);
    assume(step <= i64::MAX as i128);
    match ex_crt(&a, &b, &m) {
        None => check(d % g != 0, "a solvable system has a solution"),
        Some((x, s)) => {
            check(d % g == 0, "an unsolvable system has none");
            check(s as i128 == step, "period");
            check(0 <= x && x < s, "smallest non-negative solution");
            check(x as i128 % w0 == r0 as i128 && (k as i128 * x as i128 - r1 as i128) % w1 == 0, "solution");
        }
    }
}
/// the ends of the 64-bit range
fn c24_extremes() {
    const V: [i64; 8] = [i64::MIN, i64::MIN + 1, -1, 0, 1, 2, i64::MAX - 1, i64::MAX];
    let (a, b) = (V[pick(8)], V[pick(8)]);
    let m = [1, 2, 3, 10, 1 << 31, 1 << 62, i64::MAX - 1, i64::MAX][pick(8)];
    let first = pick(3);
    let (mut av, mut bv, mut mv) = (vec![a], vec![b], vec![m]);
    if first < 2 {
        av.insert(first, 1);
        bv.insert(first, -1);
        mv.insert(first, 2);
    }
    let (a, b, w) = (a as i128, b as i128, m as i128);
    let g = gcd(a.rem_euclid(w), w);
    if first == 2 {
        match ex_crt(&av, &bv, &mv) {
            None => check(b % g != 0, "a solvable system has a solution"),
            Some((x, s)) => {
                check(b % g == 0, "an unsolvable system has none");
                check(s as i128 == w / g && 0 <= x && x < s, "smallest non-negative solution");
                check((a.rem_euclid(w) * x as i128 - b.rem_euclid(w)) % w == 0, "solution");
            }
        }
    } else {
        // a * x = b mod m and x odd
        let p = w / g;
        assume(p % 2 == 0 || p * 2 <= i64::MAX as i128);
        match ex_crt(&av, &bv, &mv) {
            None => {
                // only x = 1 mod 2 against an even period can fail besides the congruence itself
                check(b % g != 0 || p % 2 == 0, "a solvable system has a solution");
                if b % g == 0 {
                    let alone = ex_crt(&vec![a as i64], &vec![b as i64], &vec![m]);
                    check(alone.map_or(false, |t| t.0 % 2 == 0), "a solvable system has a solution");
                }
            }
            Some((x, s)) => {
                check(b % g == 0 && x % 2 == 1, "an unsolvable system has none");
                check(s as i128 == if p % 2 == 0 { p } else { 2 * p } && 0 <= x && x < s, "smallest non-negative solution");
                check((a.rem_euclid(w) * (x as i128 % w) - b.rem_euclid(w)) % w == 0, "solution");
            }
        }
    }
}
}
