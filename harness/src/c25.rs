//! factorials, binomial coefficients, permutations
use crate::vp::*;
use rust_cp::math::factorial::Factorial;
use rust_cp::misc::modint::{Mod1000000007, Mod998244353, Modulus};

moduli! {
    P2 = 2, true; P3 = 3, true; P5 = 5, true; P7 = 7, true; P13 = 13, true; Plain11 = 11, false; P61 = 61, true; P251 = 251, true; Plain = 1000003, false;
    Mersenne = 2147483647, true;
}
/// row n of Pascal's triangle, and n * (n-1) * ... for each length
fn rows(n: usize, m: u64) -> (Vec<u64>, Vec<u64>) {
    let mut c = vec![1 % m];
    for i in 1..=n {
        let mut d = vec![1 % m; i + 1];
        for j in 1..i {
            d[j] = (c[j - 1] + c[j]) % m;
        }
        c = d;
    }
    let mut f = vec![1 % m];
    for j in 0..n {
        f.push(f[j] * (n - j) as u64 % m);
    }
    (c, f)
}
fn within<M: Modulus>(max: usize) {
    let m = M::VALUE as u64;
    let size = max - pick(max.min(param(0)) + 1);
    let t = Factorial::<M>::new(size);
    let n = pick(size + 1);
    let k = below(n as u64 + 1) as usize;
    let (c, f) = rows(n, m);
    let (mut ec, mut ef) = (0, 0);
    for j in 0..=n {
        ec = ite(k == j, c[j], ec);
        ef = ite(k == j, f[j], ef);
    }
    if pick(2) == 0 {
        check(t.choose(n, k).val() as u64 == ec, "binomial coefficient");
    } else {
        check(t.perm(n, k).val() as u64 == ef, "permutations");
    }
}
fn beyond<M: Modulus>(max: usize) {
    let size = pick(max + 1);
    let t = Factorial::<M>::new(size);
    let (n, k) = (any(64) as usize, any(64) as usize);
    assume((k > n) | (n > size));
    may_panic(true);
    if pick(2) == 0 {
        t.choose(n, k);
    } else {
        t.perm(n, k);
    }
    check(false, "outside the table or k > n");
}
harness! {
/// primes below 14: every table size, n and k
fn c25_small() {
    match pick(6) {
        0 => within::<P2>(1),
        1 => within::<P3>(2),
        2 => within::<P5>(4),
        3 => within::<P7>(6),
        4 => within::<Plain11>(10),
        _ => within::<P13>(12),
    }
}
/// tables as large as the prime allows, or of picked size
fn c25_large() {
    match pick(6) {
        0 => within::<P61>(60),
        1 => within::<P251>(param(1)),
        2 => within::<Plain>(param(1)),
        3 => within::<Mersenne>(param(1)),
        4 => within::<Mod998244353>(param(1)),
        _ => within::<Mod1000000007>(param(1)),
    }
}
/// every other 64-bit n and k
fn c25_beyond() {
    match pick(3) {
        0 => beyond::<P7>(6),
        1 => beyond::<Plain>(param(0)),
        _ => beyond::<Mod998244353>(param(0)),
    }
}
}
