//! Prefix function on sequences of arbitrary symbols
use crate::model::size;
use crate::vp::*;
use rust_cp::string::kmp::kmp;

fn verify(s: &[u64], r: &[usize]) {
    let n = s.len();
    check(r.len() == n, "one entry per position");
    for i in 0..n {
        observe(r[i] as u64);
        // longest k <= i with s[..k] == s[i+1-k..=i]
        for k in 0..=i {
            let mut eq = true;
            for j in 0..k {
                eq &= s[j] == s[i + 1 - k + j];
            }
            if k == r[i] {
                check(eq, "the prefix is a suffix");
            } else if k > r[i] {
                check(!eq, "no longer prefix is a suffix");
            }
        }
        check(r[i] <= i, "the prefix is proper");
    }
}
harness! {
fn c16_any() {
    let n = size(param(1), param(0));
    let s: Vec<u64> = (0..n).map(|_| any(64)).collect();
    verify(&s, &kmp(&s));
}
fn c16_bytes() {
    let n = size(param(1), param(0));
    let s: Vec<u8> = (0..n).map(|_| any(8) as u8).collect();
    let r = kmp(&s);
    verify(&s.iter().map(|&x| x as u64).collect::<Vec<_>>(), &r);
}
fn c16_binary() {
    let n = size(param(1), param(0));
    let s: Vec<bool> = (0..n).map(|_| any_bool()).collect();
    let r = kmp(&s);
    verify(&s.iter().map(|&x| x as u64).collect::<Vec<_>>(), &r);
}
// long periodic strings with a symbol changed anywhere
fn c16_periodic() {
    let n = param(0);
    let p = 1 + pick(param(1));
    let w: Vec<u64> = (0..p).map(|_| any(1)).collect();
    let mut s: Vec<u64> = (0..n).map(|i| w[i % p]).collect();
    let at = pick(n);
    s[at] = any(1);
    verify(&s, &kmp(&s));
}
// long runs of one symbol with another one somewhere
fn c16_long() {
    let n = param(0) + pick(2);
    let at = [0, 1, n / 3, n / 2, n - 1][pick(5)];
    let (x, y) = (any(64), any(64));
    let mut s = vec![x; n];
    s[at] = y;
    let r = kmp(&s);
    check(r.len() == n, "one entry per position");
    let same = branch(x == y);
    for i in 0..n {
        let e = if same || i < at { i } else { (i - at).min(at) };
        check(r[i] == e, "longest proper prefix that is a suffix");
    }
}
}
