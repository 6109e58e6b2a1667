//! Z-function on sequences of arbitrary symbols
use crate::model::size;
use crate::vp::*;
use rust_cp::string::z_algorithm::z_function;

fn verify(s: &[u64], r: &[usize]) {
    let n = s.len();
    check(r.len() == n, "one entry per position");
    for i in 0..n {
        observe(r[i] as u64);
        if i == 0 {
            check(r[0] == 0, "entry 0 is 0");
            continue;
        }
        check(r[i] <= n - i, "stays within the sequence");
        let k = r[i].min(n - i);
        for j in 0..k {
            check(s[j] == s[i + j], "common prefix");
        }
        if i + k < n {
            check(s[k] != s[i + k], "longest common prefix");
        }
    }
}
harness! {
fn c17_any() {
    let n = size(param(1), param(0));
    let s: Vec<u64> = (0..n).map(|_| any(64)).collect();
    verify(&s, &z_function(&s));
}
fn c17_bytes() {
    let n = size(param(1), param(0));
    let s: Vec<u8> = (0..n).map(|_| any(8) as u8).collect();
    let r = z_function(&s);
    verify(&s.iter().map(|&x| x as u64).collect::<Vec<_>>(), &r);
}
fn c17_binary() {
    let n = size(param(1), param(0));
    let s: Vec<bool> = (0..n).map(|_| any_bool()).collect();
    let r = z_function(&s);
    verify(&s.iter().map(|&x| x as u64).collect::<Vec<_>>(), &r);
}
fn c17_periodic() {
    let n = param(0);
    let p = 1 + pick(param(1));
    let w: Vec<u64> = (0..p).map(|_| any(1)).collect();
    let mut s: Vec<u64> = (0..n).map(|i| w[i % p]).collect();
    let at = pick(n);
    s[at] = any(1);
    verify(&s, &z_function(&s));
}
// long runs of one symbol with another one somewhere
fn c17_long() {
    let n = param(0) + pick(2);
    let at = [0, 1, n / 3, n / 2, n - 1][pick(5)];
    let (x, y) = (any(64), any(64));
    let mut s = vec![x; n];
    s[at] = y;
    let r = z_function(&s);
    check(r.len() == n && r[0] == 0, "one entry per position");
    let same = branch(x == y);
    for i in 1..n {
        let e = if same { n - i } else if i <= at { at - i } else { at.min(n - i) };
        check(r[i] == e, "longest common prefix");
    }
}
}
