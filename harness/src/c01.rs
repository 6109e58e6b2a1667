//! Fenwick tree: prefix and range sums
use crate::model::*;
use crate::vp::*;
use rust_cp::data_structure::fenwick_tree::FenwickTree;
use std::num::Wrapping;

fn all_sums(t: &FenwickTree<i64>, v: &[i64]) {
    let n = v.len();
    let mut p = vec![0i64; n + 1];
    for i in 0..n {
        p[i + 1] = p[i] + v[i];
    }
    for r in 0..=n {
        let g = t.pref(r);
        check(g == p[r], "prefix sum");
        for l in 0..=r {
            check(t.sum(l, r) == p[r] - p[l], "range sum");
        }
    }
    observe(t.pref(n) as u64);
}

harness! {
// every size 0..=param0, both constructions, param1 additions anywhere, all queries
fn c01_ops() {
    let n = size(0, param(0));
    let v0: Vec<i64> = (0..n).map(|_| any_i64(54)).collect();
    let from = pick(2) == 1;
    let mut v;
    let mut t;
    if from {
        t = FenwickTree::from(&v0[..]);
        v = v0.clone();
    } else {
        t = FenwickTree::new(n);
        v = vec![0; n];
        for i in 0..n {
            t.add(i, v0[i]);
            v[i] += v0[i];
        }
    }
    all_sums(&t, &v);
    if n > 0 {
        for _ in 0..param(1) {
            let i = pick(n);
            let x = any_i64(54);
            if pick(2) == 0 { t.add(i, x) } else { t.add(i, &x) }
            v[i] += x;
            cover(x < 0, "negative addition");
        }
        all_sums(&t, &v);
    }
}
// untouched default-filled tree, additions at any index, full-width wrapping values
fn c01_sparse() {
    let n = size(1, param(0));
    let mut t: FenwickTree<Wrapping<u64>> = FenwickTree::new(n);
    let mut v = vec![Wrapping(0u64); n];
    for _ in 0..param(1) {
        let i = pick(n);
        let x = Wrapping(any(64));
        t.add(i, x);
        v[i] += x;
    }
    let r = pick(n + 1);
    let l = pick(r + 1);
    let mut s = Wrapping(0u64);
    for i in 0..n {
        s += Wrapping(ite((l <= i) & (i < r), v[i].0, 0));
    }
    let g = t.sum(l, r);
    observe(g.0);
    check(g == s, "range sum, full width");
}
// one larger size: construction equals element-wise addition, then one addition
fn c01_big() {
    let n = param(0) + pick(param(1));
    let v0: Vec<i64> = (0..n).map(|_| any_i64(54)).collect();
    let mut v = v0.clone();
    let mut t = FenwickTree::from(&v0[..]);
    let mut u: FenwickTree<i64> = FenwickTree::new(n);
    for i in 0..n {
        u.add(i, v0[i]);
    }
    let i = pick(n);
    let x = any_i64(54);
    t.add(i, x);
    u.add(i, x);
    v[i] += x;
    let mut p = 0i64;
    for r in 0..=n {
        check(t.pref(r) == p, "prefix sum");
        check(u.pref(r) == p, "prefix sum of the element-wise tree");
        check(t.sum(0, r) == p, "sum from 0");
        check(t.sum(r, n) == t.pref(n) - p, "sum to n");
        if r < n { p += v[r]; }
    }
    observe(t.pref(n) as u64);
}
// element type u32: no intermediate result exceeds the total
fn c01_unsigned() {
    let n = size(1, param(0));
    let v: Vec<u32> = (0..n).map(|_| any(28) as u32).collect();
    let mut t = FenwickTree::from(&v[..]);
    let i = pick(n);
    let x = any(28) as u32;
    t.add(i, x);
    let l = pick(n + 1);
    let r = pick(n + 1);
    assume(l <= r);
    let mut s = 0u32;
    for j in l..r { s += v[j] + if i == j { x } else { 0 }; }
    let g = t.sum(l, r);
    observe(g as u64);
    check(g == s, "range sum of u32");
}
// long trees, a few places
fn c01_long() {
    let n = param(0) + pick(3);
    let mut v: Vec<i64> = (0..n).map(|_| any_i64(50)).collect();
    let mut t = FenwickTree::from(&v[..]);
    let i = [0, n / 3, n - 1][pick(3)];
    let x = any_i64(50);
    t.add(i, x);
    v[i] += x;
    let mut p = 0i64;
    for r in 0..=n {
        check(t.pref(r) == p, "prefix sum");
        if r < n {
            check(t.sum(r, r + 1) == v[r], "sum of one element");
            p += v[r];
        }
    }
}
}
