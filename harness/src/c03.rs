//! Segment tree: products and point assignments
use crate::model::*;
use crate::vp::*;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::misc::monoids::{Additive, Max, Min};

fn full(t: &Segtree<Free>, a: &[Word]) {
    let n = a.len();
    for p in 0..n {
        check(t.get(p).same(a[p]), "get");
    }
    for l in 0..=n {
        let mut w = Word::EMPTY;
        check(t.prod(l, l).same(w), "empty product is the identity");
        for r in l..n {
            w = w.cat(a[r]);
            check(t.prod(l, r + 1).same(w), "product of the range in order");
        }
    }
    check(t.all_prod().same(word_of(a)), "product of everything");
    t.all_prod().see();
}

harness! {
// free monoid: every size, both constructions, any assignments (also of the identity)
fn c03_free() {
    let n = size(0, param(0));
    let mut a: Vec<Word> = (0..n).map(|_| Word::any()).collect();
    let mut t: Segtree<Free>;
    match pick(2) {
        0 => t = a.clone().into(),
        _ => {
            t = Segtree::new(n);
            a = vec![Word::EMPTY; n];
        }
    }
    full(&t, &a);
    if n > 0 {
        for _ in 0..param(1) {
            let p = pick(n);
            let x = if pick(4) == 0 { Word::EMPTY } else { Word::any() };
            t.set(p, x);
            a[p] = x;
        }
        full(&t, &a);
    }
}
// larger sizes over spans
fn c03_big() {
    let n = param(0) + pick(param(1));
    let mut a: Vec<Seg> = (0..n).map(|i| Seg::at(i, any(64))).collect();
    let mut t: Segtree<Spans> = a.clone().into();
    let p = pick(n);
    let x = Seg::at(p, any(64));
    t.set(p, x);
    a[p] = x;
    let step = 1 + n / param(2);
    let mut l = 0;
    while l <= n {
        let mut w = seg_of(&[]);
        check(t.prod(l, l).same(w), "empty product");
        for r in l..n {
            w = seg_of(&[w, a[r]]);
            check(t.prod(l, r + 1).same(w), "product of the range in order");
        }
        l += step;
    }
    check(t.all_prod().same(seg_of(&a)), "product of everything");
    check(t.get(p).same(x), "get");
    observe(t.all_prod().sum);
}
// the provided monoids at full width
fn c03_max() {
    let n = size(1, param(0));
    let mut a: Vec<i64> = (0..n).map(|_| any(64) as i64).collect();
    let mut t: Segtree<Max<i64>> = a.clone().into();
    let p = pick(n);
    let x = any(64) as i64;
    t.set(p, x);
    a[p] = x;
    let l = pick(n);
    let r = l + 1 + pick(n - l);
    let g = t.prod(l, r);
    observe(g as u64);
    let mut hit = false;
    for i in l..r {
        check(g >= a[i], "maximum is an upper bound");
        hit |= g == a[i];
    }
    check(hit, "maximum is one of the elements");
    check(t.prod(l, l) == i64::MIN, "maximum of nothing");
}
fn c03_min_sum() {
    let n = size(1, param(0));
    let a: Vec<u32> = (0..n).map(|_| any(28) as u32).collect();
    let t: Segtree<Min<u32>> = a.clone().into();
    let s: Segtree<Additive<u32>> = a.clone().into();
    let l = pick(n);
    let r = l + 1 + pick(n - l);
    let g = t.prod(l, r);
    observe(g as u64);
    let mut hit = false;
    let mut sum = 0;
    for i in l..r {
        check(g <= a[i], "minimum is a lower bound");
        hit |= g == a[i];
        sum += a[i];
    }
    check(hit, "minimum is one of the elements");
    check(s.prod(l, r) == sum, "sum");
    check(t.prod(r, r) == u32::MAX, "minimum of nothing");
}
// out-of-range arguments never return a value
fn c03_panics() {
    let n = size(0, param(0));
    let a: Vec<Word> = (0..n).map(|_| Word::any()).collect();
    let mut t: Segtree<Free> = a.into();
    let which = pick(3);
    let x = any(64) as usize;
    let y = any(64) as usize;
    match which {
        0 => {
            assume(x >= n);
            may_panic(true);
            let _ = t.get(x);
        }
        1 => {
            assume(x >= n);
            may_panic(true);
            t.set(x, Word::EMPTY);
        }
        _ => {
            assume((x > y) | (y > n));
            may_panic(true);
            let _ = t.prod(x, y);
        }
    }
    check(false, "out-of-range argument accepted");
}
// long trees, a few places
fn c03_long() {
    let n = param(0) + pick(3);
    let mut a: Vec<Seg> = (0..n).map(|i| Seg::at(i, any(64))).collect();
    let mut t: Segtree<Spans> = a.clone().into();
    let p = [0, n / 3, n - 1][pick(3)];
    a[p] = Seg::at(p, any(64));
    t.set(p, a[p]);
    for l in [0, 1, n / 2, n - 1] {
        let mut w = seg_of(&[]);
        for r in l..n {
            w = seg_of(&[w, a[r]]);
            check(t.prod(l, r + 1).same(w), "product of the range in order");
        }
    }
    check(t.all_prod().same(seg_of(&a)), "product of everything");
}
}
