//! Segment tree: boundary searches
use crate::model::*;
use crate::vp::*;
use rust_cp::data_structure::segtree::Segtree;
use rust_cp::misc::monoids::{Additive, Max};
use std::cell::Cell;

harness! {
// every monotone predicate over growing ranges is a bound on the range's
// length once l (or r) is fixed; it also checks what it is asked about
fn c04_free() {
    let n = size(0, param(0));
    let mut a: Vec<Word> = (0..n).map(|_| Word::any()).collect();
    let mut t: Segtree<Free> = a.clone().into();
    if param(1) > 0 && n > 0 {
        let p = pick(n);
        let x = Word::any();
        t.set(p, x);
        a[p] = x;
    }
    let l = pick(n + 1);
    let k = below(n as u64 + 2);
    let right = pick(2) == 1;
    let ok = Cell::new(true);
    let f = |w: &Word| {
        let len = w.len as usize;
        let range = if right { l + len <= n } else { len <= l };
        ok.set(ok.get() & range);
        if range {
            let want = if right { word_of(&a[l..l + len]) } else { word_of(&a[l - len..l]) };
            ok.set(ok.get() & want.same(*w));
        }
        branch(w.len as u64 <= k)
    };
    let g = if right { t.max_right(l, f) } else { t.min_left(l, f) } as u64;
    observe(g);
    check(ok.get(), "predicate evaluated on a range that starts at l / ends at r, in order");
    let (l, n) = (l as u64, n as u64);
    if right {
        check(g == ite(l + k > n, n, l + k), "max_right is the largest r");
    } else {
        check(g == ite(k > l, 0, l.wrapping_sub(k)), "min_left is the smallest l");
    }
    cover(k == 0, "predicate true on the identity only");
    cover(k > n, "predicate always true");
}
fn c04_big() {
    let n = param(0) + pick(param(1));
    let a: Vec<Seg> = (0..n).map(|i| Seg::at(i, any(8))).collect();
    let t: Segtree<Spans> = a.into();
    let l = pick(n + 1);
    let k = below(n as u64 + 2);
    let right = pick(2) == 1;
    let ok = Cell::new(true);
    let f = |w: &Seg| {
        ok.set(ok.get() & (w.kind != 2));
        if w.kind == 1 {
            ok.set(ok.get() & if right { w.l as usize == l } else { w.r as usize == l });
        }
        branch((w.r - w.l) as u64 <= k)
    };
    let g = if right { t.max_right(l, f) } else { t.min_left(l, f) } as u64;
    observe(g);
    check(ok.get(), "predicate evaluated on a range that starts at l / ends at r, in order");
    let (l, n) = (l as u64, n as u64);
    check(g == if right { ite(l + k > n, n, l + k) } else { ite(k > l, 0, l.wrapping_sub(k)) }, "boundary");
}
// thresholds on maxima, full width
fn c04_max() {
    let n = size(1, param(0));
    let a: Vec<i32> = (0..n).map(|_| any(32) as i32).collect();
    let t: Segtree<Max<i32>> = a.clone().into();
    let l = pick(n + 1);
    let k = any(32) as i32;
    assume(k > i32::MIN);
    if pick(2) == 1 {
        let g = t.max_right(l, |&x| branch(x < k));
        observe(g as u64);
        check((g >= l) & (g <= n), "in range");
        for i in l..n {
            check((i >= g) | (a[i] < k), "all inside satisfy the bound");
            check((i != g) | (a[i] >= k), "the next one violates it");
        }
    } else {
        let g = t.min_left(l, |&x| branch(x < k));
        observe(g as u64);
        check(g <= l, "in range");
        for i in 0..l {
            check((i < g) | (a[i] < k), "all inside satisfy the bound");
            check((i + 1 != g) | (a[i] >= k), "the one before violates it");
        }
    }
}
// prefix sums of non-negative data against a bound
fn c04_sum() {
    let n = size(1, param(0));
    let a: Vec<u64> = (0..n).map(|_| any(56)).collect();
    let t: Segtree<Additive<u64>> = a.clone().into();
    let l = pick(n + 1);
    let k = any(60);
    let g = t.max_right(l, |&x| branch(x <= k));
    observe(g as u64);
    let mut s = 0;
    for i in l..n {
        s += a[i];
        check((s <= k) == (i < g), "largest r whose sum stays within the bound");
    }
    check((g >= l) & (g <= n), "in range");
}
fn c04_panics() {
    let n = size(0, param(0));
    let t: Segtree<Free> = Segtree::new(n);
    let x = any(64) as usize;
    let which = pick(4);
    if which < 2 {
        assume(x > n);
        may_panic(true);
        let _ = if which == 0 { t.max_right(x, |_| true) } else { t.min_left(x, |_| true) };
    } else {
        assume(x <= n);
        let x = concretize(x as u64) as usize;
        may_panic(true);
        let _ = if which == 2 { t.max_right(x, |_| false) } else { t.min_left(x, |_| false) };
    }
    check(false, "invalid call accepted");
}
}
