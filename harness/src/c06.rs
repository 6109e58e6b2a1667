//! Lazy segment tree: boundary searches with pending updates
use crate::model::*;
use crate::vp::*;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use std::cell::Cell;

type Lz = LazySegtree<FreeAction>;
fn pick_range(n: usize) -> (usize, usize) {
    let l = pick(n + 1);
    (l, l + pick(n + 1 - l))
}
harness! {
fn c06_free() {
    let n = size(param(2), param(0));
    let mut a: Vec<Hist> = (0..n).map(|_| Hist::any()).collect();
    let mut t: Lz = a.clone().into();
    for _ in 0..param(1) {
        let f = Word::any();
        let (l, r) = pick_range(n);
        t.apply_range(l, r, f);
        for x in &mut a[l..r] {
            x.e[0] = x.e[0].cat(f);
        }
    }
    let l = pick(n + 1);
    let k = below(n as u64 + 1);
    let right = pick(2) == 1;
    let ok = Cell::new(true);
    let f = |w: Hist| {
        let len = w.n;
        let range = if right { l + len <= n } else { len <= l };
        ok.set(ok.get() & range);
        if range {
            let want = if right { hist_of(&a[l..l + len]) } else { hist_of(&a[l - len..l]) };
            ok.set(ok.get() & want.same(&w));
        }
        branch(w.n as u64 <= k)
    };
    let g = if right { t.max_right(l, f) } else { t.min_left(l, f) } as u64;
    observe(g);
    check(ok.get(), "predicate evaluated on the product of a range that starts at l / ends at r");
    let (ll, nn) = (l as u64, n as u64);
    if right {
        check(g == ite(ll + k > nn, nn, ll + k), "max_right is the largest r");
    } else {
        check(g == ite(k > ll, 0, ll.wrapping_sub(k)), "min_left is the smallest l");
    }
    cover(k == 0, "predicate true on the identity only");
    // the search left the logical array as it was
    for i in 0..n {
        check(t.get(i).same(&a[i]), "search does not change elements");
    }
    check(t.prod(0, n).same(&hist_of(&a)), "search does not change products");
    check(t.all_prod().same(&hist_of(&a)), "search does not change the total");
}
// sums of non-negative data after range additions, symbolic bound
fn c06_sum() {
    let n = size(1, param(0));
    let mut a: Vec<u64> = (0..n).map(|_| any(56)).collect();
    let mut t: LazySegtree<AssignAdd> = a.iter().map(|&sum| LenSum { len: 1, sum }).collect::<Vec<_>>().into();
    for _ in 0..param(1) {
        let (l, r) = pick_range(n);
        let f = Upd { assign: pick(2) == 1, v: any(50) };
        t.apply_range(l, r, f);
        for x in &mut a[l..r] {
            *x = if f.assign { f.v } else { *x + f.v };
        }
    }
    let l = pick(n + 1);
    let k = any(60);
    if pick(2) == 1 {
        let g = t.max_right(l, |x| branch(x.sum <= k));
        observe(g as u64);
        check((g >= l) & (g <= n), "in range");
        let mut s = 0;
        for i in l..n {
            s += a[i];
            check((s <= k) == (i < g), "largest r whose sum stays within the bound");
        }
    } else {
        let g = t.min_left(l, |x| branch(x.sum <= k));
        observe(g as u64);
        check(g <= l, "in range");
        let mut s = 0;
        for i in (0..l).rev() {
            s += a[i];
            check((s <= k) == (i >= g), "smallest l whose sum stays within the bound");
        }
    }
}
fn c06_big() {
    let n = param(0) + pick(param(1));
    let mut a: Vec<Seg> = (0..n).map(|i| Seg::at(i, any(64))).collect();
    let mut t: LazySegtree<SpanAdd> = a.clone().into();
    let (l, r) = pick_range(n);
    let f = any(64);
    t.apply_range(l, r, f);
    for x in &mut a[l..r] {
        x.sum = x.sum.wrapping_add(f);
    }
    let mut pre = vec![0u64; n + 1];
    for i in 0..n { pre[i + 1] = pre[i].wrapping_add(a[i].sum); }
    let l = pick(n + 1);
    let k = below(n as u64 + 1);
    let right = pick(2) == 1;
    let ok = Cell::new(true);
    let g = |w: Seg| {
        ok.set(ok.get() & (w.kind != 2));
        if w.kind == 1 && w.r as usize <= n {
            let end = if right { w.l as usize == l } else { w.r as usize == l };
            let sum = pre[w.r as usize].wrapping_sub(pre[w.l as usize]);
            ok.set(ok.get() & end & (w.sum == sum));
        }
        branch((w.r - w.l) as u64 <= k)
    };
    let g = if right { t.max_right(l, g) } else { t.min_left(l, g) } as u64;
    observe(g);
    check(ok.get(), "predicate evaluated on the product of a range that starts at l / ends at r");
    let (l, nn) = (l as u64, n as u64);
    check(g == if right { ite(l + k > nn, nn, l + k) } else { ite(k > l, 0, l.wrapping_sub(k)) }, "boundary");
    for i in 0..n {
        check(t.get(i).same(a[i]), "search does not change elements");
    }
}
// deep trees: one range update, one search from boundaries of blocks and next to them
fn c06_deep() {
    let n = [17, 31, 33, 64, 65, 100][pick(param(0))];
    let at = [0, 1, 7, n / 2 - 1, n / 2, n / 2 + 1, n - 1, n];
    let mut a: Vec<Seg> = (0..n).map(|i| Seg::at(i, any(64))).collect();
    let mut t: LazySegtree<SpanAdd> = a.clone().into();
    let (i, j) = (pick(8), pick(8));
    assume(i < j);
    let (l, r) = (at[i], at[j]);
    let f = any(64);
    t.apply_range(l, r, f);
    for x in &mut a[l..r] {
        x.sum = x.sum.wrapping_add(f);
    }
    let mut pre = vec![0u64; n + 1];
    for i in 0..n { pre[i + 1] = pre[i].wrapping_add(a[i].sum); }
    let l = at[pick(8)];
    let k = below(n as u64 + 1);
    let right = pick(2) == 1;
    let ok = Cell::new(true);
    let g = |w: Seg| {
        ok.set(ok.get() & (w.kind != 2));
        if w.kind == 1 && w.r as usize <= n {
            let end = if right { w.l as usize == l } else { w.r as usize == l };
            let sum = pre[w.r as usize].wrapping_sub(pre[w.l as usize]);
            ok.set(ok.get() & end & (w.sum == sum));
        }
        branch((w.r - w.l) as u64 <= k)
    };
    let g = if right { t.max_right(l, g) } else { t.min_left(l, g) } as u64;
    observe(g);
    check(ok.get(), "predicate evaluated on the product of a range that starts at l / ends at r");
    let (l, nn) = (l as u64, n as u64);
    check(g == if right { ite(l + k > nn, nn, l + k) } else { ite(k > l, 0, l.wrapping_sub(k)) }, "boundary");
    for i in 0..n {
        check(t.get(i).same(a[i]), "the array is as before the search");
    }
}
fn c06_panics() {
    let n = size(0, param(0));
    let mut t: Lz = LazySegtree::new(n);
    let x = any(64) as usize;
    let which = pick(4);
    if which < 2 {
        assume(x > n);
        may_panic(true);
        if which == 0 { t.max_right(x, |_| true) } else { t.min_left(x, |_| true) };
    } else {
        assume(x <= n);
        let x = concretize(x as u64) as usize;
        may_panic(true);
        if which == 2 { t.max_right(x, |_| false) } else { t.min_left(x, |_| false) };
    }
    check(false, "invalid call accepted");
}
// long trees: one update over a few ranges, the boundary symbolic
fn c06_long() {
    let n = param(0) + pick(2);
    let mut a: Vec<Seg> = (0..n).map(|i| Seg::at(i, if i % 32 == 1 { any(64) } else { (i * i) as u64 })).collect();
    let mut t: LazySegtree<SpanAdd> = a.clone().into();
    let (l, r) = [(0, n), (n / 3, n - 1)][pick(2)];
    let f = any(64);
    t.apply_range(l, r, f);
    for x in &mut a[l..r] {
        x.sum = x.sum.wrapping_add(f);
    }
    let mut pre = vec![0u64; n + 1];
    for i in 0..n { pre[i + 1] = pre[i].wrapping_add(a[i].sum); }
    let right = pick(2) == 1;
    let l = [0, 1, n / 2, n - 1, n][pick(5)];
    let k = below(n as u64 + 1);
    let ok = Cell::new(true);
    let g = |w: Seg| {
        ok.set(ok.get() & (w.kind != 2));
        if w.kind == 1 && w.r as usize <= n {
            let end = if right { w.l as usize == l } else { w.r as usize == l };
            let sum = pre[w.r as usize].wrapping_sub(pre[w.l as usize]);
            ok.set(ok.get() & end & (w.sum == sum));
        }
        branch((w.r - w.l) as u64 <= k)
    };
    let g = if right { t.max_right(l, g) } else { t.min_left(l, g) } as u64;
    check(ok.get(), "predicate evaluated on the product of a range that starts at l / ends at r");
    let (l, nn) = (l as u64, n as u64);
    check(g == if right { ite(l + k > nn, nn, l + k) } else { ite(k > l, 0, l.wrapping_sub(k)) }, "boundary");
}
}
