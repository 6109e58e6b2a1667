//! Lazy segment tree: updates in order
use crate::model::*;
use crate::vp::*;
use rust_cp::data_structure::lazy_segtree::LazySegtree;
use rust_cp::misc::monoids::Max;
use rust_cp::traits::monoid::MapMonoid;

type Lz = LazySegtree<FreeAction>;
fn pick_range(n: usize) -> (usize, usize) {
    let l = pick(n + 1);
    (l, l + pick(n + 1 - l))
}
fn step(t: &mut Lz, a: &mut [Hist]) {
    let n = a.len();
    match pick(3) {
        0 => {
            let p = pick(n);
            let x = Hist::any();
            t.set(p, x);
            a[p] = x;
        }
        1 => {
            let p = pick(n);
            let f = Word::any();
            t.apply(p, f);
            a[p].e[0] = a[p].e[0].cat(f);
        }
        _ => {
            let (l, r) = pick_range(n);
            let f = Word::any();
            t.apply_range(l, r, f);
            for x in &mut a[l..r] {
                x.e[0] = x.e[0].cat(f);
            }
        }
    }
}
fn query(t: &mut Lz, a: &[Hist]) {
    let n = a.len();
    match pick(2) {
        0 => {
            let p = pick(n);
            check(t.get(p).same(&a[p]), "get");
        }
        _ => {
            let (l, r) = pick_range(n);
            check(t.prod(l, r).same(&hist_of(&a[l..r])), "product of the range in order");
        }
    }
}
fn full(t: &mut Lz, a: &[Hist]) {
    let n = a.len();
    check(t.all_prod().same(&hist_of(a)), "product of everything");
    for l in 0..=n {
        let mut w = Hist::EMPTY;
        check(t.prod(l, l).same(&w), "empty product is the identity");
        for r in l..n {
            w.e[w.n] = a[r].e[0];
            w.n += 1;
            check(t.prod(l, r + 1).same(&w), "product of the range in order");
        }
    }
    for p in 0..n {
        check(t.get(p).same(&a[p]), "get");
    }
    check(t.all_prod().same(&hist_of(a)), "product of everything");
    t.all_prod().see();
}

harness! {
// free action: size, a history of param(1) updates, one query, then everything
fn c05_free() {
    let n = size(param(2), param(0));
    let mut a: Vec<Hist> = (0..n).map(|_| Hist::any()).collect();
    let mut t: Lz = a.clone().into();
    for _ in 0..param(1) {
        step(&mut t, &mut a);
    }
    query(&mut t, &a);
    full(&mut t, &a);
}
// queries between updates
fn c05_mixed() {
    let n = size(param(2), param(0));
    let mut a: Vec<Hist> = (0..n).map(|_| Hist::any()).collect();
    let mut t: Lz = a.clone().into();
    for _ in 0..param(1) {
        step(&mut t, &mut a);
        query(&mut t, &a);
    }
    full(&mut t, &a);
}
// larger sizes: two range updates anywhere on a coarse grid plus one of every
// point operation, real data
// long trees, a few places
fn c05_long() {
    let n = param(0) + pick(3);
    let mut a: Vec<Seg> = (0..n).map(|i| Seg::at(i, if i % 32 == 1 { any(64) } else { (i * i) as u64 })).collect();
    let mut t: LazySegtree<SpanAdd> = a.clone().into();
    for _ in 0..param(1) {
        let (l, r) = [(0, n), (1, n - 1), (n / 3, n), (0, n / 2 + 1), (n - 1, n)][pick(5)];
        let f = any(64);
        t.apply_range(l, r, f);
        for x in &mut a[l..r] {
            x.sum = x.sum.wrapping_add(f);
        }
    }
    let p = [0, n / 2, n - 1][pick(3)];
    if pick(2) == 1 {
        a[p] = Seg::at(p, any(64));
        t.set(p, a[p]);
    } else {
        let f = any(64);
        t.apply(p, f);
        a[p].sum = a[p].sum.wrapping_add(f);
    }
    check(t.all_prod().same(seg_of(&a)), "product of everything");
    for l in [0, n / 2, n - 2] {
        let mut w = seg_of(&[]);
        for r in l..n {
            w = seg_of(&[w, a[r]]);
            check(t.prod(l, r + 1).same(w), "product of the range in order");
        }
    }
    for i in 0..n {
        check(t.get(i).same(a[i]), "get");
    }
}
fn c05_big() {
    let n = param(0) + pick(param(1));
    let mut a: Vec<Seg> = (0..n).map(|i| Seg::at(i, any(64))).collect();
    let mut t: LazySegtree<SpanAdd> = a.clone().into();
    for _ in 0..param(2) {
        let (l, r) = pick_range(n);
        let f = any(64);
        t.apply_range(l, r, f);
        for x in &mut a[l..r] {
            x.sum = x.sum.wrapping_add(f);
        }
    }
    let p = pick(n);
    match pick(3) {
        0 => {
            let f = any(64);
            t.apply(p, f);
            a[p].sum = a[p].sum.wrapping_add(f);
        }
        1 => {
            a[p] = Seg::at(p, any(64));
            t.set(p, a[p]);
        }
        _ => check(t.get(p).same(a[p]), "get"),
    }
    check(t.all_prod().same(seg_of(&a)), "product of everything");
    let stp = 1 + n / 4;
    let mut l = 0;
    while l <= n {
        let mut w = seg_of(&[]);
        check(t.prod(l, l).same(w), "empty product");
        for r in l..n {
            w = seg_of(&[w, a[r]]);
            check(t.prod(l, r + 1).same(w), "product of the range in order");
        }
        l += stp;
    }
    for i in 0..n {
        check(t.get(i).same(a[i]), "get");
    }
    observe(t.all_prod().sum);
}
// deep trees: one range update, one point operation, ends around the block boundaries
fn c05_deep() {
    let n = [17, 31, 33, 64, 65, 100][pick(param(0))];
    let at = [0, 1, 7, n / 2 - 1, n / 2, n / 2 + 1, 2 * n / 3, n - 2, n - 1, n];
    let mut a: Vec<Seg> = (0..n).map(|i| Seg::at(i, any(64))).collect();
    let mut t: LazySegtree<SpanAdd> = a.clone().into();
    let (i, j) = (pick(10), pick(10));
    assume(i < j);
    let f = any(64);
    t.apply_range(at[i], at[j], f);
    for x in &mut a[at[i]..at[j]] {
        x.sum = x.sum.wrapping_add(f);
    }
    let p = at[[0, 2, 4, 6, 8][pick(5)]];
    match pick(4) {
        0 => {
            let f = any(64);
            t.apply(p, f);
            a[p].sum = a[p].sum.wrapping_add(f);
        }
        1 => {
            a[p] = Seg::at(p, any(64));
            t.set(p, a[p]);
        }
        2 => check(t.get(p).same(a[p]), "get"),
        _ => {
            let f = any(64);
            t.apply_range(p / 2, p + 1, f);
            for x in &mut a[p / 2..p + 1] {
                x.sum = x.sum.wrapping_add(f);
            }
        }
    }
    check(t.all_prod().same(seg_of(&a)), "product of everything");
    for i in 0..9 {
        check(t.prod(at[i], at[i + 1]).same(seg_of(&a[at[i]..at[i + 1]])), "product of the range in order");
        check(t.prod(at[i], n).same(seg_of(&a[at[i]..])), "product of the range in order");
    }
    for i in (0..n).rev() {
        check(t.get(i).same(a[i]), "get");
    }
}
// assign / add over sums at full width, the kind of update symbolic
fn c05_assign_add() {
    let n = size(1, param(0));
    let mut a: Vec<u64> = (0..n).map(|_| any(64)).collect();
    let mut t: LazySegtree<AssignAdd> = a.iter().map(|&sum| LenSum { len: 1, sum }).collect::<Vec<_>>().into();
    for _ in 0..param(1) {
        let (l, r) = pick_range(n);
        let f = Upd { assign: any_bool(), v: any(64) };
        t.apply_range(l, r, f);
        for x in &mut a[l..r] {
            *x = ite(f.assign, f.v, x.wrapping_add(f.v));
        }
    }
    let (l, r) = pick_range(n);
    let mut s = 0u64;
    for x in &a[l..r] {
        s = s.wrapping_add(*x);
    }
    let g = t.prod(l, r);
    observe(g.sum);
    check((g.sum == s) & (g.len == (r - l) as u64), "sum of the range");
}
// range add, range maximum (the documented use), full 32-bit data
fn c05_max_add() {
    let n = size(1, param(0));
    let mut a: Vec<i64> = (0..n).map(|_| any(32) as i32 as i64).collect();
    let mut t: LazySegtree<MaxAdd> = a.clone().into();
    for _ in 0..2 {
        let (l, r) = pick_range(n);
        let f = any(32) as i32 as i64;
        t.apply_range(l, r, f);
        for x in &mut a[l..r] {
            *x += f;
        }
    }
    let l = pick(n);
    let r = l + 1 + pick(n - l);
    let g = t.prod(l, r);
    observe(g as u64);
    let mut hit = false;
    for x in &a[l..r] {
        check(g >= *x, "maximum is an upper bound");
        hit |= g == *x;
    }
    check(hit, "maximum is one of the elements");
}
fn c05_new_default() {
    let n = size(0, param(0));
    let mut t: Lz = if n == 0 && pick(2) == 1 { Default::default() } else { LazySegtree::new(n) };
    let mut a = vec![Hist::EMPTY; n];
    check(t.all_prod().same(&Hist::EMPTY), "product of identities");
    check(t.prod(0, n).same(&Hist::EMPTY), "product of identities");
    if n > 0 {
        let p = pick(n);
        a[p] = Hist::any();
        t.set(p, a[p]);
        let (l, r) = pick_range(n);
        let f = Word::any();
        t.apply_range(l, r, f);
        for x in &mut a[l..r] {
            if x.n == 1 { x.e[0] = x.e[0].cat(f); }
        }
        check(t.all_prod().same(&hist_of(&a)), "product");
        for i in 0..n { check(t.get(i).same(&a[i]), "get"); }
    }
}
fn c05_panics() {
    let n = size(0, param(0));
    let mut t: Lz = LazySegtree::new(n);
    let which = pick(5);
    let x = any(64) as usize;
    let y = any(64) as usize;
    assume(if which < 3 { x >= n } else { (x > y) | (y > n) });
    may_panic(true);
    match which {
        0 => { t.get(x); }
        1 => t.set(x, Hist::EMPTY),
        2 => t.apply(x, Word::EMPTY),
        3 => { t.prod(x, y); }
        _ => t.apply_range(x, y, Word::EMPTY),
    }
    check(false, "out-of-range argument accepted");
}
}
pub struct MaxAdd;
impl MapMonoid for MaxAdd {
    type M = Max<i64>;
    type F = i64;
    fn identity_map() -> i64 {
        0
    }
    fn mapping(f: &i64, x: &i64) -> i64 {
        if *x == i64::MIN { *x } else { *f + *x }
    }
    fn composition(f: &i64, g: &i64) -> i64 {
        *f + *g
    }
}
