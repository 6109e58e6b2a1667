//! Sparse table over idempotent operations
use crate::model::size;
use crate::vp::*;
use rust_cp::data_structure::sparse_table::SparseTable;

// An associative, idempotent, non-commutative operation: first operand's
// first element, last operand's last element, union, and which positions were
// combined (order of first occurrence = left regular band on positions).
#[derive(Clone, Copy)]
struct Band {
    first: u64,
    last: u64,
    or: u64,
    // positions combined, as the interval hull plus a bit set
    set: u128,
    fpos: u32,
    lpos: u32,
}
impl Band {
    fn same(&self, o: &Band) -> bool {
        (self.first == o.first) & (self.last == o.last) & (self.or == o.or) & (self.set == o.set) & (self.fpos == o.fpos) & (self.lpos == o.lpos)
    }
}
fn band(a: Band, b: Band) -> Band {
    Band { first: a.first, last: b.last, or: a.or | b.or, set: a.set | b.set, fpos: a.fpos, lpos: b.lpos }
}
fn any_band(set: u128, p: u32) -> Band {
    let x = any(64);
    Band { first: x, last: x.wrapping_mul(3), or: x, set, fpos: p, lpos: p }
}
harness! {
fn c07_band() {
    let n = size(param(1), param(0));
    let a: Vec<Band> = (0..n).map(|i| any_band(1 << i, i as u32)).collect();
    let init = any_band(u128::MAX, 999);
    let t = SparseTable::from(&a, init, band);
    for l in 0..n {
        let mut w = a[l];
        for r in l + 1..=n {
            if r > l + 1 {
                w = band(w, a[r - 1]);
            }
            check(t.get(l, r).same(&w), "get is the combination of l..r in order");
        }
    }
    observe(t.get(0, n).or);
}
// words with repetitions removed (first occurrence kept), symbols symbolic
fn c07_dedup() {
    let n = size(1, param(0));
    // a word of distinct 2-bit symbols: length and packed symbols
    fn app(w: (usize, [u8; 4]), s: u8) -> (usize, [u8; 4]) {
        let mut w = w;
        for i in 0..w.0 {
            if w.1[i] == s {
                return w;
            }
        }
        w.1[w.0] = s;
        w.0 += 1;
        w
    }
    fn op(a: (usize, [u8; 4]), b: (usize, [u8; 4])) -> (usize, [u8; 4]) {
        let mut r = a;
        for i in 0..b.0 {
            r = app(r, b.1[i]);
        }
        r
    }
    let a: Vec<(usize, [u8; 4])> = (0..n).map(|_| (1, [any(2) as u8, 0, 0, 0])).collect();
    let t = SparseTable::from(&a, (0, [0; 4]), op);
    for l in 0..n {
        let mut w = a[l];
        for r in l + 1..=n {
            if r > l + 1 {
                w = op(w, a[r - 1]);
            }
            let g = t.get(l, r);
            let mut ok = g.0 == w.0;
            for i in 0..4 {
                ok &= (i >= w.0) | (g.1[i] == w.1[i]);
            }
            check(ok, "get is the combination of l..r in order");
        }
    }
}
fn c07_min() {
    let n = size(1, param(0));
    let a: Vec<i64> = (0..n).map(|_| any_i64(64)).collect();
    let mx = pick(2) == 1;
    let f = |x: i64, y: i64| ite((x < y) != mx, x as u64, y as u64) as i64;
    let t = SparseTable::from(&a, any_i64(64), f);
    for l in 0..n {
        for r in l + 1..=n {
            let g = t.get(l, r);
            let mut lo = true;
            let mut hit = false;
            for &x in &a[l..r] {
                lo &= if mx { g >= x } else { g <= x };
                hit |= g == x;
            }
            check(lo & hit, "extremum of the range");
        }
    }
}
// any l, r, not resolved to concrete values
fn c07_query() {
    let n = size(1, param(0));
    let a: Vec<u64> = (0..n).map(|_| any(64)).collect();
    let t = SparseTable::from(&a, any(64), |x, y| x | y);
    let l = below(n as u64);
    let r = below(n as u64 + 1);
    assume(l < r);
    let mut w = 0;
    for i in 0..n as u64 {
        w |= ite((l <= i) & (i < r), a[i as usize], 0);
    }
    check(t.get(l as usize, r as usize) == w, "get(l, r) for any l < r <= n");
}
fn c07_panics() {
    let n = size(1, param(0));
    let a: Vec<u64> = (0..n).map(|_| any(64)).collect();
    let t = SparseTable::from(&a, 0, |x, y| x | y);
    let (l, r) = (any(64), any(64));
    assume(l >= r);
    may_panic(true);
    t.get(l as usize, r as usize);
    check(false, "l >= r accepted");
}
}
