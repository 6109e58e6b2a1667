//! Heavy-light decomposition against plain per-node values
use crate::model::*;
use crate::vp::*;
use rust_cp::graph::heavy_light_decomp::HLD;
use rust_cp::traits::monoid::{MapMonoid, Monoid};

/// free action on free commutative values: a set of nodes, each carrying its
/// base symbol and the maps applied to it in order; a node combined twice is
/// recorded
const N: usize = 7;
#[derive(Clone, Copy)]
struct Bag {
    has: u32,
    twice: bool,
    e: [Word; N],
}
impl Bag {
    const EMPTY: Bag = Bag { has: 0, twice: false, e: [Word::EMPTY; N] };
    fn one(i: usize, w: Word) -> Bag {
        let mut b = Bag::EMPTY;
        b.has = 1 << i;
        b.e[i] = w;
        b
    }
    fn same(&self, o: &Bag) -> bool {
        let mut ok = (self.has == o.has) & (self.twice == o.twice);
        for i in 0..N {
            if o.has >> i & 1 == 1 {
                ok &= self.e[i].same(o.e[i]);
            }
        }
        ok
    }
}
struct Bags;
impl Monoid for Bags {
    type S = Bag;
    fn identity() -> Bag {
        Bag::EMPTY
    }
    fn binary_operation(a: &Bag, b: &Bag) -> Bag {
        let mut r = *a;
        r.twice |= b.twice | (a.has & b.has != 0);
        r.has |= b.has;
        for i in 0..N {
            if b.has >> i & 1 == 1 {
                r.e[i] = b.e[i];
            }
        }
        r
    }
}
struct BagAction;
impl MapMonoid for BagAction {
    type M = Bags;
    type F = Word;
    fn identity_map() -> Word {
        Word::EMPTY
    }
    fn mapping(f: &Word, x: &Bag) -> Bag {
        let mut r = *x;
        for i in 0..N {
            if r.has >> i & 1 == 1 {
                r.e[i] = r.e[i].cat(*f);
            }
        }
        r
    }
    fn composition(f: &Word, g: &Word) -> Word {
        g.cat(*f)
    }
}
/// nodes on the path between u and v, and nodes below u
fn path(pa: &[usize], u: usize, v: usize) -> u64 {
    let up = |mut x: usize| {
        let mut m = 1u64 << x;
        while pa[x] != x {
            x = pa[x];
            m |= 1 << x;
        }
        m
    };
    let (a, b) = (up(u), up(v));
    // the common part except its deepest node
    let mut l = u;
    while b >> l & 1 == 0 {
        l = pa[l];
    }
    let common = up(l);
    ((a | b) & !common) | 1 << l
}
fn subtree(pa: &[usize], u: usize) -> u64 {
    let mut m = 0u64;
    for v in 0..pa.len() {
        let mut x = v;
        loop {
            if x == u {
                m |= 1 << v;
                break;
            }
            if pa[x] == x {
                break;
            }
            x = pa[x];
        }
    }
    m
}
fn bag_of(a: &[Word], m: u64) -> Bag {
    let mut b = Bag::EMPTY;
    for i in 0..a.len() {
        if m >> i & 1 == 1 {
            b.has |= 1 << i;
            b.e[i] = a[i];
        }
    }
    b
}
fn sum_of(a: &[u64], m: u64) -> (u64, u64) {
    let (mut n, mut s) = (0, 0u64);
    for i in 0..a.len() {
        if m >> i & 1 == 1 {
            n += 1;
            s = s.wrapping_add(a[i]);
        }
    }
    (n, s)
}
harness! {
fn c11_free() {
    let n = size(param(2), param(0));
    let g = any_tree(n);
    let root = pick(n);
    let (pa, _) = rooted(&g, root);
    let mut a: Vec<Word> = (0..n).map(|_| Word::any()).collect();
    let init: Vec<Bag> = (0..n).map(|i| Bag::one(i, a[i])).collect();
    let mut t: HLD<BagAction> = HLD::with_init_value(&g, root, &init);
    for _ in 0..param(1) {
        let f = Word::any();
        let m = match pick(3) {
            0 => {
                let (u, v) = (pick(n), pick(n));
                t.apply_path(u, v, f);
                path(&pa, u, v)
            }
            1 => {
                let u = pick(n);
                t.apply_subtree(u, f);
                subtree(&pa, u)
            }
            _ => {
                let u = pick(n);
                t.set(u, Bag::one(u, f));
                a[u] = f;
                0
            }
        };
        for i in 0..n {
            if m >> i & 1 == 1 { a[i] = a[i].cat(f); }
        }
    }
    for u in 0..n {
        check(t.get(u).same(&bag_of(&a, 1 << u)), "get is the node's value");
        check(t.subtree_prod(u).same(&bag_of(&a, subtree(&pa, u))), "subtree_prod");
        for v in 0..n {
            check(t.path_prod(u, v).same(&bag_of(&a, path(&pa, u, v))), "path_prod");
        }
    }
}
fn c11_new() {
    let n = size(1, param(0));
    let g = any_tree(n);
    let root = pick(n);
    let (pa, _) = rooted(&g, root);
    let mut t: HLD<AssignAdd> = HLD::new(&g, root);
    for u in 0..n {
        let (gu, su) = (t.get(u), t.subtree_prod(u));
        check((gu.len == 0) & (gu.sum == 0) & (su.len == 0) & (su.sum == 0), "initially every node has the identity");
    }
    let a: Vec<u64> = (0..n).map(|_| any(64)).collect();
    for u in 0..n {
        t.set(u, LenSum { len: 1, sum: a[u] });
    }
    for u in 0..n {
        let p = t.subtree_prod(u);
        let w = sum_of(&a, subtree(&pa, u));
        check((p.len == w.0) & (p.sum == w.1), "subtree_prod");
        for v in 0..n {
            let p = t.path_prod(u, v);
            let w = sum_of(&a, path(&pa, u, v));
            check((p.len == w.0) & (p.sum == w.1), "path_prod");
        }
    }
}
fn c11_shapes() {
    let n = param(0) + pick(param(1));
    let g = shape(n, pick(SHAPES), pick(param(2)));
    let root = pick(n);
    let (pa, _) = rooted(&g, root);
    let mut a: Vec<u64> = (0..n).map(|_| any(64)).collect();
    let mut t: HLD<AssignAdd> = HLD::with_init_value(&g, root, &a.iter().map(|&sum| LenSum { len: 1, sum }).collect());
    let f = Upd { assign: pick(2) == 1, v: any(64) };
    let u = pick(n);
    let m = if pick(2) == 1 {
        let v = (u * 5 + 3) % n;
        t.apply_path(u, v, f);
        path(&pa, u, v)
    } else {
        t.apply_subtree(u, f);
        subtree(&pa, u)
    };
    for i in 0..n {
        if m >> i & 1 == 1 { a[i] = if f.assign { f.v } else { a[i].wrapping_add(f.v) }; }
    }
    for u in 0..n {
        check(t.get(u).sum == a[u], "get is the node's value");
        let p = t.subtree_prod(u);
        let w = sum_of(&a, subtree(&pa, u));
        check((p.len == w.0) & (p.sum == w.1), "subtree_prod");
        for v in 0..n {
            let p = t.path_prod(u, v);
            let w = sum_of(&a, path(&pa, u, v));
            check((p.len == w.0) & (p.sum == w.1), "path_prod");
        }
    }
}
// larger trees: more chains on a path, deeper segment tree
fn c11_large() {
    let n = [16, 31, 33][pick(param(0))];
    let g = shape(n, pick(SHAPES), 2 * pick(2));
    let root = [0, n / 2, n - 1][pick(3)];
    let (pa, _) = rooted(&g, root);
    let mut a: Vec<u64> = (0..n).map(|_| any(64)).collect();
    let mut t: HLD<AssignAdd> = HLD::with_init_value(&g, root, &a.iter().map(|&sum| LenSum { len: 1, sum }).collect());
    for k in 0..param(1) {
        let f = Upd { assign: k == 1, v: any(64) };
        let u = [n - 1, n / 3, 1][pick(3)];
        let m = if pick(2) == 1 {
            let v = (u * 5 + 3) % n;
            t.apply_path(u, v, f);
            path(&pa, u, v)
        } else {
            t.apply_subtree(u, f);
            subtree(&pa, u)
        };
        for i in 0..n {
            if m >> i & 1 == 1 { a[i] = if f.assign { f.v } else { a[i].wrapping_add(f.v) }; }
        }
    }
    for u in 0..n {
        for v in [0, u, n / 2, n - 1] {
            let p = t.path_prod(u, v);
            let w = sum_of(&a, path(&pa, u, v));
            check((p.len == w.0) & (p.sum == w.1), "path_prod");
        }
    }
    for u in 0..n {
        let p = t.subtree_prod(u);
        let w = sum_of(&a, subtree(&pa, u));
        check((p.len == w.0) & (p.sum == w.1), "subtree_prod");
        check(t.get(u).sum == a[u], "get is the node's value");
    }
}
// long spines with leaves, labelled along or against them
fn c11_long() {
    let n = param(0) + pick(2);
    let leaves = pick(2) == 1;
    let down = pick(2) == 1;
    let id = |i: usize| if down { n - 1 - i } else { i };
    let up = |i: usize| if !leaves || i % 2 == 1 { i - 1 } else { i - 2 };
    let mut g = vec![vec![]; n];
    for i in 1..n {
        g[id(i)].push(id(up(i)));
        g[id(up(i))].push(id(i));
    }
    let route = |mut u: usize, mut v: usize| {
        let mut p = vec![];
        while u != v {
            if u > v {
                p.push(u);
                u = up(u);
            } else {
                p.push(v);
                v = up(v);
            }
        }
        p.push(u);
        p
    };
    let mut a: Vec<u64> = (0..n).map(|_| any(64)).collect();
    let mut t: HLD<AssignAdd> = HLD::with_init_value(&g, id(0), &(0..n).map(|i| LenSum { len: 1, sum: a[id(i)] }).collect());
    let f = Upd { assign: false, v: any(64) };
    let (u, v) = [(0, n - 1), (n - 1, n - 2), (n / 3, n - 1), (n / 2, n / 2)][pick(4)];
    let nodes = if pick(2) == 1 {
        t.apply_path(id(u), id(v), f);
        route(u, v)
    } else {
        t.apply_subtree(id(u), f);
        (0..n).filter(|&i| { let mut j = i; while j > u { j = up(j); } j == u }).collect()
    };
    for i in nodes {
        a[i] = a[i].wrapping_add(f.v);
    }
    let u = [0, n / 2, n - 1][pick(3)];
    a[u] = any(64);
    t.set(id(u), LenSum { len: 1, sum: a[u] });
    for (u, v) in [(0, n - 1), (n - 2, n - 1), (1, n - 1), (n / 2, 2)] {
        let w = route(u, v);
        let mut sum = 0u64;
        for &i in &w { sum = sum.wrapping_add(a[i]); }
        let p = t.path_prod(id(u), id(v));
        check((p.len == w.len() as u64) & (p.sum == sum), "path_prod");
    }
    for i in 0..n {
        check(t.get(id(i)).sum == a[i], "get is the node's value");
    }
}
}
