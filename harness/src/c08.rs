//! Union-find against explicit component sets
use crate::model::size;
use crate::vp::*;
use rust_cp::data_structure::union_find::UnionFind;

/// comp[i] = bit set of i's component; all symbolic, no path splitting
struct Comps {
    m: Vec<u64>,
}
impl Comps {
    fn new(n: usize) -> Comps {
        Comps { m: (0..n).map(|i| 1 << i).collect() }
    }
    fn at(&self, x: u64) -> u64 {
        let mut r = 0;
        for i in 0..self.m.len() {
            r = ite(x == i as u64, self.m[i], r);
        }
        r
    }
    fn same(&self, x: u64, y: u64) -> bool {
        self.at(x) == self.at(y)
    }
    fn join(&mut self, x: u64, y: u64) {
        let u = self.at(x) | self.at(y);
        for i in 0..self.m.len() {
            let hit = (u >> i) & 1 != 0;
            self.m[i] = ite(hit, u, self.m[i]);
        }
    }
}
fn bits(mut m: u64, n: usize) -> u64 {
    let mut s = 0;
    for _ in 0..n {
        s += m & 1;
        m >>= 1;
    }
    s
}
fn verify(t: &mut UnionFind, c: &Comps) {
    let n = c.m.len();
    if n > 4 && pick(2) == 1 {
        // before any query has shortened the links
        groups(t, c);
    }
    for i in 0..n {
        check(t.size(i) as u64 == bits(c.m[i], n), "size is the number of connected elements");
        for j in 0..n {
            check(t.is_same(i, j) == (c.m[i] == c.m[j]), "is_same iff connected");
            check((t.find(i) == t.find(j)) == (c.m[i] == c.m[j]), "equal representatives iff connected");
        }
        let f = t.find(i) as u64;
        check(c.at(f) == c.m[i], "the representative is in the component");
    }
    groups(t, c);
}
fn groups(t: &mut UnionFind, c: &Comps) {
    let n = c.m.len();
    let g = t.groups();
    let mut seen = 0u64;
    for v in &g {
        let mut m = 0u64;
        for &x in v {
            check(x < n, "group elements in range");
            check((m >> x) & 1 == 0, "no element twice in a group");
            m |= 1 << x;
        }
        check(m != 0, "no empty group");
        check(m == c.m[v[0]], "a group is a component");
        check(seen & m == 0, "every component once");
        seen |= m;
    }
    check(seen == (1 << n) - 1, "every element is in a group");
}
harness! {
fn c08_joins() {
    let n = size(param(2), param(0));
    let mut t = UnionFind::new(n);
    let mut c = Comps::new(n);
    for _ in 0..param(1) {
        let (x, y) = (below(n as u64), below(n as u64));
        let s = c.same(x, y);
        let r = t.join(x as usize, y as usize);
        check(r != s, "join returns whether it merged two components");
        c.join(x, y);
    }
    verify(&mut t, &c);
}
// queries between the joins do not change anything
fn c08_mixed() {
    let n = size(param(2), param(0));
    let mut t = UnionFind::new(n);
    let mut c = Comps::new(n);
    for _ in 0..param(1) {
        let (x, y) = (below(n as u64), below(n as u64));
        match pick(4) {
            0 | 1 => {
                let s = c.same(x, y);
                check(t.join(x as usize, y as usize) != s, "join returns whether it merged two components");
                c.join(x, y);
            }
            2 => check(t.is_same(x as usize, y as usize) == c.same(x, y), "is_same iff connected"),
            _ => {
                check(t.size(x as usize) as u64 == bits(c.at(x), n), "size is the number of connected elements");
                let f = t.find(x as usize) as u64;
                check(f < n as u64 && c.same(f, x), "the representative is in the component");
            }
        }
    }
    verify(&mut t, &c);
}
// long histories: merging two blocks through any of their elements
fn c08_blocks() {
    let k = param(0);
    let n = 1usize << k;
    let mut t = UnionFind::new(n);
    let mut c = Comps::new(n);
    let mut w = 1;
    while w < n {
        let far = [0, w - 1, w / 2, w / 2 + 1];
        let (a, b2, flip) = (far[pick(w.min(param(1)))], far[pick(w.min(param(1)))], pick(2));
        for b in 0..n / (2 * w) {
            let (x, y) = (2 * b * w + (a + b) % w, (2 * b + 1) * w + (b2 + 3 * b) % w);
            let (x, y) = if flip == 1 { (x, y) } else { (y, x) };
            check(t.join(x, y), "join of different components");
            check(!t.join(y, x), "joining again merges nothing");
            c.join(x as u64, y as u64);
        }
        w *= 2;
    }
    let x = [0, n / 2, n - 1][pick(3)];
    check(t.size(x) == n, "size after all joins");
    verify(&mut t, &c);
}
fn c08_chain() {
    let n = size(2, param(0));
    let mut t = UnionFind::new(n);
    let mut c = Comps::new(n);
    for i in 1..n {
        let x = match pick(3) { 0 => 0, 1 => i - 1, _ => i / 2 };
        let (x, y) = if pick(2) == 1 { (x, i) } else { (i, x) };
        check(t.join(x, y), "join of different components");
        c.join(x as u64, y as u64);
    }
    verify(&mut t, &c);
}
fn c08_panics() {
    let n = size(0, param(0));
    let mut t = UnionFind::new(n);
    let (x, y) = (any(64), any(64));
    assume((x >= n as u64) | (y >= n as u64));
    may_panic(true);
    match pick(3) {
        0 => { t.is_same(x as usize, y as usize); }
        1 => { t.join(x as usize, y as usize); }
        _ => { assume(x >= n as u64); t.size(x as usize); }
    }
    check(false, "index out of range accepted");
}
}
