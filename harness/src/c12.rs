//! Maximum bipartite matching against the deficiency formula
use crate::model::size;
use crate::vp::*;
use rust_cp::graph::bipartite_matching::AugmentedPath;

/// neighbourhoods as symbolic bit sets
struct Bip {
    n: usize,
    m: usize,
    nb: Vec<u64>,
}
impl Bip {
    fn add(&mut self, t: &mut AugmentedPath, u: usize, v: u64) {
        t.add_edge(u, v as usize);
        for j in 0..self.m as u64 {
            self.nb[u] |= ite(v == j, 1 << j, 0);
        }
    }
    /// min over sets S of left vertices of n - |S| + |N(S)|
    fn maximum(&self) -> u64 {
        let mut best = self.n as u64;
        for s in 0u64..1 << self.n {
            let mut nb = 0;
            let mut x = self.n as u64;
            for i in 0..self.n {
                if s >> i & 1 == 1 {
                    nb |= self.nb[i];
                    x -= 1;
                }
            }
            for j in 0..self.m {
                x += nb >> j & 1;
            }
            best = ite(x < best, x, best);
        }
        best
    }
}
harness! {
// any edge sequence: left ends concrete, right ends symbolic
fn c12_any() {
    let (n, m) = (size(param(3), param(0)), size(param(4), param(1)));
    let mut t = AugmentedPath::new(n, m);
    let mut b = Bip { n, m, nb: vec![0; n] };
    if n > 0 && m > 0 {
        for _ in 0..param(2) {
            b.add(&mut t, pick(n), below(m as u64));
        }
    }
    let w = b.maximum();
    let r = t.solve() as u64;
    observe(r);
    check(r == w, "size of a maximum matching");
    check(t.solve() as u64 == w, "solving again gives the same");
}
// every subset of all edges, in several insertion orders
fn c12_subsets() {
    let (n, m) = (param(0), param(1));
    let order = pick(3);
    let mut t = AugmentedPath::new(n, m);
    let mut b = Bip { n, m, nb: vec![0; n] };
    for i in 0..n {
        for j in 0..m {
            let v = match order { 0 => j, 1 => m - 1 - j, _ => (i + 2 * j) % m.max(1) };
            if branch(any_bool()) {
                b.add(&mut t, i, v as u64);
            }
        }
    }
    let r = t.solve() as u64;
    observe(r);
    check(r == b.maximum(), "size of a maximum matching");
}
// edges added after solving
fn c12_grow() {
    let (n, m) = (size(1, param(0)), size(1, param(1)));
    let mut t = AugmentedPath::new(n, m);
    let mut b = Bip { n, m, nb: vec![0; n] };
    for _ in 0..param(2) {
        for _ in 0..param(3) {
            b.add(&mut t, pick(n), below(m as u64));
        }
        check(t.solve() as u64 == b.maximum(), "maximum matching of the enlarged graph");
    }
}
// long augmenting paths: left i is adjacent to i and i+1 (cyclic shifts and
// orders chosen), so each new vertex may have to shift all others
fn c12_chain() {
    let n = size(2, param(0));
    let mut t = AugmentedPath::new(n, n);
    let mut b = Bip { n, m: n, nb: vec![0; n] };
    let down = pick(2) == 1;
    for k in 0..n {
        let i = if down { n - 1 - k } else { k };
        let (x, y) = (i as u64, below(n as u64));
        if pick(2) == 1 {
            b.add(&mut t, i, x);
            b.add(&mut t, i, y);
        } else {
            b.add(&mut t, i, y);
            b.add(&mut t, i, x);
        }
    }
    check(t.solve() as u64 == b.maximum(), "size of a maximum matching");
}
// the last vertex is matched only by moving all others along
fn c12_long() {
    let n = param(0) + pick(2);
    let mut t = AugmentedPath::new(n + 1, n + 1);
    for i in 0..n {
        t.add_edge(i, i);
        if i + 1 < n {
            t.add_edge(i, i + 1);
        }
    }
    t.add_edge(n, 0);
    check(t.solve() == n, "all but one matched");
    let at = [n - 1, n / 2, n][pick(3)];
    t.add_edge(at, n);
    check(t.solve() == n + 1, "augmented along the whole chain");
    check(t.solve() == n + 1, "solving again");
}
}
