//! Maximum flow against the minimum over all cuts, capacities symbolic
use crate::model::size;
use crate::vp::*;
use rust_cp::graph::max_flow::Dinic;

struct Net {
    n: usize,
    e: Vec<(usize, usize, u64)>,
}
impl Net {
    /// is `f` the minimum cut capacity between s and t?
    fn is_min_cut(&self, s: usize, t: usize, f: u64) -> bool {
        let (mut le, mut hit) = (true, false);
        for c in 0u64..1 << self.n {
            if c >> s & 1 == 0 || c >> t & 1 == 1 {
                continue;
            }
            let mut x = 0u64;
            for &(u, v, w) in &self.e {
                if c >> u & 1 == 1 && c >> v & 1 == 0 {
                    x += w;
                }
            }
            le &= f <= x;
            hit |= f == x;
        }
        le & hit
    }
}
macro_rules! flow {
    ($cap:ty, $bits:expr, $n:expr, $m:expr, $extra:expr) => {{
        let n = $n;
        let mut d: Dinic<$cap> = Dinic::new(n);
        let mut g = Net { n, e: vec![] };
        let s = pick(n);
        let t = (s + 1 + pick(n - 1)) % n;
        for _ in 0..$m {
            let (u, v, c) = (pick(n), pick(n), any($bits));
            d.add_edge(u, v, c as $cap);
            g.e.push((u, v, c));
        }
        let f = d.get_max_flow(s, t) as u64;
        observe(f);
        check(g.is_min_cut(s, t, f), "maximum flow equals the minimum cut");
        check(d.get_max_flow(s, t) as u64 == 0, "solving again adds nothing");
        let mut f = f;
        for _ in 0..$extra {
            let (u, v, c) = (pick(n), pick(n), any($bits));
            d.add_edge(u, v, c as $cap);
            g.e.push((u, v, c));
            f = f.wrapping_add(d.get_max_flow(s, t) as u64);
            check(g.is_min_cut(s, t, f), "after adding an edge: increase of the maximum flow");
        }
    }};
}
/// fixed skeletons; every capacity symbolic (0 = edge absent)
fn skeleton(k: usize) -> (usize, &'static [(usize, usize)]) {
    match k {
        // diamond with both cross edges
        0 => (4, &[(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3)]),
        // the augmenting path has to push flow back
        1 => (6, &[(0, 1), (0, 2), (1, 4), (1, 3), (2, 4), (3, 5), (4, 5)]),
        // parallel and antiparallel edges
        2 => (3, &[(0, 1), (0, 1), (1, 0), (1, 2), (1, 2), (2, 1), (0, 2)]),
        // two disjoint paths joined by a bridge in each direction
        3 => (6, &[(0, 1), (1, 2), (2, 5), (0, 3), (3, 4), (4, 5), (1, 4), (4, 2)]),
        // zig-zag: long residual path
        4 => (6, &[(0, 3), (1, 3), (0, 1), (1, 5), (3, 4), (4, 5), (0, 4)]),
        // wide: many shortest paths
        5 => (5, &[(0, 1), (0, 2), (0, 3), (1, 4), (2, 4), (3, 4)]),
        // self-loops and edges back into the source / out of the sink
        _ => (4, &[(0, 0), (1, 0), (0, 1), (1, 1), (1, 2), (2, 3), (3, 2), (3, 0)]),
    }
}
harness! {
fn c13_small_i64() {
    flow!(i64, 58, size(2, param(0)), param(1), param(2))
}
fn c13_small_u8() {
    flow!(u8, 5, size(2, param(0)), param(1), param(2))
}
fn c13_small_u64() {
    flow!(u64, 58, size(2, param(0)), param(1), param(2))
}
fn c13_small_i32() {
    flow!(i32, 27, size(2, param(0)), param(1), param(2))
}
fn c13_skeletons() {
    let (n, sk) = skeleton(param(0));
    let m = sk.len();
    // edge order: rotations, forwards or backwards
    let rot = pick(param(1).min(m));
    let rev = pick(2) == 1;
    let mut d: Dinic<u64> = Dinic::new(n);
    let mut g = Net { n, e: vec![] };
    for i in 0..m {
        let j = (i + rot) % m;
        let (u, v) = sk[if rev { m - 1 - j } else { j }];
        let c = any(58);
        d.add_edge(u, v, c);
        g.e.push((u, v, c));
    }
    let f = d.get_max_flow(0, n - 1);
    observe(f);
    check(g.is_min_cut(0, n - 1, f), "maximum flow equals the minimum cut");
    check(d.get_max_flow(0, n - 1) == 0, "solving again adds nothing");
}
// capacities up to the top of the type, as long as every cut fits
fn c13_extreme() {
    let mut d: Dinic<u32> = Dinic::new(4);
    let mut g = Net { n: 4, e: vec![] };
    for &(u, v) in &[(0, 1), (0, 2), (1, 3), (2, 3), (1, 2)] {
        let c = any(32);
        d.add_edge(u, v, c as u32);
        g.e.push((u, v, c));
    }
    // every node's total inflow and outflow fits the type
    assume(g.e[0].2 + g.e[1].2 <= u32::MAX as u64);
    assume(g.e[2].2 + g.e[3].2 <= u32::MAX as u64);
    assume(g.e[0].2 + g.e[4].2 <= u32::MAX as u64);
    let f = d.get_max_flow(0, 3) as u64;
    observe(f);
    check(g.is_min_cut(0, 3, f), "maximum flow equals the minimum cut");
}
fn c13_panics() {
    let n = size(0, param(0));
    let mut d: Dinic<i64> = Dinic::new(n);
    let (s, t) = (any(64), any(64));
    assume((s >= n as u64) | (t >= n as u64));
    may_panic(true);
    d.get_max_flow(s as usize, t as usize);
    check(false, "vertex out of range accepted");
}
// one long path, two capacities symbolic, and a shortcut
fn c13_long() {
    let n = param(0) - pick(2);
    let mut d: Dinic<i64> = Dinic::new(n);
    let (x, y, z) = (any(58), any(58), any(58));
    for i in 0..n - 1 {
        let c = if i == n / 3 { x } else if i == n - 2 { y } else { 1 << 59 };
        d.add_edge(i, i + 1, c as i64);
    }
    let short = pick(3);
    let e = match short {
        0 => 0,
        1 => {
            d.add_edge(0, n - 1, z as i64);
            z
        }
        // back along the path: no use
        _ => {
            d.add_edge(n - 2, 1, z as i64);
            0
        }
    };
    let f = d.get_max_flow(0, n - 1) as u64;
    check((f >= e) & (f - e <= x) & (f - e <= y) & ((f - e == x) | (f - e == y)), "flow along a long path");
    check(d.get_max_flow(0, n - 1) == 0, "solving again adds nothing");
}
}
