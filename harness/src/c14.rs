//! Shortest paths against Bellman-Ford, weights symbolic
use crate::model::size;
use crate::vp::*;
use rust_cp::graph::shortest_path::dijkstra;

const INF: u64 = u64::MAX;
fn compare(n: usize, e: &[(usize, usize, u64)], s: usize) {
    let mut g: Vec<Vec<(usize, usize)>> = vec![vec![]; n];
    for &(u, v, w) in e {
        g[u].push((v, w as usize));
    }
    // which vertices are reachable is concrete
    let mut reach = vec![false; n];
    reach[s] = true;
    for _ in 0..n {
        for &(u, v, _) in e {
            reach[v] |= reach[u];
        }
    }
    let r = dijkstra(&g, s);
    check(r.len() == n, "one entry per vertex");
    let mut d = vec![0; n];
    for v in 0..n {
        match r[v] {
            Some(x) => {
                check(reach[v], "None at unreachable vertices");
                observe(x as u64);
                d[v] = x as u64;
            }
            None => {
                check(!reach[v], "a distance at every reachable vertex");
                d[v] = INF;
            }
        }
    }
    check(d[s] == 0, "0 at the source");
    // d is the shortest distance iff no edge shortens it and every d[v] is
    // the weight of a simple path
    for &(u, v, w) in e {
        if reach[u] {
            check(d[v] <= d[u] + w, "no longer than any path");
        }
    }
    for v in 0..n {
        if reach[v] {
            check(attained(n, e, s, v, d[v], 1 << s, 0), "length of an actual path");
        }
    }
}
/// is `d` the weight of a simple path u -> v (given the weight so far)?
fn attained(n: usize, e: &[(usize, usize, u64)], u: usize, v: usize, d: u64, seen: u64, acc: u64) -> bool {
    if u == v {
        return acc == d;
    }
    let mut ok = false;
    for &(a, b, w) in e {
        if a == u && seen >> b & 1 == 0 {
            ok |= attained(n, e, b, v, d, seen | 1 << b, acc + w);
        }
    }
    ok
}
harness! {
// every edge sequence
fn c14_any() {
    let n = size(1, param(0));
    let e: Vec<_> = (0..param(1)).map(|_| (pick(n), pick(n), any(60))).collect();
    compare(n, &e, pick(n));
}
// every digraph without loops on n vertices
fn c14_subsets() {
    let n = param(0);
    let mut e = vec![];
    let down = pick(2) == 1;
    for u in 0..n {
        for j in 0..n {
            let v = if down { n - 1 - j } else { j };
            if u != v && v != 0 && branch(any_bool()) {
                e.push((u, v, any(60)));
            }
        }
    }
    compare(n, &e, 0);
}
// denser skeletons, decreasing keys several times
fn c14_skeletons() {
    let (n, sk): (usize, &[(usize, usize)]) = match param(0) {
        0 => (4, &[(0, 3), (0, 2), (0, 1), (1, 2), (2, 3), (1, 3), (2, 1), (3, 1)]),
        1 => (5, &[(0, 4), (0, 1), (1, 4), (1, 2), (2, 4), (2, 3), (3, 4)]),
        2 => (5, &[(0, 1), (0, 1), (1, 2), (1, 2), (2, 3), (2, 3), (3, 4)]),
        _ => (6, &[(0, 1), (0, 2), (1, 3), (2, 3), (3, 4), (3, 5), (4, 5), (5, 4)]),
    };
    let rev = pick(2) == 1;
    let mut e: Vec<_> = sk.iter().map(|&(u, v)| (u, v, any(60))).collect();
    if rev { e.reverse(); }
    compare(n, &e, 0);
}
// small weights: ties everywhere
fn c14_ties() {
    let n = 4;
    let e: Vec<_> = [(0, 1), (0, 2), (1, 2), (2, 1), (1, 3), (2, 3), (0, 3)].iter().map(|&(u, v)| (u, v, any(1))).collect();
    compare(n, &e, 0);
}
// one long path with some weights symbolic, and a shortcut
fn c14_long() {
    let n = param(0) + pick(2);
    let (x, y, z) = (any(40), any(40), any(40));
    let mut g = vec![vec![]; n + 1];
    for i in 0..n - 1 {
        let c = if i == 1 { x } else if i == n / 2 { y } else { 1 };
        g[i].push((i + 1, c as usize));
    }
    g[0].push((n - 1, z as usize));
    g[n].push((0, 0));
    let r = dijkstra(&g, 0);
    let mut d = 0;
    for i in 0..n {
        if i > 0 {
            d += if i - 1 == 1 { x } else if i - 1 == n / 2 { y } else { 1 };
        }
        let e = if i == n - 1 { ite(z < d, z, d) } else { d };
        match r[i] {
            Some(v) => check(v as u64 == e, "distance along a long path"),
            None => check(false, "vertex on the path is reachable"),
        }
    }
    check(r[n].is_none(), "vertex without incoming edges is not reachable");
}
}
