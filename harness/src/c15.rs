//! Strongly connected components against the transitive closure
use crate::model::size;
use crate::vp::*;
use rust_cp::graph::tarjan::scc;

fn compare(g: &Vec<Vec<usize>>) {
    let n = g.len();
    let mut r: Vec<u64> = (0..n).map(|i| 1 << i).collect();
    for u in 0..n {
        for &v in &g[u] { r[u] |= 1 << v; }
    }
    for k in 0..n {
        for i in 0..n {
            if r[i] >> k & 1 == 1 { r[i] |= r[k]; }
        }
    }
    let (cnt, color) = scc(g);
    observe(cnt as u64);
    check(color.len() == n, "one number per vertex");
    let mut used = 0u64;
    for u in 0..n {
        check(color[u] < cnt, "numbers are below the count");
        used |= 1 << (color[u] & 63);
        for v in 0..n {
            let same = r[u] >> v & 1 == 1 && r[v] >> u & 1 == 1;
            check((color[u] == color[v]) == same, "same number iff mutually reachable");
        }
        for &v in &g[u] {
            check(color[u] >= color[v], "edges go from higher to lower numbers");
        }
    }
    check(cnt <= n && used == (1 << cnt) - 1, "no number unused");
}
harness! {
// every edge sequence, loops and parallel edges included
fn c15_any() {
    let n = size(param(2), param(0));
    let mut g = vec![vec![]; n];
    if n > 0 {
        for _ in 0..param(1) {
            g[pick(n)].push(pick(n));
        }
    }
    compare(&g);
}
// every digraph on n vertices without loops, three adjacency orders
fn c15_subsets() {
    let n = param(0);
    let order = pick(param(1));
    let mut g = vec![vec![]; n];
    for u in 0..n {
        for j in 0..n {
            let v = match order { 0 => j, 1 => n - 1 - j, _ => (u + 1 + j) % n };
            if u != v && branch(any_bool()) {
                g[u].push(v);
            }
        }
    }
    compare(&g);
}
// a long cycle or path plus arbitrary chords, labels scrambled
fn c15_chords() {
    let n = param(0);
    let k = param(1);
    let mut g = vec![vec![]; n];
    let step = pick(2) * 2 + 1; // 1 or 3
    let closed = pick(2) == 1;
    let first = pick(2) == 1;
    let chords: Vec<(usize, usize)> = (0..k).map(|_| (pick(n), pick(n))).collect();
    if first {
        for &(u, v) in &chords { g[u].push(v); }
    }
    for i in 0..n {
        if i + 1 < n || closed {
            g[i * step % n].push((i + 1) * step % n);
        }
    }
    if !first {
        for &(u, v) in &chords { g[u].push(v); }
    }
    compare(&g);
}
// a long path with an edge back between two of its places
fn c15_long() {
    let n = param(0) + pick(2);
    let (from, to) = ([0, n / 2, n - 1][pick(3)], [0, n / 3, n - 1][pick(3)]);
    let mut g = vec![vec![]; n];
    let down = pick(2) == 1;
    let id = |i: usize| if down { n - 1 - i } else { i };
    for i in 0..n - 1 {
        g[id(i)].push(id(i + 1));
    }
    g[id(from)].push(id(to));
    let (cnt, c) = scc(&g);
    let size = if from > to { from - to + 1 } else { 1 };
    check(cnt == n - size + 1, "number of components");
    check(c.len() == n, "a number for every vertex");
    for i in 0..n - 1 {
        if to <= i && i < from {
            check(c[id(i)] == c[id(i + 1)], "one component on the cycle");
        } else {
            check(c[id(i)] == c[id(i + 1)] + 1, "edges go to lower numbers");
        }
    }
    check(c[id(n - 1)] == 0, "numbers start at 0");
}
}
