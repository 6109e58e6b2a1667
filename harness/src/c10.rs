//! Binary lifting on trees, query nodes symbolic
use crate::model::*;
use crate::vp::*;
use rust_cp::graph::binary_lifting::BinaryLifting;

/// bit set of ancestors (self included), depth
fn facts(g: &[Vec<usize>], root: usize) -> (Vec<u64>, Vec<usize>) {
    let (pa, order) = rooted(g, root);
    let n = g.len();
    let (mut anc, mut dep) = (vec![0u64; n], vec![0usize; n]);
    for &u in &order {
        if u == root {
            anc[u] = 1 << u;
        } else {
            anc[u] = anc[pa[u]] | 1 << u;
            dep[u] = dep[pa[u]] + 1;
        }
    }
    (anc, dep)
}
fn queries(g: &Vec<Vec<usize>>, root: usize) {
    let n = g.len();
    let (anc, dep) = facts(g, root);
    let t = BinaryLifting::from(g, root);
    let (mut isa, mut lca, mut dis) = (vec![false; n * n], vec![0usize; n * n], vec![0usize; n * n]);
    for u in 0..n {
        for v in 0..n {
            isa[u * n + v] = anc[v] >> u & 1 == 1;
            let m = anc[u] & anc[v];
            let mut best = root;
            for w in 0..n {
                if m >> w & 1 == 1 && dep[w] > dep[best] {
                    best = w;
                }
            }
            lca[u * n + v] = best;
            dis[u * n + v] = dep[u] + dep[v] - 2 * dep[best];
        }
    }
    let (u, v) = (below(n as u64) as usize, below(n as u64) as usize);
    let i = u * n + v;
    check(t.is_ancestor(u, v) == isa[i], "is_ancestor iff on the path from the root");
    let l = t.lca(u, v);
    observe(l as u64);
    check(l == lca[i], "lca is the deepest common ancestor");
    let d = t.dis(u, v);
    observe(d as u64);
    check(d == dis[i], "dis is the number of edges between the nodes");
}
harness! {
fn c10_all_trees() {
    let n = size(1, param(0));
    let mut g = any_tree(n);
    let root = pick(n);
    if param(1) == 1 && pick(2) == 1 {
        for x in &mut g { x.reverse(); }
    }
    queries(&g, root);
}
fn c10_shapes() {
    let n = param(0) + param(2) * pick(param(1));
    let g = shape(n, pick(SHAPES), pick(3));
    let root = if param(3) == 0 { pick(n) } else { (pick(param(3)) * n) / param(3) };
    queries(&g, root);
}
// long paths, and a long path with leaves; labelled along or against it
fn c10_long() {
    let n = param(0) + pick(2);
    let leaves = pick(2) == 1;
    let down = pick(2) == 1;
    let id = |i: usize| if down { n - 1 - i } else { i };
    let mut g = vec![vec![]; n];
    // spine: all nodes, or the even ones
    for i in 1..n {
        let p = if !leaves { i - 1 } else if i % 2 == 1 { i - 1 } else { i - 2 };
        g[id(i)].push(id(p));
        g[id(p)].push(id(i));
    }
    let t = BinaryLifting::from(&g, id(0));
    let at = |i: usize| if !leaves { i } else { i - i % 2 };
    let (u, v) = ([0, 1, n / 2, n - 2, n - 1][pick(5)], pick(n));
    let top = at(u).min(at(v));
    let a = if u == v { u } else { top };
    let dep = |i: usize| if !leaves { i } else { i / 2 + i % 2 };
    check(t.lca(id(u), id(v)) == id(a), "lca");
    check(t.dis(id(u), id(v)) == dep(u) + dep(v) - 2 * dep(a), "dis");
    check(t.is_ancestor(id(u), id(v)) == (a == u), "is_ancestor");
}
}
