//! Fenwick tree: search on prefix sums
use crate::model::*;
use crate::vp::*;
use rust_cp::data_structure::fenwick_tree::FenwickTree;

#[derive(Clone, Copy, Default, PartialEq, PartialOrd)]
struct Tag {
    set: u64,
    sum: u64,
}
impl std::ops::Add for Tag {
    type Output = Tag;
    fn add(self, o: Tag) -> Tag {
        Tag { set: self.set + o.set, sum: self.sum.wrapping_add(o.sum) }
    }
}
impl std::ops::AddAssign for Tag {
    fn add_assign(&mut self, o: Tag) {
        *self = *self + o;
    }
}

harness! {
// search over non-negative data after one update, symbolic target
fn c02_search() {
    let n = size(0, param(0));
    let mut v: Vec<u64> = (0..n).map(|_| any(60)).collect();
    let mut t = FenwickTree::from(&v[..]);
    if n > 0 && param(1) == 1 {
        let i = pick(n);
        let x = any(60);
        t.add(i, x);
        v[i] += x;
    }
    let target = any(64);
    let g = t.search(&target);
    observe(g as u64);
    check(g <= n, "result in range");
    let mut s = 0u64;
    for i in 0..n {
        s += v[i];
        // prefix sums before the answer are smaller, from it on at least the target
        check((s < target) == (i < g), "first index whose inclusive prefix sum reaches the target");
    }
    cover(g == n, "no such index");
    cover((g == 0) & (n > 0), "first index");
}
// signed elements (non-negative values), any target including negative ones
fn c02_search_i64() {
    let n = size(0, param(0));
    let v: Vec<i64> = (0..n).map(|_| any(59) as i64).collect();
    let mut t: FenwickTree<i64> = FenwickTree::new(n);
    for i in 0..n { t.add(i, v[i]); }
    let target = any(64) as i64;
    let g = t.search(&target);
    observe(g as u64);
    check(g <= n, "result in range");
    let mut s = 0i64;
    for i in 0..n {
        s += v[i];
        check((s < target) == (i < g), "first index whose inclusive prefix sum reaches the target");
    }
    cover(target < 0, "negative target");
}
// a predicate given by the length of its leading part: values carry the set of
// elements they sum, the predicate only accepts inclusive prefixes
fn c02_partition() {
    let n = param(0) + pick(param(1));
    let v: Vec<Tag> = (0..n).map(|i| Tag { set: 1 << i, sum: any(64) }).collect();
    let t = FenwickTree::from(&v[..]);
    let k = below(n as u64 + 1);
    let mut asked_ok = true;
    let g = t.partition_point(|s: &Tag| {
        let len = s.set.count_ones() as u64;
        asked_ok &= (len > 0) & (s.set == (1u64 << len) - 1);
        let mut sum = 0u64;
        for i in 0..n {
            if i < len as usize {
                sum = sum.wrapping_add(v[i].sum);
            }
        }
        asked_ok &= sum == s.sum;
        branch(len <= k)
    });
    observe(g as u64);
    check(asked_ok, "predicate only sees inclusive prefix sums");
    check(g as u64 == k, "length of the leading part");
}
// larger sizes: the predicate is a threshold on a prefix sum of ones plus data
fn c02_big() {
    let n = param(0) + pick(param(1));
    let v = vec![1u32; n];
    let t = FenwickTree::from(&v[..]);
    let k = below(n as u64 + 2) as u32;
    let g = t.partition_point(|s: &u32| branch(*s <= k));
    observe(g as u64);
    check(g as u32 == ite(k < n as u32, k as u64, n as u64) as u32, "partition point of counting sums");
    let h = t.search(&k) as u64;
    check(h + 1 == ite(k == 0, 1, ite(k <= n as u32, k as u64, n as u64 + 1)), "search of counting sums");
}
}
