//! Min-heap: elements with an identity, compared by key only
use crate::model::size;
use crate::vp::*;
use rust_cp::data_structure::min_heap::MinHeap;
use std::cmp::Ordering;

#[derive(Clone, Copy, Debug)]
struct Item {
    key: i64,
    id: usize,
}
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.key == o.key
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> Ordering {
        self.key.cmp(&o.key)
    }
}
/// what is stored: keys by id, and which ids are present
struct Bag {
    keys: Vec<i64>,
    here: Vec<bool>,
}
impl Bag {
    fn new() -> Bag {
        Bag { keys: vec![], here: vec![] }
    }
    fn add(&mut self) -> Item {
        let key = any_i64(64);
        self.keys.push(key);
        self.here.push(true);
        Item { key, id: self.keys.len() - 1 }
    }
    fn len(&self) -> usize {
        let mut n = 0;
        for &h in &self.here {
            n += h as usize;
        }
        n
    }
    fn holds(&self, x: &Item) -> bool {
        x.id < self.keys.len() && self.here[x.id] && self.keys[x.id] == x.key
    }
    fn least(&self, x: &Item) -> bool {
        let mut ok = true;
        for i in 0..self.keys.len() {
            if self.here[i] {
                ok &= x.key <= self.keys[i];
            }
        }
        ok
    }
    fn smallest(&self, x: Option<&Item>) {
        match x {
            None => check(self.len() == 0, "None only when empty"),
            Some(x) => {
                check(self.holds(x), "returns a stored element");
                check(self.least(x), "no stored element is smaller");
            }
        }
    }
    fn drain(&mut self, mut h: MinHeap<Item>) {
        loop {
            check(h.len() == self.len(), "len");
            check(h.is_empty() == (self.len() == 0), "is_empty");
            self.smallest(h.peek());
            let p = h.pop();
            self.smallest(p.as_ref());
            match p {
                Some(x) => { if x.id < self.here.len() { self.here[x.id] = false } }
                None => break,
            }
        }
        check(self.len() == 0, "everything stored comes out");
    }
    fn sorted(&self, v: Vec<Item>) {
        check(v.len() == self.len(), "into_sorted_vec returns every element");
        let mut seen = vec![false; self.keys.len()];
        for i in 0..v.len() {
            check(self.holds(&v[i]), "into_sorted_vec returns stored elements");
            check(!seen[v[i].id], "into_sorted_vec returns each element once");
            seen[v[i].id] = true;
            if i > 0 {
                check(v[i - 1].key <= v[i].key, "into_sorted_vec is ascending");
            }
        }
    }
}
harness! {
fn c09_history() {
    let mut b = Bag::new();
    let mut h: MinHeap<Item> = if pick(2) == 1 { MinHeap::new() } else { MinHeap::with_capacity(3) };
    for _ in 0..param(0) {
        match pick(4) {
            0 | 1 => h.push(b.add()),
            2 => {
                let p = h.pop();
                b.smallest(p.as_ref());
                if let Some(x) = p { b.here[x.id] = false }
            }
            _ => { h.clear(); b.here.fill(false); }
        }
        check(h.len() == b.len(), "len");
        check(h.is_empty() == (b.len() == 0), "is_empty");
        b.smallest(h.peek());
    }
    b.drain(h);
}
fn c09_drain() {
    let n = size(0, param(0));
    let mut b = Bag::new();
    let mut h = MinHeap::new();
    for _ in 0..n {
        h.push(b.add());
    }
    b.drain(h);
}
fn c09_sorted() {
    let n = size(0, param(0));
    let mut b = Bag::new();
    let mut h = MinHeap::new();
    for _ in 0..n {
        h.push(b.add());
    }
    if n > 1 && pick(2) == 1 {
        let p = h.pop();
        b.smallest(p.as_ref());
        if let Some(x) = p { b.here[x.id] = false }
    }
    b.sorted(h.into_sorted_vec());
}
fn c09_append() {
    let (n, m) = (size(0, param(0)), size(0, param(1)));
    let mut b = Bag::new();
    let (mut h, mut o) = (MinHeap::new(), MinHeap::with_capacity(1));
    for _ in 0..n { h.push(b.add()); }
    for _ in 0..m { o.push(b.add()); }
    h.append(&mut o);
    check(o.is_empty() & (o.len() == 0), "the other heap is left empty");
    check(o.peek().is_none(), "the other heap has no element left");
    check(o.pop().is_none(), "the other heap gives nothing");
    check(h.len() == n + m, "append moves everything");
    b.drain(h);
}
// plain integers and tuples, as the rest of the library uses it
fn c09_ints() {
    let n = size(0, param(0));
    let a: Vec<(u64, u64)> = (0..n).map(|_| (any(64), any(64))).collect();
    let mut h = MinHeap::new();
    for &x in &a { h.push(x); }
    let mut used = vec![false; n];
    let mut last = (0, 0);
    for k in 0..n {
        let p = h.pop();
        check(p.is_some(), "as many pops as pushes");
        let x = p.unwrap_or((0, 0));
        check((k == 0) | (last.0 < x.0) | ((last.0 == x.0) & (last.1 <= x.1)), "ascending");
        last = x;
        // matches an element not yet taken
        let mut found = false;
        for i in 0..n {
            if !used[i] && !found && branch((a[i].0 == x.0) & (a[i].1 == x.1)) {
                used[i] = true;
                found = true;
            }
        }
        check(found, "pop returns a stored element");
    }
    check(h.pop().is_none(), "empty at the end");
}
}
