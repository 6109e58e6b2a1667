//! Reference models shared by the harnesses: the free monoid, the free action
//! on it, and helpers. Shapes (lengths) are concrete, symbols symbolic, so a
//! statement about these instances carries over to every monoid and action.
use crate::vp::*;
use rust_cp::traits::monoid::{MapMonoid, Monoid};

/// a word of up to 32 symbols of 4 bits
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Word {
    pub len: u32,
    pub bits: u128,
}
impl Word {
    pub const EMPTY: Word = Word { len: 0, bits: 0 };
    pub fn sym(x: u64) -> Word {
        Word { len: 1, bits: (x & 15) as u128 }
    }
    pub fn any() -> Word {
        Word::sym(any(4))
    }
    pub fn cat(self, o: Word) -> Word {
        if o.len == 0 {
            return self;
        }
        if self.len == 0 {
            return o;
        }
        Word { len: self.len + o.len, bits: (self.bits << (4 * o.len)) | o.bits }
    }
    /// equality without splitting the path
    pub fn same(self, o: Word) -> bool {
        (self.len == o.len) & (self.bits == o.bits)
    }
    pub fn see(self) {
        observe(self.len as u64);
        observe(self.bits as u64);
        observe((self.bits >> 64) as u64);
    }
}
pub fn word_of(a: &[Word]) -> Word {
    let mut w = Word::EMPTY;
    for x in a {
        w = w.cat(*x);
    }
    w
}
/// the free (non-commutative) monoid
pub struct Free;
impl Monoid for Free {
    type S = Word;
    fn identity() -> Word {
        Word::EMPTY
    }
    fn binary_operation(a: &Word, b: &Word) -> Word {
        a.cat(*b)
    }
}

/// ranges of positions carrying a wrapping sum: combining ranges that are not
/// adjacent gives the absorbing element `bad`, so the order of operands is
/// checked for any length
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Seg {
    pub l: u32,
    pub r: u32,
    pub kind: u8, // 0 empty, 1 range, 2 bad
    pub sum: u64,
}
impl Seg {
    pub fn at(p: usize, x: u64) -> Seg {
        Seg { l: p as u32, r: p as u32 + 1, kind: 1, sum: x }
    }
    pub fn same(self, o: Seg) -> bool {
        (self.l == o.l) & (self.r == o.r) & (self.kind == o.kind) & (self.sum == o.sum)
    }
}
pub struct Spans;
impl Monoid for Spans {
    type S = Seg;
    fn identity() -> Seg {
        Seg { l: 0, r: 0, kind: 0, sum: 0 }
    }
    fn binary_operation(a: &Seg, b: &Seg) -> Seg {
        if a.kind == 0 {
            return *b;
        }
        if b.kind == 0 {
            return *a;
        }
        if a.kind == 2 || b.kind == 2 || a.r != b.l {
            return Seg { l: 0, r: 0, kind: 2, sum: 0 };
        }
        Seg { l: a.l, r: b.r, kind: 1, sum: a.sum.wrapping_add(b.sum) }
    }
}
pub fn seg_of(a: &[Seg]) -> Seg {
    let mut w = Spans::identity();
    for x in a {
        w = Spans::binary_operation(&w, x);
    }
    w
}

/// free action: a value is a list of up to CAP elements, each carrying its
/// base symbol and the maps applied to it in order
pub const CAP: usize = 9;
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Hist {
    pub n: usize,
    pub e: [Word; CAP],
}
impl Hist {
    pub const EMPTY: Hist = Hist { n: 0, e: [Word::EMPTY; CAP] };
    pub fn one(w: Word) -> Hist {
        let mut h = Hist::EMPTY;
        h.n = 1;
        h.e[0] = w;
        h
    }
    pub fn any() -> Hist {
        Hist::one(Word::any())
    }
    pub fn same(&self, o: &Hist) -> bool {
        let mut ok = self.n == o.n;
        for i in 0..CAP {
            if i < self.n {
                ok &= self.e[i].same(o.e[i]);
            }
        }
        ok
    }
    pub fn see(&self) {
        observe(self.n as u64);
        for i in 0..self.n {
            observe(self.e[i].bits as u64);
        }
    }
}
pub struct FreeLists;
impl Monoid for FreeLists {
    type S = Hist;
    fn identity() -> Hist {
        Hist::EMPTY
    }
    fn binary_operation(a: &Hist, b: &Hist) -> Hist {
        let mut r = *a;
        for i in 0..b.n {
            r.e[r.n] = b.e[i];
            r.n += 1;
        }
        r
    }
}
pub struct FreeAction;
impl MapMonoid for FreeAction {
    type M = FreeLists;
    type F = Word;
    fn identity_map() -> Word {
        Word::EMPTY
    }
    fn mapping(f: &Word, x: &Hist) -> Hist {
        let mut r = *x;
        for i in 0..r.n {
            r.e[i] = r.e[i].cat(*f);
        }
        r
    }
    fn composition(f: &Word, g: &Word) -> Word {
        g.cat(*f)
    }
}
pub fn hist_of(a: &[Hist]) -> Hist {
    let mut w = Hist::EMPTY;
    for x in a {
        w = FreeLists::binary_operation(&w, x);
    }
    w
}
/// the sizes of a job: one path per size in lo..=hi
pub fn size(lo: usize, hi: usize) -> usize {
    lo + pick(hi - lo + 1)
}
/// the labelled tree with the given Pruefer sequence, as adjacency lists in
/// ascending order (every labelled tree has exactly one such sequence)
pub fn any_tree(n: usize) -> Vec<Vec<usize>> {
    let mut g = vec![vec![]; n];
    if n >= 2 {
        let mut deg = vec![1; n];
        let mut code = vec![];
        for _ in 2..n {
            let x = pick(n);
            deg[x] += 1;
            code.push(x);
        }
        let mut adj = vec![vec![false; n]; n];
        for &x in &code {
            let mut leaf = 0;
            while deg[leaf] != 1 {
                leaf += 1;
            }
            adj[leaf][x] = true;
            adj[x][leaf] = true;
            deg[leaf] -= 1;
            deg[x] -= 1;
        }
        let (mut a, mut b) = (n, n);
        for i in 0..n {
            if deg[i] == 1 {
                if a == n {
                    a = i
                } else {
                    b = i
                }
            }
        }
        adj[a][b] = true;
        adj[b][a] = true;
        for i in 0..n {
            for j in 0..n {
                if adj[i][j] {
                    g[i].push(j);
                }
            }
        }
    }
    g
}
/// parent of every node when `g` is rooted at `root` (root's is itself) and
/// the nodes in breadth-first order
pub fn rooted(g: &[Vec<usize>], root: usize) -> (Vec<usize>, Vec<usize>) {
    let n = g.len();
    let mut pa = vec![n; n];
    let mut order = vec![root];
    pa[root] = root;
    let mut i = 0;
    while i < order.len() {
        let u = order[i];
        i += 1;
        for &v in &g[u] {
            if pa[v] == n {
                pa[v] = u;
                order.push(v);
            }
        }
    }
    (pa, order)
}

/// range-add / range-assign style action with real data: maps are x -> c or
/// x -> x + d (wrapping), values carry length and sum
#[derive(Clone, Copy)]
pub struct Upd {
    pub assign: bool,
    pub v: u64,
}
#[derive(Clone, Copy)]
pub struct LenSum {
    pub len: u64,
    pub sum: u64,
}
pub struct LenSums;
impl Monoid for LenSums {
    type S = LenSum;
    fn identity() -> LenSum {
        LenSum { len: 0, sum: 0 }
    }
    fn binary_operation(a: &LenSum, b: &LenSum) -> LenSum {
        LenSum { len: a.len + b.len, sum: a.sum.wrapping_add(b.sum) }
    }
}
pub struct AssignAdd;
impl MapMonoid for AssignAdd {
    type M = LenSums;
    type F = Upd;
    fn identity_map() -> Upd {
        Upd { assign: false, v: 0 }
    }
    fn mapping(f: &Upd, x: &LenSum) -> LenSum {
        let s = f.v.wrapping_mul(x.len);
        LenSum { len: x.len, sum: if f.assign { s } else { x.sum.wrapping_add(s) } }
    }
    fn composition(f: &Upd, g: &Upd) -> Upd {
        if f.assign {
            *f
        } else {
            Upd { assign: g.assign, v: g.v.wrapping_add(f.v) }
        }
    }
}
/// add on ranges over spans (position-tracking monoid): order of operands and
/// exactly-once application are both visible for any length
pub struct SpanAdd;
impl MapMonoid for SpanAdd {
    type M = Spans;
    type F = u64;
    fn identity_map() -> u64 {
        0
    }
    fn mapping(f: &u64, x: &Seg) -> Seg {
        let mut r = *x;
        r.sum = r.sum.wrapping_add(f.wrapping_mul((x.r - x.l) as u64));
        r
    }
    fn composition(f: &u64, g: &u64) -> u64 {
        f.wrapping_add(*g)
    }
}

/// larger trees of various shapes, with three labellings
pub const SHAPES: usize = 8;
pub fn shape(n: usize, kind: usize, label: usize) -> Vec<Vec<usize>> {
    let parent = |i: usize| match kind {
        0 => i - 1,                                   // path
        1 => 0,                                       // star
        2 => (i - 1) / 2,                             // binary
        3 => if i % 2 == 1 { i.max(2) - 2 } else { i - 1 }, // caterpillar: odd nodes are the spine
        4 => if i < n / 2 { i - 1 } else { n / 2 - 1 },   // broom
        5 => (i - 1) / 3,                             // ternary
        6 => if i <= 3 { 0 } else { i - 3 },          // three long legs
        _ => i & (i - 1),                             // binomial
    };
    let mut k = 1;
    if label == 2 {
        k = n / 2 + 1;
        while gcd_(k, n) != 1 {
            k += 1;
        }
    }
    let name = |i: usize| match label {
        0 => i,
        1 => n - 1 - i,
        _ => (i * k + 1) % n,
    };
    let mut g = vec![vec![]; n];
    for i in 1..n {
        let (a, b) = (name(i), name(parent(i)));
        g[a].push(b);
        g[b].push(a);
    }
    g
}
fn gcd_(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd_(b, a % b)
    }
}
