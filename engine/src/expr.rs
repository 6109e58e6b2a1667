//! Hash-consed bit-vector expressions (widths 1..=128) with a simplifier.
//! Every rewrite below is an equivalence over all values of the operands;
//! `symir selftest` checks each of them with the solver on random terms.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // low bit in k, width in w
    Concat,  // a high, b low
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128, // Const value, Var index, Extract low bit
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

#[derive(Clone, Copy)]
pub struct Info {
    pub lo: u128,
    pub hi: u128,
    pub slo: i128,
    pub shi: i128,
    pub kleaf: u16, // >0: an ite tree with that many constant leaves (1 = constant)
    pub depth: u32,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: FxMap<Node, Id>,
    pub var_names: Vec<(String, u8)>,
    pub simplify: bool,
}

pub const T: Id = 0;
pub const F: Id = 1;

/// Concrete semantics of one operator; None = undefined (division by zero).
pub fn eval_op(op: Op, w: u8, wa: u8, wb: u8, a: u128, b: u128, k: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, wa) < sext(b, wa)) as u128,
        Op::Sle => (sext(a, wa) <= sext(b, wa)) as u128,
        Op::ZExt => a,
        Op::SExt => (sext(a, wa) as u128) & m,
        Op::Extract => (a >> k) & m,
        Op::Concat => ((a << wb) | b) & m,
        Op::Const | Op::Var | Op::Ite => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![],
            info: vec![],
            map: Default::default(),
            var_names: vec![],
            simplify: true,
        };
        assert!(a.konst(1, 1) == T);
        assert!(a.konst(0, 1) == F);
        a
    }
    #[inline]
    pub fn n(&self, e: Id) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: Id) -> u8 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn k(&self, e: Id) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    #[inline]
    pub fn lo(&self, e: Id) -> u128 {
        self.info[e as usize].lo
    }
    #[inline]
    pub fn hi(&self, e: Id) -> u128 {
        self.info[e as usize].hi
    }
    fn mk(&mut self, n: Node) -> Id {
        if let Some(&i) = self.map.get(&n) {
            return i;
        }
        let (mut lo, mut hi) = self.range_of(&n);
        let (mut slo, mut shi) = self.srange_of(&n);
        {
            // combine both views
            let half = 1u128 << (n.w - 1);
            if n.w < 128 {
                let (a, b) = if hi < half {
                    (lo as i128, hi as i128)
                } else if lo >= half {
                    (sext(lo, n.w), sext(hi, n.w))
                } else {
                    (i128::MIN, i128::MAX)
                };
                slo = slo.max(a);
                shi = shi.min(b);
                if slo >= 0 {
                    lo = lo.max(slo as u128);
                    hi = hi.min(shi as u128);
                } else if shi < 0 {
                    lo = lo.max(slo as u128 & mask(n.w));
                    hi = hi.min(shi as u128 & mask(n.w));
                }
            }
        }
        let kleaf = match n.op {
            Op::Const => 1,
            Op::Ite => {
                let (x, y) = (self.info[n.b as usize].kleaf, self.info[n.c as usize].kleaf);
                if x == 0 || y == 0 || x + y > 64 {
                    0
                } else {
                    x + y
                }
            }
            _ => 0,
        };
        let depth = match n.op {
            Op::Const | Op::Var => 0,
            Op::Ite => {
                1 + self.info[n.a as usize]
                    .depth
                    .max(self.info[n.b as usize].depth)
                    .max(self.info[n.c as usize].depth)
            }
            Op::ZExt | Op::SExt | Op::Extract => 1 + self.info[n.a as usize].depth,
            _ => 1 + self.info[n.a as usize].depth.max(self.info[n.b as usize].depth),
        };
        let i = self.nodes.len() as Id;
        self.nodes.push(n);
        self.info.push(Info { lo, hi, slo, shi, kleaf, depth });
        self.map.insert(n, i);
        i
    }
    #[inline]
    pub fn slo(&self, e: Id) -> i128 {
        self.info[e as usize].slo
    }
    #[inline]
    pub fn shi(&self, e: Id) -> i128 {
        self.info[e as usize].shi
    }
    fn srange_of(&self, n: &Node) -> (i128, i128) {
        let (mn, mx) = if n.w == 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (n.w - 1)), (1i128 << (n.w - 1)) - 1) };
        let full = (mn, mx);
        let sr = |x: Id| (self.info[x as usize].slo, self.info[x as usize].shi);
        let fit = |l: Option<i128>, h: Option<i128>| match (l, h) {
            (Some(l), Some(h)) if l >= mn && h <= mx => (l, h),
            _ => full,
        };
        match n.op {
            Op::Const => {
                let v = sext(n.k, n.w);
                (v, v)
            }
            Op::Add => {
                let ((al, ah), (bl, bh)) = (sr(n.a), sr(n.b));
                fit(al.checked_add(bl), ah.checked_add(bh))
            }
            Op::Sub => {
                let ((al, ah), (bl, bh)) = (sr(n.a), sr(n.b));
                fit(al.checked_sub(bh), ah.checked_sub(bl))
            }
            Op::Mul => {
                let ((al, ah), (bl, bh)) = (sr(n.a), sr(n.b));
                let mut lo: Option<i128> = Some(i128::MAX);
                let mut hi: Option<i128> = Some(i128::MIN);
                for x in [al, ah] {
                    for y in [bl, bh] {
                        match x.checked_mul(y) {
                            None => {
                                lo = None;
                                hi = None;
                            }
                            Some(p) => {
                                lo = lo.map(|l| l.min(p));
                                hi = hi.map(|h| h.max(p));
                            }
                        }
                    }
                }
                fit(lo, hi)
            }
            Op::Ite => {
                let ((al, ah), (bl, bh)) = (sr(n.b), sr(n.c));
                (al.min(bl), ah.max(bh))
            }
            Op::SExt => sr(n.a),
            Op::ZExt => {
                if self.w(n.a) < 128 {
                    (self.info[n.a as usize].lo as i128, self.info[n.a as usize].hi as i128)
                } else {
                    full
                }
            }
            Op::Extract if n.k == 0 => {
                let (l, h) = sr(n.a);
                fit(Some(l), Some(h))
            }
            Op::SRem => match self.k(n.b) {
                Some(k) if k != 0 && k != 1u128 << 127 => {
                    let m = sext(k, n.w).unsigned_abs() as i128 - 1;
                    let (l, h) = sr(n.a);
                    (if l >= 0 { 0 } else { (-m).max(l) }, if h <= 0 { 0 } else { m.min(h) })
                }
                _ => full,
            },
            Op::SDiv => match self.k(n.b) {
                Some(k) if sext(k, n.w) > 0 => {
                    let k = sext(k, n.w);
                    let (l, h) = sr(n.a);
                    (l / k, h / k)
                }
                _ => full,
            },
            _ => full,
        }
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let m = mask(n.w);
        let full = (0, m);
        let ra = |x: Id| (self.info[x as usize].lo, self.info[x as usize].hi);
        match n.op {
            Op::Const => (n.k, n.k),
            Op::Var => full,
            Op::Add => {
                let ((al, ah), (bl, bh)) = (ra(n.a), ra(n.b));
                match ah.checked_add(bh) {
                    Some(h) if h <= m => (al + bl, h),
                    _ => {
                        // both ends wrap exactly once
                        if n.w < 127 && al + bl > m {
                            (al + bl - m - 1, ah + bh - m - 1)
                        } else {
                            full
                        }
                    }
                }
            }
            Op::Sub => {
                let ((al, ah), (bl, bh)) = (ra(n.a), ra(n.b));
                if al >= bh {
                    (al - bh, ah - bl)
                } else {
                    full
                }
            }
            Op::Mul => {
                let ((al, ah), (bl, bh)) = (ra(n.a), ra(n.b));
                match ah.checked_mul(bh) {
                    Some(h) if h <= m => (al * bl, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let ((al, ah), (bl, bh)) = (ra(n.a), ra(n.b));
                if bl == 0 {
                    full
                } else {
                    (al / bh, ah / bl)
                }
            }
            Op::URem => {
                let ((al, ah), (bl, bh)) = (ra(n.a), ra(n.b));
                if bl == 0 {
                    full
                } else if ah < bl {
                    (al, ah)
                } else {
                    (0, ah.min(bh - 1))
                }
            }
            Op::And => {
                let ((_, ah), (_, bh)) = (ra(n.a), ra(n.b));
                (0, ah.min(bh))
            }
            Op::Or | Op::Xor => {
                let ((al, ah), (bl, bh)) = (ra(n.a), ra(n.b));
                let top = ah | bh;
                let bits = 128 - top.leading_zeros();
                let hi = mask(bits as u8);
                (if n.op == Op::Or { al.max(bl) } else { 0 }, if bits == 0 { 0 } else { hi })
            }
            Op::Shl => {
                let ((al, ah), b) = (ra(n.a), self.k(n.b));
                match b {
                    Some(s) if s < n.w as u128 && (ah << s) >> s == ah && (ah << s) <= m => (al << s, ah << s),
                    _ => full,
                }
            }
            Op::LShr => {
                let ((al, ah), (bl, bh)) = (ra(n.a), ra(n.b));
                let f = |x: u128, s: u128| if s >= 128 { 0 } else { x >> s };
                (f(al, bh), f(ah, bl))
            }
            Op::Ite => {
                let ((al, ah), (bl, bh)) = (ra(n.b), ra(n.c));
                (al.min(bl), ah.max(bh))
            }
            Op::ZExt => ra(n.a),
            Op::SExt => {
                let wa = self.w(n.a);
                let (al, ah) = ra(n.a);
                if ah < 1u128 << (wa - 1) {
                    (al, ah)
                } else {
                    full
                }
            }
            Op::Extract => {
                let (al, ah) = ra(n.a);
                if n.k < 128 && (ah >> n.k) <= m {
                    (al >> n.k, ah >> n.k)
                } else {
                    full
                }
            }
            Op::Concat => {
                let wb = self.w(n.b);
                let ((al, ah), (bl, bh)) = (ra(n.a), ra(n.b));
                ((al << wb) + bl, (ah << wb) + bh)
            }
            _ => full,
        }
    }

    pub fn konst(&mut self, v: u128, w: u8) -> Id {
        let v = v & mask(w);
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v })
    }
    pub fn var(&mut self, name: &str, w: u8) -> Id {
        let k = self.var_names.len();
        self.var_names.push((name.to_string(), w));
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: k as u128 })
    }
    fn raw(&mut self, op: Op, w: u8, a: Id, b: Id) -> Id {
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }

    pub fn not(&mut self, a: Id) -> Id {
        debug_assert!(self.w(a) == 1);
        if a == T {
            return F;
        }
        if a == F {
            return T;
        }
        let n = self.n(a);
        match n.op {
            Op::Xor if n.b == T => n.a,
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            _ => self.raw(Op::Xor, 1, a, T),
        }
    }
    pub fn and(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::And, a, b)
    }
    pub fn or(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::Eq, a, b)
    }

    /// apply f to every constant leaf of an ite tree
    fn map_leaves(&mut self, e: Id, f: &mut dyn FnMut(&mut Arena, u128) -> Id, memo: &mut FxMap<Id, Id>) -> Id {
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let n = self.n(e);
        let r = if n.op == Op::Const {
            f(self, n.k)
        } else {
            let x = self.map_leaves(n.b, f, memo);
            let y = self.map_leaves(n.c, f, memo);
            self.ite(n.a, x, y)
        };
        memo.insert(e, r);
        r
    }
    fn kl(&self, e: Id) -> u16 {
        self.info[e as usize].kleaf
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let (wa, wb) = (self.w(a), self.w(b));
        debug_assert!(wa == wb || op == Op::Concat, "{:?} {} {}", op, wa, wb);
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            Op::Concat => wa + wb,
            _ => wa,
        };
        if let (Some(x), Some(y)) = (self.k(a), self.k(b)) {
            let v = eval_op(op, w, wa, wb, x, y, 0);
            return self.konst(v, w);
        }
        if !self.simplify {
            return self.raw(op, w, a, b);
        }
        // push operators with one constant operand into ite trees of constants
        if self.kl(a) > 1 && self.k(b).is_some() {
            let y = self.k(b).unwrap();
            let mut memo = Default::default();
            return self.map_leaves(
                a,
                &mut |ar, x| {
                    let v = eval_op(op, w, wa, wb, x, y, 0);
                    ar.konst(v, w)
                },
                &mut memo,
            );
        }
        if self.kl(b) > 1 && self.k(a).is_some() {
            let x = self.k(a).unwrap();
            let mut memo = Default::default();
            return self.map_leaves(
                b,
                &mut |ar, y| {
                    let v = eval_op(op, w, wa, wb, x, y, 0);
                    ar.konst(v, w)
                },
                &mut memo,
            );
        }
        match op {
            Op::Add => self.s_add(a, b, w),
            Op::Sub => self.s_sub(a, b, w),
            Op::Mul => self.s_mul(a, b, w),
            Op::UDiv => {
                if self.hi(a) < self.lo(b) {
                    return self.konst(0, w);
                }
                if let Some(y) = self.k(b) {
                    if y == 1 {
                        return a;
                    }
                    if y != 0 && y.is_power_of_two() {
                        let s = self.konst(y.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                    if self.hi(a) < y {
                        return self.konst(0, w);
                    }
                }
                if let Some(r) = self.div_lin(op, a, b, w) {
                    return r;
                }
                if let Some(r) = self.narrow(op, a, b, w) {
                    return r;
                }
                self.raw(op, w, a, b)
            }
            Op::URem => {
                if self.hi(a) < self.lo(b) {
                    return a;
                }
                if let Some(y) = self.k(b) {
                    if y == 1 {
                        return self.konst(0, w);
                    }
                    if y != 0 && y.is_power_of_two() {
                        let s = self.konst(y - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
                if let Some(r) = self.div_lin(op, a, b, w) {
                    return r;
                }
                if let Some(r) = self.rem_sum(a, b, w) {
                    return r;
                }
                if let Some(r) = self.narrow(op, a, b, w) {
                    return r;
                }
                self.raw(op, w, a, b)
            }
            Op::SDiv | Op::SRem => {
                let h = 1u128 << (w - 1);
                if self.hi(a) < h && self.hi(b) < h {
                    let o = if op == Op::SDiv { Op::UDiv } else { Op::URem };
                    return self.bin(o, a, b);
                }
                if let Some(1) = self.k(b) {
                    return if op == Op::SDiv { a } else { self.konst(0, w) };
                }
                // a dividend that is never positive: by its negative
                if w > 64 && self.hi(b) < h && self.shi(a) <= 0 && self.slo(a) > -(1i128 << 62) {
                    let z = self.konst(0, w);
                    let n = self.bin(Op::Sub, z, a);
                    if self.hi(n) < h {
                        let r = self.bin(op, n, b);
                        return self.bin(Op::Sub, z, r);
                    }
                }
                if let Some(c) = self.k(b).map(|k| sext(k, w)) {
                    if c < -1 && c > -(1i128 << (w - 1).min(126)) {
                        let b = self.konst((-c) as u128, w);
                        let r = self.bin(op, a, b);
                        if op == Op::SRem {
                            return r;
                        }
                        let z = self.konst(0, w);
                        return self.bin(Op::Sub, z, r);
                    }
                }
                // smaller magnitude than every divisor
                let (bl, bh) = (self.slo(b), self.shi(b));
                let big = if bl > 0 { bl.unsigned_abs() } else if bh < 0 { bh.unsigned_abs() } else { 0 };
                if self.slo(a).unsigned_abs().max(self.shi(a).unsigned_abs()) < big {
                    return if op == Op::SDiv { self.konst(0, w) } else { a };
                }
                if let Some(r) = self.div_lin(op, a, b, w) {
                    return r;
                }
                if let Some(r) = self.narrow_signed(op, a, b, w) {
                    return r;
                }
                self.raw(op, w, a, b)
            }
            Op::And => self.s_and(a, b, w),
            Op::Or => self.s_or(a, b, w),
            Op::Xor => self.s_xor(a, b, w),
            Op::Shl | Op::LShr | Op::AShr => self.s_shift(op, a, b, w),
            Op::Eq => self.s_eq(a, b, wa),
            Op::Ult | Op::Ule => self.s_ucmp(op, a, b, wa),
            Op::Slt | Op::Sle => self.s_scmp(op, a, b, wa),
            Op::Concat => self.s_concat(a, b, w),
            _ => unreachable!(),
        }
    }

    /// An exact sum modulo c: inner remainders by the same constant opened and
    /// coefficients reduced to -c/2..c/2. The flag tells whether any was opened.
    fn rem_canon(&mut self, a: Id, w: u8, c: i128) -> Option<(Vec<(Id, i128)>, i128, bool)> {
        if w < 16 || w > 64 || c < 2 {
            return None;
        }
        let (acc, k) = self.exact_deep(a, w, false)?;
        let mut work: Vec<(Id, i128)> = acc;
        let mut k = k.rem_euclid(c);
        let mut out: Vec<(Id, i128)> = vec![];
        let mut steps = 0;
        let mut opened = false;
        let cut = |x: i128| {
            let r = x.rem_euclid(c);
            if 2 * r > c { r - c } else { r }
        };
        while let Some((e, x)) = work.pop() {
            steps += 1;
            let x = cut(x);
            if x == 0 {
                continue;
            }
            let n = self.n(e);
            let i = if n.op == Op::ZExt { self.n(n.a) } else { n };
            if i.op == Op::URem && self.k(i.b) == Some(c as u128) && steps < 60 {
                if let Some((u, uk)) = self.exact_deep(i.a, i.w, false) {
                    if u.iter().all(|t| self.slo(t.0) >= 0) {
                        for &(t, y) in &u {
                            let t = if i.w < w { self.zext(t, w) } else { t };
                            work.push((t, cut(y) * x));
                        }
                        k = (k + uk.rem_euclid(c) * x).rem_euclid(c);
                        opened = true;
                        continue;
                    }
                }
            }
            match out.binary_search_by(|t| t.0.cmp(&e)) {
                Ok(p) => out[p].1 += x,
                Err(p) => out.insert(p, (e, x)),
            }
        }
        for t in out.iter_mut() {
            t.1 = cut(t.1);
        }
        out.retain(|t| t.1 != 0);
        Some((out, k, opened))
    }
    fn rem_sum(&mut self, a: Id, b: Id, w: u8) -> Option<Id> {
        let c = i128::try_from(self.k(b)?).ok()?;
        let (out, mut k, opened) = self.rem_canon(a, w, c)?;
        if out.is_empty() {
            return Some(self.konst(k as u128, w));
        }
        if !opened {
            return None;
        }
        let (l, _) = self.lin_bounds(&out, k)?;
        if l < 0 {
            k += (-l + c - 1) / c * c;
        }
        let (_, h) = self.lin_bounds(&out, k)?;
        if h as u128 > mask(w) {
            return None;
        }
        let m = mask(w);
        let mut enc: Vec<(Id, u128)> = out.iter().map(|&(e, x)| (e, x as u128 & m)).collect();
        enc.sort_unstable();
        let s = self.lin_build(&enc, k as u128 & m, w);
        if h < c {
            return Some(s);
        }
        let b = self.konst(c as u128, w);
        Some(self.raw(Op::URem, w, s, b))
    }
    /// two remainders by one constant of sums that differ by a multiple of it
    fn rem_eq(&mut self, a: Id, b: Id) -> Option<bool> {
        let (na, nb) = (self.n(a), self.n(b));
        let (ia, ib) = (if na.op == Op::ZExt { na.a } else { a }, if nb.op == Op::ZExt { nb.a } else { b });
        let (na, nb) = (self.n(ia), self.n(ib));
        if na.op != Op::URem || nb.op != Op::URem {
            return None;
        }
        let c = self.k(na.b)?;
        if self.k(nb.b) != Some(c) {
            return None;
        }
        let c = i128::try_from(c).ok()?;
        let (x, kx, _) = self.rem_canon(na.a, na.w, c)?;
        let (y, ky, _) = self.rem_canon(nb.a, nb.w, c)?;
        if x.len() != y.len() {
            return None;
        }
        // atoms without their extension, so that widths do not matter
        let strip = |ar: &Arena, v: Vec<(Id, i128)>| {
            let mut v: Vec<(Id, i128)> = v.iter().map(|&(e, x)| (if ar.n(e).op == Op::ZExt { ar.n(e).a } else { e }, x)).collect();
            v.sort_unstable();
            v
        };
        if x.iter().chain(&y).any(|t| self.slo(t.0) < 0) {
            return None;
        }
        if strip(self, x) == strip(self, y) {
            return Some(kx == ky);
        }
        None
    }
    /// Division of an exact sum: by a constant when the sum splits into a
    /// multiple of it and a small rest, or by a multiple of the same unknown.
    fn div_lin(&mut self, op: Op, a: Id, b: Id, w: u8) -> Option<Id> {
        let sum = |ar: &Arena, e: Id| matches!(ar.n(e).op, Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::ZExt | Op::SExt);
        if w < 8 || !(sum(self, a) || sum(self, b)) {
            return None;
        }
        let signed = matches!(op, Op::SDiv | Op::SRem);
        let quot = matches!(op, Op::SDiv | Op::UDiv);
        let m = mask(w);
        if let Some(k) = self.k(b) {
            let c = if signed { sext(k, w) } else { i128::try_from(k).ok()? };
            if c < 2 {
                return None;
            }
            let (acc, k) = self.exact_deep(a, w, signed)?;
            let (big, rest): (Vec<_>, Vec<_>) = acc.iter().copied().partition(|t| t.1 % c == 0);
            if big.is_empty() && !acc.is_empty() {
                return None;
            }
            let (l, h) = self.lin_bounds(&acc, k)?;
            let (kq, kr) = if !signed || l >= 0 {
                (k.div_euclid(c), k.rem_euclid(c))
            } else if h <= 0 {
                (k / c, k % c)
            } else if rest.is_empty() {
                // either sign: truncation goes towards zero
                let (kq, kr) = (k.div_euclid(c), k.rem_euclid(c));
                if kr == 0 && !quot {
                    return Some(self.konst(0, w));
                }
                let t: Vec<(Id, u128)> = big.iter().map(|&(e, x)| (e, (x / c) as u128 & m)).collect();
                let q = self.lin_build(&t, kq as u128 & m, w);
                if kr == 0 {
                    return Some(q);
                }
                let z = self.konst(0, w);
                let neg = self.bin(Op::Slt, q, z);
                let (x, y) = if quot {
                    (self.lin_build(&t, (kq + 1) as u128 & m, w), q)
                } else {
                    (self.konst((kr - c) as u128, w), self.konst(kr as u128, w))
                };
                return Some(self.ite(neg, x, y));
            } else {
                return None;
            };
            for (kq, kr) in [(kq, kr), (kq + 1, kr - c)] {
                let (rl, rh) = self.lin_bounds(&rest, kr)?;
                let ok = if !signed || l >= 0 { rl >= 0 && rh < c } else { rl > -c && rh <= 0 };
                if ok {
                    let enc = |v: &[(Id, i128)], d: i128| -> Vec<(Id, u128)> { v.iter().map(|&(e, x)| (e, (x / d) as u128 & m)).collect() };
                    return Some(if quot {
                        let t = enc(&big, c);
                        self.lin_build(&t, kq as u128 & m, w)
                    } else {
                        let t = enc(&rest, 1);
                        self.lin_build(&t, kr as u128 & m, w)
                    });
                }
            }
            return None;
        }
        // multiples of one sum that is not zero
        if if signed { self.slo(b) <= 0 && self.shi(b) >= 0 } else { self.lo(b) == 0 } {
            return None;
        }
        let (x, kx) = self.exact_deep(a, w, signed)?;
        let (y, ky) = self.exact_deep(b, w, signed)?;
        if x.len() != y.len() || x.is_empty() {
            return None;
        }
        let content = |v: &[(Id, i128)], k: i128| v.iter().fold(k.unsigned_abs(), |mut g, t| {
            let mut c = t.1.unsigned_abs();
            while c != 0 {
                (g, c) = (c, g % c);
            }
            g
        }) as i128;
        let (mut p, q) = (content(&x, kx), content(&y, ky));
        let unit: Vec<(Id, i128)> = y.iter().map(|&(e, c)| (e, c / q)).collect();
        let get = |e: Id| unit.iter().find(|t| t.0 == e).map(|t| t.1);
        if get(x[0].0)?.signum() != x[0].1.signum() {
            p = -p;
        }
        for &(e, c) in &x {
            if get(e)?.checked_mul(p)? != c {
                return None;
            }
        }
        if (ky / q).checked_mul(p)? != kx {
            return None;
        }
        // the sum has a fixed sign, so truncation follows the factors
        if quot {
            return Some(self.konst((p / q) as u128 & m, w));
        }
        let r = p % q;
        if r == 0 {
            return Some(self.konst(0, w));
        }
        let t: Vec<(Id, u128)> = unit.iter().map(|&(e, c)| (e, (c * r) as u128 & m)).collect();
        Some(self.lin_build(&t, (ky / q * r) as u128 & m, w))
    }
    /// Compute an unsigned operation whose operands (and result) fit a smaller
    /// power-of-two width in that width, then zero-extend.
    fn narrow(&mut self, op: Op, a: Id, b: Id, w: u8) -> Option<Id> {
        let (ah, bh) = (self.hi(a), self.hi(b));
        if matches!(op, Op::UDiv | Op::URem) && self.lo(b) == 0 {
            return None;
        }
        let hi = match op {
            Op::Add => ah.checked_add(bh)?,
            Op::Mul => ah.checked_mul(bh)?,
            _ => ah.max(bh),
        };
        let bits = (128 - hi.leading_zeros()).max(1) as u8;
        let t = bits.next_power_of_two().max(8);
        if t >= w {
            return None;
        }
        // only when the operands are visibly extended (otherwise we would
        // introduce extracts that hide structure)
        if !self.is_narrow(a, t) || !self.is_narrow(b, t) {
            return None;
        }
        let x = self.extract(a, 0, t);
        let y = self.extract(b, 0, t);
        let r = self.bin(op, x, y);
        Some(self.zext(r, w))
    }
    fn is_narrow(&self, e: Id, t: u8) -> bool {
        let n = self.n(e);
        match n.op {
            Op::Const => n.k <= mask(t),
            Op::ZExt => self.w(n.a) <= t,
            Op::Ite => self.kl(e) > 0 && self.hi(e) <= mask(t),
            _ => false,
        }
    }
    fn narrow_signed(&mut self, op: Op, a: Id, b: Id, w: u8) -> Option<Id> {
        // sext(x) op sext(y) with room for MIN / -1
        let src = |ar: &Arena, e: Id| -> Option<u8> {
            let n = ar.n(e);
            match n.op {
                Op::SExt => Some(ar.w(n.a)),
                Op::ZExt => Some(ar.w(n.a) + 1),
                Op::Const => {
                    let v = sext(n.k, n.w);
                    let bits = 129 - (if v < 0 { !v } else { v }).leading_zeros() as u8;
                    Some(bits)
                }
                _ => None,
            }
        };
        let (x, y) = (src(self, a)?, src(self, b)?);
        let t = (x.max(y) + 1).next_power_of_two().max(8);
        if t >= w {
            return None;
        }
        let p = self.extract(a, 0, t);
        let q = self.extract(b, 0, t);
        let r = self.bin(op, p, q);
        Some(self.sext(r, w))
    }

    /// Flatten e * coef into a linear combination over atoms (mod 2^w).
    fn lin(&mut self, e: Id, coef: u128, w: u8, acc: &mut Vec<(Id, u128)>, k: &mut u128) -> bool {
        let n = self.n(e);
        let m = mask(w);
        match n.op {
            Op::Const => {
                *k = k.wrapping_add(coef.wrapping_mul(n.k)) & m;
                true
            }
            Op::Add => self.lin(n.a, coef, w, acc, k) && self.lin(n.b, coef, w, acc, k),
            Op::Sub => self.lin(n.a, coef, w, acc, k) && self.lin(n.b, coef.wrapping_neg() & m, w, acc, k),
            Op::Mul if self.k(n.b).is_some() => {
                let c = self.k(n.b).unwrap();
                self.lin(n.a, coef.wrapping_mul(c) & m, w, acc, k)
            }
            Op::Concat if self.k(n.b) == Some(0) => {
                let s = self.w(n.b);
                let c = (coef << s) & m;
                let x = self.n(n.a);
                if x.op == Op::Extract && x.k == 0 && self.w(x.a) == w {
                    self.lin(x.a, c, w, acc, k)
                } else {
                    let z = self.zext(n.a, w);
                    self.lin(z, c, w, acc, k)
                }
            }
            Op::ZExt => {
                if let Some((x, s)) = self.low_zeros(n.a) {
                    let c = (coef << s) & m;
                    let z = self.zext(x, w);
                    return self.lin(z, c, w, acc, k);
                }
                let x = self.n(n.a);
                if x.op == Op::Mul {
                    if let Some(c) = self.k(x.b) {
                        if self.hi(x.a).checked_mul(c).map_or(false, |h| h <= mask(x.w)) {
                            let z = self.zext(x.a, w);
                            return self.lin(z, coef.wrapping_mul(c) & m, w, acc, k);
                        }
                    }
                }
                self.lin_atom(e, coef, w, acc)
            }
            _ => self.lin_atom(e, coef, w, acc),
        }
    }
    /// a concatenation that ends in zeros, without them
    fn low_zeros(&mut self, e: Id) -> Option<(Id, u8)> {
        let n = self.n(e);
        if n.op != Op::Concat {
            return None;
        }
        if self.k(n.b) == Some(0) {
            return Some((n.a, self.w(n.b)));
        }
        let (b, s) = self.low_zeros(n.b)?;
        Some((self.bin(Op::Concat, n.a, b), s))
    }
    fn lin_atom(&mut self, e: Id, coef: u128, w: u8, acc: &mut Vec<(Id, u128)>) -> bool {
        let m = mask(w);
        match acc.binary_search_by(|x| x.0.cmp(&e)) {
            Ok(p) => {
                acc[p].1 = acc[p].1.wrapping_add(coef) & m;
                if acc[p].1 == 0 {
                    acc.remove(p);
                }
                true
            }
            Err(p) => {
                if coef & m != 0 {
                    acc.insert(p, (e, coef & m));
                }
                acc.len() <= 96
            }
        }
    }
    /// atom times a constant, as one node
    fn mulc(&mut self, e: Id, c: u128, w: u8) -> Id {
        if c == 1 {
            return e;
        }
        if c.is_power_of_two() {
            let s = self.konst(c.trailing_zeros() as u128, w);
            return self.bin(Op::Shl, e, s);
        }
        let k = self.konst(c, w);
        self.raw(Op::Mul, w, e, k)
    }
    fn lin_build(&mut self, acc: &[(Id, u128)], k: u128, w: u8) -> Id {
        let half = 1u128 << (w - 1);
        let mut r: Option<Id> = None;
        let mut k = k;
        for &(e, c) in acc {
            if c <= half {
                let t = self.mulc(e, c, w);
                r = Some(match r {
                    None => t,
                    Some(x) => self.raw(Op::Add, w, x, t),
                });
            }
        }
        for &(e, c) in acc {
            if c > half {
                let t = self.mulc(e, c.wrapping_neg() & mask(w), w);
                let x = match r {
                    None => {
                        let x = self.konst(k, w);
                        k = 0;
                        x
                    }
                    Some(x) => x,
                };
                r = Some(self.raw(Op::Sub, w, x, t));
            }
        }
        let kk = self.konst(k, w);
        match r {
            None => kk,
            Some(x) => {
                if k == 0 {
                    x
                } else {
                    self.raw(Op::Add, w, x, kk)
                }
            }
        }
    }
    fn s_add(&mut self, a: Id, b: Id, w: u8) -> Id {
        let (a, b) = if self.k(a).is_some() { (b, a) } else { (a, b) };
        if w == 1 {
            return self.bin(Op::Xor, a, b);
        }
        if self.k(b) == Some(0) {
            return a;
        }
        let mut acc = vec![];
        let mut k = 0;
        if self.lin(a, 1, w, &mut acc, &mut k) && self.lin(b, 1, w, &mut acc, &mut k) {
            return self.lin_build(&acc, k, w);
        }
        let (a, b) = self.order(a, b);
        self.raw(Op::Add, w, a, b)
    }
    fn order(&self, a: Id, b: Id) -> (Id, Id) {
        if self.k(a).is_some() {
            (b, a)
        } else if self.k(b).is_some() || a <= b {
            (a, b)
        } else {
            (b, a)
        }
    }
    fn s_sub(&mut self, a: Id, b: Id, w: u8) -> Id {
        if a == b {
            return self.konst(0, w);
        }
        if w == 1 {
            return self.bin(Op::Xor, a, b);
        }
        let mut acc = vec![];
        let mut k = 0;
        if self.lin(a, 1, w, &mut acc, &mut k) && self.lin(b, mask(w), w, &mut acc, &mut k) {
            return self.lin_build(&acc, k, w);
        }
        self.raw(Op::Sub, w, a, b)
    }
    fn s_mul(&mut self, a: Id, b: Id, w: u8) -> Id {
        let (a, b) = self.order(a, b);
        if let Some(y) = self.k(b) {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            let n = self.n(a);
            if y.is_power_of_two() && !matches!(n.op, Op::Add | Op::Sub) {
                let s = self.konst(y.trailing_zeros() as u128, w);
                return self.bin(Op::Shl, a, s);
            }
            if matches!(n.op, Op::Mul | Op::Add | Op::Sub | Op::Concat | Op::ZExt) && w > 1 {
                let mut acc = vec![];
                let mut k = 0;
                if self.lin(a, y, w, &mut acc, &mut k) && (acc.len() <= 1 || (acc.len() <= 32 && (y <= 4096 || (y.wrapping_neg() & mask(w)) <= 4096))) {
                    return self.lin_build(&acc, k, w);
                }
            }
        }
        if w == 1 {
            return self.bin(Op::And, a, b);
        }
        if let Some(r) = self.narrow(Op::Mul, a, b, w) {
            return r;
        }
        self.raw(Op::Mul, w, a, b)
    }
    fn is_not_of(&self, a: Id, b: Id) -> bool {
        // width-1 complement test
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Xor && na.b == T && na.a == b {
            return true;
        }
        if nb.op == Op::Xor && nb.b == T && nb.a == a {
            return true;
        }
        match (na.op, nb.op) {
            (Op::Ult, Op::Ule) | (Op::Ule, Op::Ult) | (Op::Slt, Op::Sle) | (Op::Sle, Op::Slt) => na.a == nb.b && na.b == nb.a,
            _ => false,
        }
    }
    fn s_and(&mut self, a: Id, b: Id, w: u8) -> Id {
        if a == b {
            return a;
        }
        let (a, b) = self.order(a, b);
        if let Some(y) = self.k(b) {
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            // mask covering the whole range
            if (y + 1).is_power_of_two() {
                if self.hi(a) <= y {
                    return a;
                }
                let bits = y.count_ones() as u8;
                let x = self.extract(a, 0, bits);
                return self.zext(x, w);
            }
            let n = self.n(a);
            if n.op == Op::And {
                if let Some(x) = self.k(n.b) {
                    let k = self.konst(x & y, w);
                    return self.bin(Op::And, n.a, k);
                }
            }
            if n.op == Op::ZExt {
                let wx = self.w(n.a);
                let k = self.konst(y, wx);
                let r = self.bin(Op::And, n.a, k);
                return self.zext(r, w);
            }
            if n.op == Op::Concat {
                let wl = self.w(n.b);
                let wh = self.w(n.a);
                let kh = self.konst(y >> wl, wh);
                let kl = self.konst(y, wl);
                let h = self.bin(Op::And, n.a, kh);
                let l = self.bin(Op::And, n.b, kl);
                return self.bin(Op::Concat, h, l);
            }
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return F;
            }
            // absorption: a & (a & x), a & (a | x)
            for (x, y) in [(a, b), (b, a)] {
                let n = self.n(y);
                if n.op == Op::And && (n.a == x || n.b == x) {
                    return y;
                }
                if n.op == Op::Or && (n.a == x || n.b == x) {
                    return x;
                }
            }
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.bin(Op::And, na.a, nb.a);
            return self.zext(r, w);
        }
        self.raw(Op::And, w, a, b)
    }
    fn s_or(&mut self, a: Id, b: Id, w: u8) -> Id {
        if a == b {
            return a;
        }
        let (a, b) = self.order(a, b);
        if let Some(y) = self.k(b) {
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
        }
        if w == 1 {
            if self.is_not_of(a, b) {
                return T;
            }
            for (x, y) in [(a, b), (b, a)] {
                let n = self.n(y);
                if n.op == Op::Or && (n.a == x || n.b == x) {
                    return y;
                }
                if n.op == Op::And && (n.a == x || n.b == x) {
                    return x;
                }
            }
        } else {
            // disjoint halves: (x << k) | zext(y) with y < 2^k  ->  concat
            if let Some(r) = self.or_concat(a, b, w) {
                return r;
            }
            if let Some(r) = self.or_concat(b, a, w) {
                return r;
            }
            let (na, nb) = (self.n(a), self.n(b));
            if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                let r = self.bin(Op::Or, na.a, nb.a);
                return self.zext(r, w);
            }
        }
        self.raw(Op::Or, w, a, b)
    }
    fn or_concat(&mut self, a: Id, b: Id, w: u8) -> Option<Id> {
        let na = self.n(a);
        if na.op == Op::ZExt && self.n(na.a).op == Op::Concat {
            let i = self.n(na.a);
            if self.k(i.b) != Some(0) || self.hi(b) > mask(self.w(i.b)) {
                return None;
            }
            let b = self.extract(b, 0, i.w);
            let r = self.or_concat(na.a, b, i.w)?;
            return Some(self.zext(r, w));
        }
        if na.op != Op::Concat || self.k(na.b) != Some(0) {
            return None;
        }
        let s = self.w(na.b);
        if self.hi(b) > mask(s) {
            return None;
        }
        let _ = w;
        let l = self.extract(b, 0, s);
        Some(self.bin(Op::Concat, na.a, l))
    }
    fn s_xor(&mut self, a: Id, b: Id, w: u8) -> Id {
        if a == b {
            return self.konst(0, w);
        }
        let (a, b) = self.order(a, b);
        if let Some(y) = self.k(b) {
            if y == 0 {
                return a;
            }
            if w == 1 {
                return self.not(a);
            }
            let n = self.n(a);
            if n.op == Op::Xor {
                if let Some(x) = self.k(n.b) {
                    let k = self.konst(x ^ y, w);
                    return self.bin(Op::Xor, n.a, k);
                }
            }
        }
        if w == 1 && self.is_not_of(a, b) {
            return T;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if w == 1 {
            // pull out negations
            if na.op == Op::Xor && na.b == T {
                let r = self.bin(Op::Xor, na.a, b);
                return self.not(r);
            }
            if nb.op == Op::Xor && nb.b == T {
                let r = self.bin(Op::Xor, a, nb.a);
                return self.not(r);
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.bin(Op::Xor, na.a, nb.a);
            return self.zext(r, w);
        }
        self.raw(Op::Xor, w, a, b)
    }
    fn s_shift(&mut self, op: Op, a: Id, b: Id, w: u8) -> Id {
        if self.k(a) == Some(0) {
            return a;
        }
        if let Some(s) = self.k(b) {
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                if op == Op::AShr {
                    let k = self.konst(w as u128 - 1, w);
                    return self.bin(Op::AShr, a, k);
                }
                return self.konst(0, w);
            }
            let s = s as u8;
            match op {
                Op::LShr => {
                    let x = self.extract(a, s, w - s);
                    return self.zext(x, w);
                }
                Op::Shl => {
                    let x = self.extract(a, 0, w - s);
                    let z = self.konst(0, s);
                    return self.bin(Op::Concat, x, z);
                }
                Op::AShr => {
                    let x = self.extract(a, s, w - s);
                    return self.sext(x, w);
                }
                _ => {}
            }
        }
        // shift amount is an ite tree of few constants: split
        if self.kl(b) > 1 && self.kl(b) <= 16 {
            let mut memo = Default::default();
            return self.map_leaves(
                b,
                &mut |ar, s| {
                    let k = ar.konst(s, w);
                    ar.bin(op, a, k)
                },
                &mut memo,
            );
        }
        self.raw(op, w, a, b)
    }
    fn s_eq(&mut self, a: Id, b: Id, w: u8) -> Id {
        if a == b {
            return T;
        }
        let (a, b) = self.order(a, b);
        if self.hi(a) < self.lo(b) || self.hi(b) < self.lo(a) {
            return F;
        }
        if w == 1 {
            if b == T {
                return a;
            }
            if b == F {
                return self.not(a);
            }
            let x = self.bin(Op::Xor, a, b);
            return self.not(x);
        }
        if self.slo(a) > self.shi(b) || self.slo(b) > self.shi(a) {
            return F;
        }
        if let Some(r) = self.rem_eq(a, b) {
            return if r { T } else { F };
        }
        let (na, nb) = (self.n(a), self.n(b));
        let arith = |o: Op| matches!(o, Op::Add | Op::Sub);
        if (arith(na.op) || arith(nb.op)) && self.k(b).is_none() {
            let mut acc = vec![];
            let mut k = 0;
            if self.lin(a, 1, w, &mut acc, &mut k) && self.lin(b, mask(w), w, &mut acc, &mut k) {
                let half = 1u128 << (w - 1);
                if acc.is_empty() {
                    return if k == 0 { T } else { F };
                }
                if acc.iter().all(|x| x.1 > half) {
                    for x in acc.iter_mut() {
                        x.1 = x.1.wrapping_neg() & mask(w);
                    }
                    k = k.wrapping_neg() & mask(w);
                }
                let pos: Vec<_> = acc.iter().copied().filter(|x| x.1 <= half).collect();
                let neg: Vec<_> = acc.iter().filter(|x| x.1 > half).map(|x| (x.0, x.1.wrapping_neg() & mask(w))).collect();
                let nk = k.wrapping_neg() & mask(w);
                let (x, y) = if neg.is_empty() {
                    (self.lin_build(&pos, 0, w), self.konst(nk, w))
                } else if k < half {
                    (self.lin_build(&pos, k, w), self.lin_build(&neg, 0, w))
                } else {
                    (self.lin_build(&pos, 0, w), self.lin_build(&neg, nk, w))
                };
                if !(x == a && y == b || x == b && y == a) && x != y {
                    // strictly canonical: comparing again cannot cancel more
                    let fa = arith(self.n(x).op) || arith(self.n(y).op);
                    if !fa || self.k(y).is_some() {
                        return self.bin(Op::Eq, x, y);
                    }
                    let (x, y) = self.order(x, y);
                    if self.hi(x) < self.lo(y) || self.hi(y) < self.lo(x) || self.slo(x) > self.shi(y) || self.slo(y) > self.shi(x) {
                        return F;
                    }
                    return self.raw(Op::Eq, 1, x, y);
                }
            }
        }
        if let Some(y) = self.k(b) {
            match na.op {
                Op::Add => {
                    if let Some(x) = self.k(na.b) {
                        let k = self.konst(y.wrapping_sub(x), w);
                        return self.bin(Op::Eq, na.a, k);
                    }
                }
                Op::Sub => {
                    if y == 0 {
                        return self.bin(Op::Eq, na.a, na.b);
                    }
                    if let Some(x) = self.k(na.a) {
                        let k = self.konst(x.wrapping_sub(y), w);
                        return self.bin(Op::Eq, na.b, k);
                    }
                }
                Op::Xor => {
                    if let Some(x) = self.k(na.b) {
                        let k = self.konst(x ^ y, w);
                        return self.bin(Op::Eq, na.a, k);
                    }
                    if y == 0 {
                        return self.bin(Op::Eq, na.a, na.b);
                    }
                }
                Op::ZExt => {
                    let wx = self.w(na.a);
                    if y > mask(wx) {
                        return F;
                    }
                    let k = self.konst(y, wx);
                    return self.bin(Op::Eq, na.a, k);
                }
                Op::SExt => {
                    let wx = self.w(na.a);
                    let t = y & mask(wx);
                    if (sext(t, wx) as u128) & mask(w) != y {
                        return F;
                    }
                    let k = self.konst(t, wx);
                    return self.bin(Op::Eq, na.a, k);
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.konst(y >> wl, self.w(na.a));
                    let kl = self.konst(y, wl);
                    let h = self.bin(Op::Eq, na.a, kh);
                    let l = self.bin(Op::Eq, na.b, kl);
                    return self.bin(Op::And, h, l);
                }
                Op::Ite => {
                    // one constant branch that differs from y
                    if let Some(x) = self.k(na.b) {
                        let r = self.bin(Op::Eq, na.c, b);
                        return if x == y {
                            self.bin(Op::Or, na.a, r)
                        } else {
                            let nc = self.not(na.a);
                            self.bin(Op::And, nc, r)
                        };
                    }
                    if let Some(x) = self.k(na.c) {
                        let r = self.bin(Op::Eq, na.b, b);
                        return if x == y {
                            let nc = self.not(na.a);
                            self.bin(Op::Or, nc, r)
                        } else {
                            self.bin(Op::And, na.a, r)
                        };
                    }
                }
                _ => {}
            }
        } else {
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (x, y) = self.unify_zext(na.a, nb.a);
                return self.bin(Op::Eq, x, y);
            }
            if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
                return self.bin(Op::Eq, na.a, nb.a);
            }
            if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                let h = self.bin(Op::Eq, na.a, nb.a);
                let l = self.bin(Op::Eq, na.b, nb.b);
                return self.bin(Op::And, h, l);
            }
            if na.op == Op::Add && nb.op == Op::Add {
                // cancel a common summand
                if na.b == nb.b {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
                if na.a == nb.a {
                    return self.bin(Op::Eq, na.b, nb.b);
                }
                if na.a == nb.b {
                    return self.bin(Op::Eq, na.b, nb.a);
                }
                if na.b == nb.a {
                    return self.bin(Op::Eq, na.a, nb.b);
                }
            }
            // x == ite(c, x, y)  ->  c | x == y
            for (x, n) in [(a, nb), (b, na)] {
                if n.op == Op::Ite {
                    if n.b == x {
                        let r = self.bin(Op::Eq, x, n.c);
                        return self.bin(Op::Or, n.a, r);
                    }
                    if n.c == x {
                        let r = self.bin(Op::Eq, x, n.b);
                        let nc = self.not(n.a);
                        return self.bin(Op::Or, nc, r);
                    }
                }
            }
            if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a {
                let x = self.bin(Op::Eq, na.b, nb.b);
                let y = self.bin(Op::Eq, na.c, nb.c);
                return self.ite(na.a, x, y);
            }
        }
        self.raw(Op::Eq, 1, a, b)
    }
    fn unify_zext(&mut self, x: Id, y: Id) -> (Id, Id) {
        let (wx, wy) = (self.w(x), self.w(y));
        if wx < wy {
            (self.zext(x, wy), y)
        } else if wy < wx {
            (x, self.zext(y, wx))
        } else {
            (x, y)
        }
    }
    /// the linear form of `e` mod 2^w
    pub fn lin_of(&mut self, e: Id) -> Option<(Vec<(Id, u128)>, u128)> {
        let mut acc = vec![];
        let mut k = 0;
        let w = self.w(e);
        if self.lin(e, 1, w, &mut acc, &mut k) {
            Some((acc, k))
        } else {
            None
        }
    }
    /// Bounds of an integer linear combination; every atom is read as signed
    /// when that range is the narrower one.
    fn lin_bounds(&self, acc: &[(Id, i128)], k: i128) -> Option<(i128, i128)> {
        let (mut l, mut h) = (k, k);
        for &(e, c) in acc {
            let (al, ah) = self.atom_range(e)?;
            let (x, y) = (c.checked_mul(al)?, c.checked_mul(ah)?);
            l = l.checked_add(x.min(y))?;
            h = h.checked_add(x.max(y))?;
        }
        Some((l, h))
    }
    fn atom_range(&self, e: Id) -> Option<(i128, i128)> {
        let (l, h) = (self.lo(e), self.hi(e));
        let (sl, sh) = (self.slo(e), self.shi(e));
        if h > i128::MAX as u128 {
            return Some((sl, sh));
        }
        if sl >= 0 || (sh as u128).wrapping_sub(sl as u128) >= h - l {
            Some((l as i128, h as i128))
        } else {
            Some((sl, sh))
        }
    }
    /// `e` as an integer combination, exact (no wrap) as an unsigned or signed number
    fn exact_lin(&mut self, e: Id, w: u8, signed: bool) -> Option<(Vec<(Id, i128)>, i128)> {
        let mut acc = vec![];
        let mut k = 0;
        if !self.lin(e, 1, w, &mut acc, &mut k) {
            return None;
        }
        let acc: Vec<(Id, i128)> = acc.iter().map(|&(e, c)| (e, sext(c, w))).collect();
        let (mn, mx) = if signed {
            let h = 1i128 << (w - 1).min(125);
            (-h, h - 1)
        } else {
            (0, (1i128 << w.min(125)) - 1)
        };
        let k = sext(k, w);
        for k in [k, if w < 126 { k.checked_add(1i128 << w)? } else { k }] {
            let (l, h) = self.lin_bounds(&acc, k)?;
            if l >= mn && h <= mx {
                return Some((acc, k));
            }
        }
        None
    }
    /// the same, with exact sums under zero extensions opened
    fn exact_deep(&mut self, e: Id, w: u8, signed: bool) -> Option<(Vec<(Id, i128)>, i128)> {
        let (mut acc, mut k) = self.exact_lin(e, w, signed)?;
        let mut i = 0;
        while i < acc.len() && acc.len() < 96 {
            let (z, c) = acc[i];
            let n = self.n(z);
            i += 1;
            if n.op != Op::ZExt || !matches!(self.n(n.a).op, Op::Add | Op::Sub | Op::Mul | Op::Shl | Op::Concat) {
                continue;
            }
            let Some((inner, ik)) = self.exact_lin(n.a, self.w(n.a), false) else { continue };
            if (inner.len() == 1 && inner[0].0 == n.a) || inner.iter().any(|t| self.slo(t.0) < 0 || t.1.checked_mul(c).is_none()) {
                continue;
            }
            let Some(nk) = ik.checked_mul(c).and_then(|x| x.checked_add(k)) else { continue };
            k = nk;
            i -= 1;
            acc.remove(i);
            for (t, d) in inner {
                let t = self.zext(t, w);
                match acc.binary_search_by(|x| x.0.cmp(&t)) {
                    Ok(p) => acc[p].1 = acc[p].1.checked_add(d * c)?,
                    Err(p) => {
                        acc.insert(p, (t, d * c));
                        if p < i {
                            i = p;
                        }
                    }
                }
            }
        }
        acc.retain(|t| t.1 != 0);
        Some((acc, k))
    }
    /// compare two sums by their difference
    fn cmp_lin(&mut self, op: Op, a: Id, b: Id, w: u8, signed: bool) -> Option<Id> {
        let sum = |ar: &Arena, e: Id| matches!(ar.n(e).op, Op::Add | Op::Sub | Op::Mul | Op::Shl);
        if w > 100 || !(sum(self, a) || sum(self, b)) {
            return None;
        }
        let (la, ka) = self.exact_lin(a, w, signed)?;
        let (lb, kb) = self.exact_lin(b, w, signed)?;
        let terms = la.len() + lb.len();
        // d = b - a
        let mut d = lb;
        for (e, c) in la {
            match d.binary_search_by(|x| x.0.cmp(&e)) {
                Ok(p) => {
                    d[p].1 -= c;
                    if d[p].1 == 0 {
                        d.remove(p);
                    }
                }
                Err(p) => d.insert(p, (e, -c)),
            }
        }
        let k = kb - ka;
        let (l, h) = self.lin_bounds(&d, k)?;
        let strict = matches!(op, Op::Ult | Op::Slt);
        if strict {
            if l > 0 {
                return Some(T);
            }
            if h <= 0 {
                return Some(F);
            }
        } else {
            if l >= 0 {
                return Some(T);
            }
            if h < 0 {
                return Some(F);
            }
        }
        if d.len() >= terms {
            return None;
        }
        // move the negative part to the left side when both sides fit
        let (mut ln, mut rn) = (vec![], vec![]);
        for &(e, c) in &d {
            if c < 0 {
                ln.push((e, -c));
            } else {
                rn.push((e, c));
            }
        }
        let (lk, rk) = if k < 0 { (-k, 0) } else { (0, k) };
        let (x0, x1) = self.lin_bounds(&ln, lk)?;
        let (y0, y1) = self.lin_bounds(&rn, rk)?;
        let um = (1i128 << w) - 1;
        let sm = (1i128 << (w - 1)) - 1;
        let nop = if x0 >= 0 && y0 >= 0 && x1 <= um && y1 <= um {
            if strict {
                Op::Ult
            } else {
                Op::Ule
            }
        } else if x0 >= -sm && y0 >= -sm && x1 <= sm && y1 <= sm {
            if strict {
                Op::Slt
            } else {
                Op::Sle
            }
        } else {
            return None;
        };
        let m = mask(w);
        let lu: Vec<(Id, u128)> = ln.iter().map(|&(e, c)| (e, c as u128 & m)).collect();
        let ru: Vec<(Id, u128)> = rn.iter().map(|&(e, c)| (e, c as u128 & m)).collect();
        let x = self.lin_build(&lu, lk as u128 & m, w);
        let y = self.lin_build(&ru, rk as u128 & m, w);
        if (x, y) == (a, b) {
            return None;
        }
        Some(self.bin(nop, x, y))
    }
    fn s_ucmp(&mut self, op: Op, a: Id, b: Id, w: u8) -> Id {
        if a == b {
            return if op == Op::Ule { T } else { F };
        }
        let ((al, ah), (bl, bh)) = ((self.lo(a), self.hi(a)), (self.lo(b), self.hi(b)));
        if op == Op::Ult {
            if ah < bl {
                return T;
            }
            if al >= bh {
                return F;
            }
        } else {
            if ah <= bl {
                return T;
            }
            if al > bh {
                return F;
            }
        }
        if w == 1 {
            // a<b = !a & b ; a<=b = !a | b
            let na = self.not(a);
            return if op == Op::Ult { self.bin(Op::And, na, b) } else { self.bin(Op::Or, na, b) };
        }
        // constants: normalise to Ult / Ule with tight forms
        if let Some(y) = self.k(b) {
            if op == Op::Ule {
                // a <= y  (y < max since range check)  ->  a < y+1
                let k = self.konst(y + 1, w);
                return self.bin(Op::Ult, a, k);
            }
            if y == 1 || y == al + 1 {
                let k = self.konst(al, w);
                return self.bin(Op::Eq, a, k);
            }
            if y == ah {
                let e = self.bin(Op::Eq, a, b);
                return self.not(e);
            }
        }
        if let Some(x) = self.k(a) {
            if op == Op::Ule {
                // x <= b (x > 0)  ->  x-1 < b
                let k = self.konst(x - 1, w);
                return self.bin(Op::Ult, k, b);
            }
            if x == bl {
                let e = self.bin(Op::Eq, a, b);
                return self.not(e);
            }
            if x + 1 == bh {
                let k = self.konst(bh, w);
                return self.bin(Op::Eq, b, k);
            }
        }
        if let Some(r) = self.cmp_lin(op, a, b, w, false) {
            return r;
        }
        let (na, nb) = (self.n(a), self.n(b));
        // both zero-extended
        let za = na.op == Op::ZExt;
        let zb = nb.op == Op::ZExt;
        if za && zb {
            let (x, y) = self.unify_zext(na.a, nb.a);
            return self.bin(op, x, y);
        }
        if za && nb.op == Op::Const {
            let wx = self.w(na.a);
            let k = self.konst(nb.k, wx); // in range: otherwise decided above
            return self.bin(op, na.a, k);
        }
        if zb && na.op == Op::Const {
            let wx = self.w(nb.a);
            let k = self.konst(na.k, wx);
            return self.bin(op, k, nb.a);
        }
        if na.op == Op::Concat && nb.op == Op::Const && nb.k & mask(self.w(na.b)) == 0 && op == Op::Ult {
            // hi:lo < K:0  ->  hi < K
            let wl = self.w(na.b);
            let k = self.konst(nb.k >> wl, self.w(na.a));
            return self.bin(Op::Ult, na.a, k);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) && na.b == nb.b {
            return self.bin(op, na.a, nb.a);
        }
        self.raw(op, 1, a, b)
    }
    fn s_scmp(&mut self, op: Op, a: Id, b: Id, w: u8) -> Id {
        if a == b {
            return if op == Op::Sle { T } else { F };
        }
        if op == Op::Slt {
            if self.shi(a) < self.slo(b) {
                return T;
            }
            if self.slo(a) >= self.shi(b) {
                return F;
            }
        } else {
            if self.shi(a) <= self.slo(b) {
                return T;
            }
            if self.slo(a) > self.shi(b) {
                return F;
            }
        }
        let h = 1u128 << (w - 1);
        let sign = |ar: &Arena, e: Id| -> Option<bool> {
            if ar.hi(e) < h {
                Some(false)
            } else if ar.lo(e) >= h {
                Some(true)
            } else {
                None
            }
        };
        match (sign(self, a), sign(self, b)) {
            (Some(x), Some(y)) => {
                if x != y {
                    return if x { T } else { F };
                }
                let o = if op == Op::Slt { Op::Ult } else { Op::Ule };
                return self.bin(o, a, b);
            }
            _ => {}
        }
        if let Some(r) = self.cmp_lin(op, a, b, w, true) {
            return r;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::SExt && nb.op == Op::SExt && self.w(na.a) == self.w(nb.a) {
            return self.bin(op, na.a, nb.a);
        }
        if na.op == Op::SExt && nb.op == Op::Const {
            let wx = self.w(na.a);
            let t = nb.k & mask(wx);
            if (sext(t, wx) as u128) & mask(w) == nb.k {
                let k = self.konst(t, wx);
                return self.bin(op, na.a, k);
            } else {
                // constant outside the source range
                return if sext(nb.k, w) > 0 { T } else { F };
            }
        }
        if nb.op == Op::SExt && na.op == Op::Const {
            let wx = self.w(nb.a);
            let t = na.k & mask(wx);
            if (sext(t, wx) as u128) & mask(w) == na.k {
                let k = self.konst(t, wx);
                return self.bin(op, k, nb.a);
            } else {
                return if sext(na.k, w) > 0 { F } else { T };
            }
        }
        self.raw(op, 1, a, b)
    }
    fn s_concat(&mut self, a: Id, b: Id, w: u8) -> Id {
        if self.k(a) == Some(0) {
            return self.zext(b, w);
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract(na.a, nb.k as u8, w);
        }
        // concat(x[w-1:k], concat(x[k-1:0], y))
        if nb.op == Op::Concat {
            let nba = self.n(nb.a);
            if na.op == Op::Extract && nba.op == Op::Extract && na.a == nba.a && na.k == nba.k + nba.w as u128 {
                let x = self.extract(na.a, nba.k as u8, na.w + nba.w);
                return self.bin(Op::Concat, x, nb.b);
            }
        }
        if na.op == Op::Concat {
            // right-associate
            let r = self.bin(Op::Concat, na.b, b);
            return self.bin(Op::Concat, na.a, r);
        }
        if na.op == Op::ZExt && w <= 128 {
            let wx = self.w(na.a);
            let r = self.bin(Op::Concat, na.a, b);
            let _ = wx;
            return self.zext(r, w);
        }
        if nb.op == Op::Concat {
            if let (Some(x), Some(y)) = (self.k(a), self.k(nb.a)) {
                let k = self.konst((x << self.w(nb.a)) | y, self.w(a) + self.w(nb.a));
                return self.raw(Op::Concat, w, k, nb.b);
            }
        }
        self.raw(Op::Concat, w, a, b)
    }

    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let wa = self.w(a);
        debug_assert!(wa <= w);
        if wa == w {
            return a;
        }
        let n = self.n(a);
        if n.op == Op::Const {
            return self.konst(n.k, w);
        }
        if self.simplify {
            if n.op == Op::ZExt {
                return self.zext(n.a, w);
            }
            if n.op == Op::Add && self.hi(n.a).checked_add(self.hi(n.b)).map_or(false, |h| h <= mask(wa)) {
                let (x, y) = (self.zext(n.a, w), self.zext(n.b, w));
                return self.bin(Op::Add, x, y);
            }
            if n.op == Op::Sub && self.lo(n.a) >= self.hi(n.b) {
                let (x, y) = (self.zext(n.a, w), self.zext(n.b, w));
                return self.bin(Op::Sub, x, y);
            }
            if self.kl(a) > 1 {
                let mut memo = Default::default();
                return self.map_leaves(a, &mut |ar, v| ar.konst(v, w), &mut memo);
            }
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        let n = self.n(a);
        if n.op == Op::Const {
            return self.konst(sext(n.k, wa) as u128, w);
        }
        if self.simplify {
            if wa > 0 && self.hi(a) < 1u128 << (wa - 1) {
                return self.zext(a, w);
            }
            if n.op == Op::SExt {
                return self.sext(n.a, w);
            }
            if matches!(n.op, Op::Add | Op::Sub) && wa < 126 {
                let (l, h) = if n.op == Op::Add {
                    (self.slo(n.a) + self.slo(n.b), self.shi(n.a) + self.shi(n.b))
                } else {
                    (self.slo(n.a) - self.shi(n.b), self.shi(n.a) - self.slo(n.b))
                };
                let half = 1i128 << (wa - 1);
                if l >= -half && h < half {
                    let (x, y) = (self.sext(n.a, w), self.sext(n.b, w));
                    return self.bin(n.op, x, y);
                }
            }
            if wa == 1 {
                let (t, f) = (self.konst(mask(w), w), self.konst(0, w));
                return self.ite(a, t, f);
            }
            if self.kl(a) > 1 {
                let mut memo = Default::default();
                return self.map_leaves(a, &mut |ar, v| ar.konst(sext(v, wa) as u128, w), &mut memo);
            }
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let wa = self.w(a);
        debug_assert!(lo as u32 + w as u32 <= wa as u32);
        if w == wa {
            return a;
        }
        let n = self.n(a);
        if n.op == Op::Const {
            return self.konst(n.k >> lo, w);
        }
        if self.simplify {
            match n.op {
                Op::Extract => return self.extract(n.a, n.k as u8 + lo, w),
                Op::ZExt => {
                    let wx = self.w(n.a);
                    if lo >= wx {
                        return self.konst(0, w);
                    }
                    if lo + w <= wx {
                        return self.extract(n.a, lo, w);
                    }
                    let x = self.extract(n.a, lo, wx - lo);
                    return self.zext(x, w);
                }
                Op::SExt => {
                    let wx = self.w(n.a);
                    if lo + w <= wx {
                        return self.extract(n.a, lo, w);
                    }
                    if lo < wx {
                        let x = self.extract(n.a, lo, wx - lo);
                        return self.sext(x, w);
                    }
                }
                Op::Concat => {
                    let wl = self.w(n.b);
                    if lo + w <= wl {
                        return self.extract(n.b, lo, w);
                    }
                    if lo >= wl {
                        return self.extract(n.a, lo - wl, w);
                    }
                    let l = self.extract(n.b, lo, wl - lo);
                    let h = self.extract(n.a, 0, w - (wl - lo));
                    return self.bin(Op::Concat, h, l);
                }
                Op::And | Op::Or | Op::Xor => {
                    if self.k(n.b).is_some() || w == 1 || lo == 0 {
                        let x = self.extract(n.a, lo, w);
                        let y = self.extract(n.b, lo, w);
                        return self.bin(n.op, x, y);
                    }
                }
                Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return self.bin(n.op, x, y);
                }
                Op::Ite => {
                    if self.kl(a) > 1 {
                        let mut memo = Default::default();
                        return self.map_leaves(a, &mut |ar, v| ar.konst(v >> lo, w), &mut memo);
                    }
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
                _ => {}
            }
            if lo < 127 && (self.hi(a) >> lo) == 0 {
                return self.konst(0, w);
            }
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        if !self.simplify {
            return self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 });
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && nc.b == T {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            if a == T {
                return self.bin(Op::Or, c, b);
            }
            if a == F {
                let n = self.not(c);
                return self.bin(Op::And, n, b);
            }
            if b == F {
                return self.bin(Op::And, c, a);
            }
            if b == T {
                let n = self.not(c);
                return self.bin(Op::Or, n, a);
            }
            if a == c {
                return self.bin(Op::Or, c, b);
            }
            if b == c {
                return self.bin(Op::And, c, a);
            }
        }
        if nc.op == Op::Eq && w > 1 && ((nc.a == a && nc.b == b) || (nc.a == b && nc.b == a)) {
            return b;
        }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(c, x, ite(d, x, y)) -> ite(c|d, x, y)
        if nb.op == Op::Ite && nb.b == a {
            let o = self.bin(Op::Or, c, nb.a);
            return self.ite(o, a, nb.c);
        }
        // ite(c, s + x, s + y) -> s + ite(c, x, y)
        if w > 1 && (matches!(na.op, Op::Add | Op::Sub) || matches!(nb.op, Op::Add | Op::Sub)) {
            let (mut la, mut lb) = (vec![], vec![]);
            let (mut ka, mut kb) = (0, 0);
            if self.lin(a, 1, w, &mut la, &mut ka) && self.lin(b, 1, w, &mut lb, &mut kb) && la.len() <= 32 && lb.len() <= 32 {
                let common: Vec<(Id, u128)> = la.iter().copied().filter(|x| lb.contains(x)).collect();
                if !common.is_empty() {
                    la.retain(|x| !common.contains(x));
                    lb.retain(|x| !common.contains(x));
                    let k = if ka == kb { ka } else { 0 };
                    let x = self.lin_build(&la, ka.wrapping_sub(k) & mask(w), w);
                    let y = self.lin_build(&lb, kb.wrapping_sub(k) & mask(w), w);
                    let r = self.ite(c, x, y);
                    let s = self.lin_build(&common, k, w);
                    return self.bin(Op::Add, s, r);
                }
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            let r = self.ite(c, na.a, nb.a);
            return self.zext(r, w);
        }
        if na.op == Op::ZExt && nb.op == Op::Const && nb.k <= mask(self.w(na.a)) {
            let k = self.konst(nb.k, self.w(na.a));
            let r = self.ite(c, na.a, k);
            return self.zext(r, w);
        }
        if nb.op == Op::ZExt && na.op == Op::Const && na.k <= mask(self.w(nb.a)) {
            let k = self.konst(na.k, self.w(nb.a));
            let r = self.ite(c, k, nb.a);
            return self.zext(r, w);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    /// Rebuild a node with new children through the simplifier.
    pub fn rebuild(&mut self, n: Node, a: Id, b: Id, c: Id) -> Id {
        match n.op {
            Op::Const | Op::Var => unreachable!(),
            Op::Ite => self.ite(a, b, c),
            Op::ZExt => self.zext(a, n.w),
            Op::SExt => self.sext(a, n.w),
            Op::Extract => self.extract(a, n.k as u8, n.w),
            _ => self.bin(n.op, a, b),
        }
    }
    pub fn nkids(op: Op) -> usize {
        match op {
            Op::Const | Op::Var => 0,
            Op::ZExt | Op::SExt | Op::Extract => 1,
            Op::Ite => 3,
            _ => 2,
        }
    }

    /// Evaluate under an assignment of variables (missing = 0).
    pub fn eval(&self, e: Id, model: &[u128], memo: &mut FxMap<Id, u128>) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if let Some(&v) = memo.get(&e) {
            return v;
        }
        let v = match n.op {
            Op::Ite => {
                if self.eval(n.a, model, memo) != 0 {
                    self.eval(n.b, model, memo)
                } else {
                    self.eval(n.c, model, memo)
                }
            }
            Op::And if n.w == 1 => {
                if self.eval(n.a, model, memo) == 0 {
                    0
                } else {
                    self.eval(n.b, model, memo)
                }
            }
            Op::Or if n.w == 1 => {
                if self.eval(n.a, model, memo) != 0 {
                    1
                } else {
                    self.eval(n.b, model, memo)
                }
            }
            _ => {
                let a = self.eval(n.a, model, memo);
                let wa = self.w(n.a);
                let (b, wb) = if Self::nkids(n.op) == 2 {
                    (self.eval(n.b, model, memo), self.w(n.b))
                } else {
                    (0, 0)
                };
                eval_op(n.op, n.w, wa, wb, a, b, n.k)
            }
        };
        memo.insert(e, v);
        v
    }

    pub fn show(&self, e: Id, depth: usize) -> String {
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => self.var_names[n.k as usize].0.clone(),
            _ => {
                if depth == 0 {
                    return format!("#{}", e);
                }
                let mut s = format!("({:?}", n.op);
                for (i, x) in [n.a, n.b, n.c].iter().enumerate() {
                    if i < Self::nkids(n.op) {
                        s += " ";
                        s += &self.show(*x, depth - 1);
                    }
                }
                s + ")"
            }
        }
    }
}
