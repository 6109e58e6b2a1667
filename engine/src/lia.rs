//! Second encoding of a query: comparisons of sums that provably do not wrap
//! become linear integer constraints. What cannot be translated is left open
//! (a fresh Boolean, or an integer within its known range), so "unsat" carries
//! over to the bit-vector query; a model is used only after it has been
//! checked on the bit-vector terms.
use crate::expr::*;
use crate::z3::*;

pub struct Lia {
    pub c: Ctx,
    int: P,
    bools: FxMap<Id, P>,
    ints: FxMap<(Id, bool), P>,
    base: FxMap<Id, P>,
    leaf_memo: FxMap<Id, Option<Vec<(u128, P)>>>,
    vars: FxMap<usize, (P, u8)>,
    bounds: Vec<P>,
    stack: Vec<Id>,
    /// whether the last translated constraint contains a sum
    sums: FxMap<Id, bool>,
    asserts: usize,
    rlimit: u32,
    /// also encode division, remainder, shifts and bit fields by constants
    pub div: bool,
    trace: bool,
    shown: String,
    parts: FxMap<(Id, bool, i128), (P, P)>,
    prods: Vec<(P, P, P)>,
    prodkey: FxMap<(Id, Id), P>,
    /// which constraints define an unknown
    defs: FxMap<P, Vec<P>>,
    /// quotients: dividend, ratio, unknown
    quots: Vec<(P, f64, P)>,
    hints: Vec<(P, P, P)>,
}

/// limits of a type, cut off at 126 bits
fn lims(w: u8, signed: bool) -> (i128, i128) {
    if signed {
        let h = 1i128 << (w - 1).min(125);
        (-h, h - 1)
    } else {
        (0, (1i128 << w.min(125)) - 1)
    }
}
const BIG: i128 = 1 << 125;

impl Lia {
    pub fn new(rlimit: u32) -> Lia {
        let mut c = Ctx::new();
        c.new_solver(None, rlimit);
        let int = c.int_sort();
        Lia {
            c,
            int,
            bools: Default::default(),
            ints: Default::default(),
            base: Default::default(),
            leaf_memo: Default::default(),
            vars: Default::default(),
            bounds: vec![],
            stack: vec![],
            sums: Default::default(),
            asserts: 0,
            rlimit,
            div: false,
            trace: std::env::var("SYMIR_OPEN").is_ok(),
            shown: String::new(),
            parts: Default::default(),
            prods: vec![],
            prodkey: Default::default(),
            defs: Default::default(),
            quots: vec![],
            hints: vec![],
        }
    }
    /// does the expression compare sums (so that this encoding pays off)?
    pub fn useful(&mut self, ar: &Arena, e: Id) -> bool {
        if let Some(&b) = self.sums.get(&e) {
            return b;
        }
        let n = ar.n(e);
        let sum = |x: Id| {
            let mut x = x;
            loop {
                let n = ar.n(x);
                match n.op {
                    Op::ZExt | Op::SExt => x = n.a,
                    Op::Add | Op::Sub => return ar.w(x) > 1,
                    Op::Ite => {
                        if matches!(ar.n(n.b).op, Op::Add | Op::Sub) {
                            return true;
                        }
                        x = n.c;
                    }
                    _ => return false,
                }
            }
        };
        let div = self.div;
        let r = match n.op {
            Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Eq if div && ar.w(n.a) > 1 => true,
            Op::And | Op::Or | Op::Xor if n.w == 1 => self.useful(ar, n.a) || self.useful(ar, n.b),
            Op::Ite if n.w == 1 => self.useful(ar, n.a) || self.useful(ar, n.b) || self.useful(ar, n.c),
            Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Eq => sum(n.a) || sum(n.b) || (ar.w(n.a) >= 16 && Self::plain(ar, n.a) && Self::plain(ar, n.b)),
            _ => false,
        };
        self.sums.insert(e, r);
        r
    }
    /// a variable or a selection among variables: comparing two of them is
    /// order reasoning, which the integer encoding does far faster
    fn plain(ar: &Arena, mut x: Id) -> bool {
        for _ in 0..8 {
            let n = ar.n(x);
            match n.op {
                Op::ZExt | Op::SExt => x = n.a,
                Op::Ite => x = if matches!(ar.n(n.b).op, Op::Const) { n.c } else { n.b },
                Op::Var => return true,
                _ => return false,
            }
        }
        true
    }
    fn view_range(ar: &Arena, e: Id, signed: bool) -> Option<(i128, i128)> {
        if ar.w(e) > 100 {
            if signed {
                let (l, h) = (ar.slo(e), ar.shi(e));
                return if l > -BIG && h < BIG { Some((l, h)) } else { None };
            }
            return if ar.hi(e) < BIG as u128 { Some((ar.lo(e) as i128, ar.hi(e) as i128)) } else { None };
        }
        Some(if signed { (ar.slo(e), ar.shi(e)) } else { (ar.lo(e) as i128, ar.hi(e) as i128) })
    }
    /// signed view preferred for atoms that can be negative as signed numbers
    /// but are small in magnitude, or when the comparison is signed
    fn atom_view(ar: &Arena, e: Id, signed: bool) -> Option<(bool, (i128, i128))> {
        let (u, s) = match (Self::view_range(ar, e, false), Self::view_range(ar, e, true)) {
            (Some(u), Some(s)) => (u, s),
            (Some(u), None) => return Some((false, u)),
            (None, Some(s)) => return Some((true, s)),
            (None, None) => return None,
        };
        if s.0 >= 0 {
            return Some((false, u));
        }
        let narrower = s.1 - s.0 < u.1 - u.0;
        let v = if s.1 - s.0 == u.1 - u.0 { signed } else { narrower };
        Some((v, if v { s } else { u }))
    }
    fn lin_int(ar: &mut Arena, e: Id, signed: bool) -> Option<(Vec<(Id, bool, i128)>, i128)> {
        let w = ar.w(e);
        let (acc, k) = ar.lin_of(e)?;
        if k == 0 && acc.len() == 1 && acc[0].0 == e && acc[0].1 == 1 {
            Self::view_range(ar, e, signed)?;
            return Some((vec![(e, signed, 1)], 0));
        }
        let (mn, mx) = lims(w, signed);
        let mut out = vec![];
        let (mut l, mut h) = (0i128, 0i128);
        for (a, c) in acc {
            let c = sext(c, w);
            let (v, (al, ah)) = Self::atom_view(ar, a, signed)?;
            let (x, y) = (c.checked_mul(al)?, c.checked_mul(ah)?);
            l = l.checked_add(x.min(y))?;
            h = h.checked_add(x.max(y))?;
            out.push((a, v, c));
        }
        let k = sext(k, w);
        let shift = if w < 125 { 1i128 << w } else { 0 };
        for k in [k, k.checked_add(shift)?] {
            if l.checked_add(k)? >= mn && h.checked_add(k)? <= mx {
                return Some((out, k));
            }
        }
        None
    }
    /// the value of a sum that may wrap around: the true sum less a multiple
    /// of 2^w, bounded to the range of the type (exact)
    fn wrapped(&mut self, ar: &mut Arena, e: Id, signed: bool) -> Option<P> {
        if let Some(&p) = self.ints.get(&(e, signed)) {
            return Some(p);
        }
        let w = ar.w(e);
        if w > 64 || w < 2 {
            return None;
        }
        let (acc, k) = ar.lin_of(e)?;
        if acc.len() > 8 || (acc.len() == 1 && acc[0].0 == e) {
            return None;
        }
        let full = 1i128 << w;
        let (mn, mx) = if signed { (-(full >> 1), (full >> 1) - 1) } else { (0, full - 1) };
        let k = sext(k, w);
        let (mut l, mut h) = (k, k);
        let mut wide: Vec<(P, i128)> = vec![];
        let mut out = vec![];
        for (a, c) in acc {
            let c = sext(c, w);
            if !self.div && c.unsigned_abs() > 1 << 20 {
                return None;
            }
            let (v, (al, ah)) = if let Some(x) = self.wide(ar, a) {
                let (p, l, h) = x;
                wide.push((p, c));
                (false, (l, h))
            } else {
                let x = Self::atom_view(ar, a, signed)?;
                out.push((a, x.0, c));
                x
            };
            let _ = v;
            let (x, y) = (c.checked_mul(al)?, c.checked_mul(ah)?);
            l = l.checked_add(x.min(y))?;
            h = h.checked_add(x.max(y))?;
        }
        // value = sum - q * 2^w lies in mn..=mx
        let (ql, qh) = ((l - mx).div_euclid(full), (h - mn).div_euclid(full));
        let ql = if l - mx > ql * full { ql + 1 } else { ql };
        if !self.div && qh - ql > 8 {
            return None;
        }
        let mut sum = self.sum_ast(ar, &(out, k));
        for (p, c) in wide {
            let k = self.num(c);
            let t = self.c.mul(k, p);
            sum = self.c.add(&[sum, t]);
        }
        let r = self.fresh(&format!("w{}{}", e, signed), mn, mx);
        let q = self.fresh(&format!("q{}{}", e, signed), ql, qh);
        let f = self.num(full);
        let qf = self.c.mul(f, q);
        let rhs = self.c.add(&[r, qf]);
        let eq = self.c.eq(sum, rhs);
        self.define(r, eq);
        self.c.keep(r);
        self.ints.insert((e, signed), r);
        Some(r)
    }
    /// low bits of a wider number: congruent to it, which is all a sum that
    /// wraps at the same width needs
    fn wide(&mut self, ar: &mut Arena, e: Id) -> Option<(P, i128, i128)> {
        if !self.div {
            return None;
        }
        let n = ar.n(e);
        match n.op {
            Op::Extract if n.k == 0 => self.operand(ar, n.a, false),
            Op::Mul => self.product(ar, n.a, n.b),
            _ => None,
        }
    }
    /// the exact product of two unknowns, one integer for all widths it is
    /// computed in; the factors are noted so that a model can be completed
    fn product(&mut self, ar: &mut Arena, a: Id, b: Id) -> Option<(P, i128, i128)> {
        let strip = |ar: &Arena, mut x: Id| {
            while ar.n(x).op == Op::ZExt {
                x = ar.n(x).a;
            }
            x
        };
        let (mut x, mut y) = (strip(ar, a), strip(ar, b));
        if x > y {
            std::mem::swap(&mut x, &mut y);
        }
        let h = ar.hi(x).checked_mul(ar.hi(y)).filter(|&h| h < BIG as u128)? as i128;
        let l = (ar.lo(x) * ar.lo(y)) as i128;
        if let Some(&z) = self.prodkey.get(&(x, y)) {
            return Some((z, l, h));
        }
        let (p, _, _) = self.operand(ar, x, false)?;
        let (q, _, _) = self.operand(ar, y, false)?;
        let z = self.fresh(&format!("p{}_{}", x, y), l, h);
        self.prods.push((z, p, q));
        self.prodkey.insert((x, y), z);
        Some((z, l, h))
    }
    fn num(&mut self, k: i128) -> P {
        let t = self.int;
        self.c.numeral(&k.to_string(), t)
    }
    fn sum_ast(&mut self, ar: &mut Arena, l: &(Vec<(Id, bool, i128)>, i128)) -> P {
        let mut v = vec![];
        for &(a, s, c) in &l.0 {
            let x = self.atom(ar, a, s);
            if c == 1 {
                v.push(x);
            } else {
                let k = self.num(c);
                v.push(self.c.mul(k, x));
            }
        }
        if l.1 != 0 || v.is_empty() {
            v.push(self.num(l.1));
        }
        if v.len() == 1 {
            v[0]
        } else {
            self.c.add(&v)
        }
    }
    fn fresh(&mut self, name: &str, lo: i128, hi: i128) -> P {
        let t = self.int;
        let x = self.c.konst(name, t);
        let (a, b) = (self.num(lo), self.num(hi));
        let p = self.c.le(a, x);
        let q = self.c.le(x, b);
        self.define(x, p);
        self.define(x, q);
        x
    }
    fn define(&mut self, x: P, p: P) {
        if self.div {
            self.defs.entry(x).or_default().push(p);
        } else {
            self.bounds.push(p);
        }
    }
    /// the number `e` stands for, read as unsigned or signed
    fn atom(&mut self, ar: &mut Arena, e: Id, signed: bool) -> P {
        if let Some(&p) = self.ints.get(&(e, signed)) {
            return p;
        }
        let n = ar.n(e);
        let w = ar.w(e);
        let r = match n.op {
            Op::Const => {
                if signed {
                    self.num(sext(n.k, w))
                } else {
                    let t = self.int;
                    self.c.numeral(&n.k.to_string(), t)
                }
            }
            Op::ZExt => self.val(ar, n.a, false),
            Op::SExt if signed => self.val(ar, n.a, true),
            Op::Ite => {
                let c = self.tr(ar, n.a);
                let a = self.val(ar, n.b, signed);
                let b = self.val(ar, n.c, signed);
                self.c.ite(c, a, b)
            }
            Op::Var if w == 1 => {
                let c = self.tr(ar, e);
                let (o, z) = (self.num(if signed { -1 } else { 1 }), self.num(0));
                self.c.ite(c, o, z)
            }
            _ if w == 1 => {
                let c = self.tr(ar, e);
                let (o, z) = (self.num(if signed { -1 } else { 1 }), self.num(0));
                self.c.ite(c, o, z)
            }
            Op::Or | Op::And | Op::Xor | Op::Concat | Op::Extract | Op::Shl | Op::LShr | Op::AShr | Op::URem | Op::UDiv | Op::SRem | Op::SDiv
                if self.leaves(ar, e).is_some() =>
            {
                let l = self.leaves(ar, e).unwrap();
                let mut r: Option<P> = None;
                for (v, c) in l {
                    let t = self.int;
                    let k = if signed { self.num(sext(v, w)) } else { self.c.numeral(&v.to_string(), t) };
                    r = Some(match r {
                        None => k,
                        Some(x) => self.c.ite(c, k, x),
                    });
                }
                r.unwrap()
            }
            _ => {
                if self.div {
                    if let Some(p) = self.field(ar, e, signed) {
                        self.c.keep(p);
                        self.ints.insert((e, signed), p);
                        return p;
                    }
                }
                if w > 100 {
                    return self.opaque(ar, e, signed);
                }
                // one unknown per term, the other reading derived from it
                let half = 1i128 << (w - 1);
                let small = ar.hi(e) < half as u128;
                let b = match self.base.get(&e) {
                    Some(&b) => b,
                    None => {
                        let b = self.fresh(&format!("t{}", e), ar.lo(e) as i128, ar.hi(e) as i128);
                        if n.op == Op::Var {
                            self.vars.insert(n.k as usize, (b, w));
                        }
                        self.base.insert(e, b);
                        b
                    }
                };
                if !signed || small {
                    b
                } else {
                    let (k, m) = (self.num(half), self.num(-(1i128 << w)));
                    let c = self.c.le(k, b);
                    let x = self.c.add(&[b, m]);
                    self.c.ite(c, x, b)
                }
            }
        };
        self.c.keep(r);
        self.ints.insert((e, signed), r);
        r
    }
    /// v = c * quotient + remainder
    fn divmod(&mut self, ar: &mut Arena, key: (Id, bool, i128), v: P, lo: i128, hi: i128, c: i128, trunc: bool) -> (P, P) {
        if let Some(&x) = self.parts.get(&key) {
            return x;
        }
        let n = self.parts.len();
        let (ql, qh) = if trunc { (lo / c, hi / c) } else { (lo.div_euclid(c), hi.div_euclid(c)) };
        let (rl, rh) = if trunc && lo < 0 { (1 - c, if hi > 0 { c - 1 } else { 0 }) } else { (0, c - 1) };
        let q = self.fresh(&format!("dq{}", n), ql, qh);
        let r = self.fresh(&format!("dr{}", n), rl, rh);
        let k = self.num(c);
        let t = self.c.mul(k, q);
        let t = self.c.add(&[t, r]);
        let e = self.c.eq(v, t);
        self.define(q, e);
        self.define(r, e);
        if rl < 0 && rh > 0 {
            // the remainder has the sign of the dividend
            let z = self.num(0);
            let p = self.c.le(z, v);
            let a = self.c.le(z, r);
            let np = self.c.not(p);
            let x = self.c.or(np, a);
            self.define(r, x);
            self.define(q, x);
            let b = self.c.le(r, z);
            let y = self.c.or(p, b);
            self.define(r, y);
            self.define(q, y);
        }
        // quotients of one number by nearly the same divisor are close
        let (base, num) = match Self::lin_int(ar, key.0, key.1 && trunc) {
            Some((t, 0)) if t.len() == 1 && key.2 > 0 => (self.atom(ar, t[0].0, t[0].1), t[0].2),
            _ => (v, 1),
        };
        let ratio = num as f64 / c as f64;
        for (b, o, p) in self.quots.clone() {
            if b == base && (ratio / o - 1.0).abs() < 1e-3 {
                let t = self.int;
                let d = self.c.konst(&format!("dd{}", self.hints.len()), t);
                let e = self.c.add(&[p, d]);
                let e = self.c.eq(q, e);
                self.hints.push((q, p, e));
            }
        }
        self.quots.push((base, ratio, q));
        self.parts.insert(key, (q, r));
        (q, r)
    }
    /// unsigned value and range of an operand
    fn operand(&mut self, ar: &mut Arena, e: Id, signed: bool) -> Option<(P, i128, i128)> {
        let (l, h) = Self::view_range(ar, e, signed)?;
        Some((self.val(ar, e, signed), l, h))
    }
    /// quotients, remainders, shifts and bit fields with constant parameters
    fn field(&mut self, ar: &mut Arena, e: Id, signed: bool) -> Option<P> {
        let n = ar.n(e);
        let w = ar.w(e);
        let small = if w > 125 { ar.hi(e) < BIG as u128 } else { ar.hi(e) < 1u128 << (w - 1) };
        let konst = |x: Id| -> Option<i128> { ar.k(x).and_then(|k| if k < BIG as u128 { Some(k as i128) } else { None }) };
        let r = match n.op {
            Op::UDiv | Op::URem => {
                let c = konst(n.b)?;
                if c < 1 {
                    return None;
                }
                let (v, l, h) = self.operand(ar, n.a, false)?;
                let (q, r) = self.divmod(ar, (n.a, false, c), v, l, h, c, false);
                if n.op == Op::UDiv { q } else { r }
            }
            Op::LShr => {
                let s = konst(n.b)?;
                if s >= 120 {
                    return None;
                }
                let (v, l, h) = self.operand(ar, n.a, false)?;
                self.divmod(ar, (n.a, false, 1 << s), v, l, h, 1 << s, false).0
            }
            Op::And => {
                let m = konst(n.b)?;
                if m == 0 || m & (m + 1) != 0 {
                    return None;
                }
                let (v, l, h) = self.operand(ar, n.a, false)?;
                self.divmod(ar, (n.a, false, m + 1), v, l, h, m + 1, false).1
            }
            Op::Extract => {
                let k = n.k as u32;
                if k + w as u32 > 120 && k > 0 && k >= 120 {
                    return None;
                }
                let (mut v, mut l, mut h) = self.operand(ar, n.a, false)?;
                if k > 0 {
                    v = self.divmod(ar, (n.a, false, 1i128 << k), v, l, h, 1i128 << k, false).0;
                    l >>= k;
                    h >>= k;
                }
                if w >= 124 {
                    if h >> 124 != 0 {
                        return None;
                    }
                } else if h >> w != 0 {
                    v = self.divmod(ar, (e, true, 0), v, l, h, 1i128 << w, false).1;
                }
                v
            }
            Op::Concat => {
                let wb = ar.w(n.b);
                let (x, _, h) = self.operand(ar, n.a, false)?;
                h.checked_mul(1i128.checked_shl(wb as u32)?).filter(|&t| wb < 120 && t < BIG)?;
                let (y, _, _) = self.operand(ar, n.b, false)?;
                let c = self.num(1i128 << wb);
                let t = self.c.mul(c, x);
                self.c.add(&[t, y])
            }
            Op::SDiv | Op::SRem => {
                let c = konst(n.b)?;
                if c < 1 || (w <= 125 && c >> (w - 1) != 0) {
                    return None;
                }
                let (v, l, h) = self.operand(ar, n.a, true)?;
                let (q, r) = self.divmod(ar, (n.a, true, c), v, l, h, c, true);
                let x = if n.op == Op::SDiv { q } else { r };
                if signed || ar.slo(e) >= 0 {
                    return Some(x);
                }
                if w > 124 {
                    return None;
                }
                let (z, m) = (self.num(0), self.num(1i128 << w));
                let neg = self.c.lt(x, z);
                let y = self.c.add(&[x, m]);
                return Some(self.c.ite(neg, y, x));
            }
            Op::Mul => {
                let (z, l, h) = self.product(ar, n.a, n.b)?;
                if w >= 125 || h >> w == 0 {
                    z
                } else {
                    self.divmod(ar, (e, true, -1), z, l, h, 1i128 << w, false).1
                }
            }
            _ => return None,
        };
        if !signed || small {
            return Some(r);
        }
        if w > 124 {
            return None;
        }
        let (k, m) = (self.num(1i128 << (w - 1)), self.num(-(1i128 << w)));
        let c = self.c.le(k, r);
        let x = self.c.add(&[r, m]);
        Some(self.c.ite(c, x, r))
    }
    /// the term as a choice between few constants
    fn leaves(&mut self, ar: &mut Arena, e: Id) -> Option<Vec<(u128, P)>> {
        if let Some(r) = self.leaf_memo.get(&e) {
            return r.clone();
        }
        let n = ar.n(e);
        let w = ar.w(e);
        let r = (|| {
            if n.op == Op::Const {
                return Some(vec![(n.k, self.c.boolean(true))]);
            }
            if w == 1 {
                let c = self.tr(ar, e);
                let nc = self.c.not(c);
                return Some(vec![(1, c), (0, nc)]);
            }
            let mut out: Vec<(u128, P)> = vec![];
            let mut put = |s: &Self, v: u128, c: P| -> bool {
                for x in out.iter_mut() {
                    if x.0 == v {
                        x.1 = s.c.or(x.1, c);
                        return true;
                    }
                }
                out.push((v, c));
                out.len() <= 24
            };
            match n.op {
                Op::Ite => {
                    let (x, y) = (self.leaves(ar, n.b)?, self.leaves(ar, n.c)?);
                    let c = self.tr(ar, n.a);
                    let nc = self.c.not(c);
                    for (v, d) in x {
                        let d = self.c.and(c, d);
                        if !put(self, v, d) {
                            return None;
                        }
                    }
                    for (v, d) in y {
                        let d = self.c.and(nc, d);
                        if !put(self, v, d) {
                            return None;
                        }
                    }
                }
                Op::ZExt | Op::SExt | Op::Extract => {
                    let wa = ar.w(n.a);
                    for (v, d) in self.leaves(ar, n.a)? {
                        let v = match n.op {
                            Op::ZExt => v,
                            Op::SExt => sext(v, wa) as u128 & mask(w),
                            _ => (v >> n.k) & mask(w),
                        };
                        if !put(self, v, d) {
                            return None;
                        }
                    }
                }
                Op::Var => return None,
                _ => {
                    let (x, y) = (self.leaves(ar, n.a)?, self.leaves(ar, n.b)?);
                    if x.len() * y.len() > 64 {
                        return None;
                    }
                    let (wa, wb) = (ar.w(n.a), ar.w(n.b));
                    for &(u, c) in &x {
                        for &(v, d) in &y {
                            let k = eval_op(n.op, w, wa, wb, u, v, n.k);
                            let cd = self.c.and(c, d);
                            if !put(self, k, cd) {
                                return None;
                            }
                        }
                    }
                }
            }
            Some(out)
        })();
        self.leaf_memo.insert(e, r.clone());
        r
    }
    fn val(&mut self, ar: &mut Arena, e: Id, signed: bool) -> P {
        match Self::lin_int(ar, e, signed) {
            Some(l) if !(l.0.len() == 1 && l.0[0].0 == e) => self.sum_ast(ar, &l),
            _ => {
                if matches!(ar.n(e).op, Op::Add | Op::Sub | Op::Mul | Op::Shl) && !(self.div && ar.n(e).op == Op::Mul && ar.k(ar.n(e).b).is_none()) {
                    return match self.wrapped(ar, e, signed) {
                        Some(p) => p,
                        None => self.opaque(ar, e, signed),
                    };
                }
                self.atom(ar, e, signed)
            }
        }
    }
    fn opaque(&mut self, ar: &mut Arena, e: Id, signed: bool) -> P {
        if let Some(&p) = self.ints.get(&(e, signed)) {
            return p;
        }
        if self.trace {
            eprintln!("opaque {}", ar.show(e, 12));
        }
        let name = format!("o{}{}", e, signed);
        let r = match Self::view_range(ar, e, signed) {
            Some((l, h)) => self.fresh(&name, l, h),
            None => {
                let t = self.int;
                self.c.konst(&name, t)
            }
        };
        self.c.keep(r);
        self.ints.insert((e, signed), r);
        r
    }
    fn open_bool(&mut self, e: Id) -> P {
        if self.trace {
            eprintln!("open {}", self.shown);
        }
        let t = self.c.bool_sort();
        self.c.konst(&format!("b{}", e), t)
    }
    pub fn tr(&mut self, ar: &mut Arena, e: Id) -> P {
        if let Some(&p) = self.bools.get(&e) {
            return p;
        }
        let n = ar.n(e);
        if self.trace {
            self.shown = ar.show(e, 12);
        }
        let r = match n.op {
            Op::Const => self.c.boolean(n.k != 0),
            Op::And | Op::Or => {
                let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b));
                if n.op == Op::And {
                    self.c.and(a, b)
                } else {
                    self.c.or(a, b)
                }
            }
            Op::Xor => {
                let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b));
                self.c.xor(a, b)
            }
            Op::Ite => {
                let (a, b, d) = (self.tr(ar, n.a), self.tr(ar, n.b), self.tr(ar, n.c));
                self.c.ite(a, b, d)
            }
            Op::Eq if ar.w(n.a) == 1 => {
                let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b));
                self.c.eq(a, b)
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::Eq if ar.w(n.a) > 1 && (self.div || ar.w(n.a) <= 100) => {
                let views: &[bool] = match n.op {
                    Op::Ult | Op::Ule => &[false],
                    Op::Slt | Op::Sle => &[true],
                    _ => &[false, true],
                };
                let mut out = None;
                for &s in views {
                    if let (Some(x), Some(y)) = (Self::lin_int(ar, n.a, s), Self::lin_int(ar, n.b, s)) {
                        let p = self.sum_ast(ar, &x);
                        let q = self.sum_ast(ar, &y);
                        out = Some(match n.op {
                            Op::Ult | Op::Slt => self.c.lt(p, q),
                            Op::Ule | Op::Sle => self.c.le(p, q),
                            _ => self.c.eq(p, q),
                        });
                        break;
                    }
                }
                match out {
                    Some(p) => p,
                    None => {
                        let s = views[0];
                        let side = |t: &mut Self, ar: &mut Arena, x: Id| match Self::lin_int(ar, x, s) {
                            Some(l) => Some(t.sum_ast(ar, &l)),
                            None => t.wrapped(ar, x, s),
                        };
                        match (side(self, ar, n.a), side(self, ar, n.b)) {
                            (Some(p), Some(q)) => match n.op {
                                Op::Ult | Op::Slt => self.c.lt(p, q),
                                Op::Ule | Op::Sle => self.c.le(p, q),
                                _ => self.c.eq(p, q),
                            },
                            _ => self.open_bool(e),
                        }
                    }
                }
            }
            Op::Var => {
                let p = self.open_bool(e);
                self.vars.insert(n.k as usize, (p, 1));
                p
            }
            _ => self.open_bool(e),
        };
        self.c.keep(r);
        self.bools.insert(e, r);
        r
    }
    /// everything the given constraints refer to
    fn reach(&self, roots: &[P]) -> Vec<P> {
        let mut seen: FxSet<P> = Default::default();
        let mut out = vec![];
        let mut stack = roots.to_vec();
        while let Some(p) = stack.pop() {
            if !seen.insert(p) {
                continue;
            }
            if let Some(ds) = self.defs.get(&p) {
                for &d in ds {
                    if !seen.contains(&d) {
                        out.push(d);
                        stack.push(d);
                    }
                }
            }
            self.c.kids(p, &mut stack);
        }
        for &(a, b, e) in &self.hints {
            if seen.contains(&a) && seen.contains(&b) {
                out.push(e);
            }
        }
        out.sort();
        out.dedup();
        out
    }
    pub fn check(&mut self, ar: &mut Arena, pc: &[Id], extra: Id, hint: &[u128]) -> Res {
        if self.asserts > 20000 {
            self.c.new_solver(None, self.rlimit);
            self.stack.clear();
            self.asserts = 0;
            // bounds are asserted again at the base level
            let b = std::mem::take(&mut self.base_bounds());
            for p in b {
                self.c.assert(p);
            }
        }
        for &e in pc {
            self.tr(ar, e);
        }
        let q = self.tr(ar, extra);
        if !self.bounds.is_empty() {
            self.c.pop(self.stack.len());
            self.stack.clear();
            for p in std::mem::take(&mut self.bounds) {
                self.c.keep(p);
                self.c.assert(p);
                self.c.all_bounds.push(p);
            }
        }
        if self.div {
            // one self-contained query
            let mut roots: Vec<P> = pc.iter().map(|e| self.bools[e]).collect();
            roots.push(q);
            let defs = self.reach(&roots);
            self.c.new_solver(None, self.rlimit);
            self.c.push();
            for p in defs.into_iter().chain(roots) {
                self.c.assert(p);
            }
            let out = self.conclude(ar, pc, extra, hint);
            self.c.pop(1);
            return out;
        }
        let mut i = 0;
        while i < self.stack.len() && i < pc.len() && self.stack[i] == pc[i] {
            i += 1;
        }
        if i < self.stack.len() {
            self.c.pop(self.stack.len() - i);
            self.stack.truncate(i);
        }
        for &e in &pc[i..] {
            let p = self.bools[&e];
            self.c.push();
            self.c.assert(p);
            self.asserts += 1;
            self.stack.push(e);
        }
        self.c.push();
        self.c.assert(q);
        self.asserts += 1;
        let out = self.conclude(ar, pc, extra, hint);
        self.c.pop(1);
        out
    }
    fn conclude(&mut self, ar: &mut Arena, pc: &[Id], extra: Id, hint: &[u128]) -> Res {
        match self.c.check() {
            -1 => Res::Unsat,
            1 => {
                let mut vals = hint.to_vec();
                vals.resize(ar.var_names.len(), 0);
                let vs: Vec<(usize, (P, u8))> = self.vars.iter().map(|(k, v)| (*k, *v)).collect();
                self.c.with_model(|m| {
                    for &(ix, (p, w)) in &vs {
                        if w == 1 {
                            if let Some(b) = m.boolean(p) {
                                vals[ix] = b as u128;
                            }
                        } else if let Some(s) = m.number(p) {
                            if let Ok(v) = s.parse::<u128>() {
                                vals[ix] = v & mask(w);
                            }
                        }
                    }
                });
                let ok = |ar: &Arena, vals: &[u128]| {
                    let mut memo = Default::default();
                    pc.iter().chain(std::iter::once(&extra)).all(|&c| ar.eval(c, vals, &mut memo) == 1)
                };
                if ok(ar, &vals) {
                    Res::Sat(vals)
                } else if self.prods.is_empty() {
                    Res::Unknown
                } else {
                    // fix one factor of every product and solve again
                    let mut fixed: Vec<(P, P, P, String)> = vec![];
                    let prods = self.prods.clone();
                    self.c.with_model(|m| {
                        for &(z, x, y) in &prods {
                            if let Some(v) = m.number(y) {
                                fixed.push((z, x, y, v));
                            }
                        }
                    });
                    self.c.push();
                    for (z, x, y, v) in fixed {
                        let t = self.int;
                        let k = self.c.numeral(&v, t);
                        let p = self.c.eq(y, k);
                        self.c.assert(p);
                        let xk = self.c.mul(k, x);
                        let p = self.c.eq(z, xk);
                        self.c.assert(p);
                    }
                    let mut out = Res::Unknown;
                    if self.c.check() == 1 {
                        self.c.with_model(|m| {
                            for &(ix, (p, w)) in &vs {
                                if w > 1 {
                                    if let Some(v) = m.number(p).and_then(|s| s.parse::<u128>().ok()) {
                                        vals[ix] = v & mask(w);
                                    }
                                } else if let Some(b) = m.boolean(p) {
                                    vals[ix] = b as u128;
                                }
                            }
                        });
                        if ok(ar, &vals) {
                            out = Res::Sat(vals);
                        }
                    }
                    self.c.pop(1);
                    out
                }
            }
            _ => {
                if let Ok(d) = std::env::var("SYMIR_LIADUMP") {
                    let _ = std::fs::write(format!("{}/q{}_{}.smt2", d, std::process::id(), extra), self.c.text());
                }
                Res::Unknown
            }
        }
    }
    fn base_bounds(&self) -> Vec<P> {
        self.c.all_bounds.clone()
    }
}
