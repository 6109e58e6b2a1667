//! Checks shared by the modular integer harnesses.
use crate::vp::*;
use rust_cp::misc::modint::{ModIntBase, RemEuclidU32};
use std::iter::{Product, Sum};
use std::ops::*;

#[macro_export]
macro_rules! moduli {
    ($($name:ident = $value:expr, $prime:expr;)*) => {$(
        #[derive(Copy, Clone, Eq, PartialEq)]
        pub enum $name {}
        impl rust_cp::misc::modint::Modulus for $name {
            const VALUE: u32 = $value;
            const HINT_VALUE_IS_PRIME: bool = $prime;
            fn butterfly_cache() -> &'static std::thread::LocalKey<std::cell::RefCell<Option<rust_cp::misc::modint::ButterflyCache<Self>>>> {
                thread_local! {
                    static CACHE: std::cell::RefCell<Option<rust_cp::misc::modint::ButterflyCache<$name>>> = Default::default();
                }
                &CACHE
            }
        }
    )*};
}

/// operators between a modint and something else
pub trait Ops<T>:
    Sized
    + Add<T, Output = Self>
    + Sub<T, Output = Self>
    + Mul<T, Output = Self>
    + Div<T, Output = Self>
    + AddAssign<T>
    + SubAssign<T>
    + MulAssign<T>
    + DivAssign<T>
{
}
impl<Z, T> Ops<T> for Z where
    Z: Add<T, Output = Z> + Sub<T, Output = Z> + Mul<T, Output = Z> + Div<T, Output = Z> + AddAssign<T> + SubAssign<T> + MulAssign<T> + DivAssign<T>
{
}
pub trait RefOps<Z>: Sized + Neg<Output = Z> {
    fn all(a: Self, b: Z, op: usize) -> [Z; 2];
}
impl<'a, Z: Copy> RefOps<Z> for &'a Z
where
    for<'b> &'a Z: Neg<Output = Z>
        + Add<Z, Output = Z>
        + Sub<Z, Output = Z>
        + Mul<Z, Output = Z>
        + Div<Z, Output = Z>
        + Add<&'b Z, Output = Z>
        + Sub<&'b Z, Output = Z>
        + Mul<&'b Z, Output = Z>
        + Div<&'b Z, Output = Z>,
{
    fn all(a: Self, b: Z, op: usize) -> [Z; 2] {
        match op {
            0 => [a + b, a + &b],
            1 => [a - b, a - &b],
            2 => [a * b, a * &b],
            _ => [a / b, a / &b],
        }
    }
}
pub trait Mint: ModIntBase + for<'a> Ops<&'a Self> + Sum + Product + for<'a> Sum<&'a Self> + for<'a> Product<&'a Self> {
    fn refs(&self, b: Self, op: usize) -> [Self; 2];
    fn neg_ref(&self) -> Self;
}
impl<Z> Mint for Z
where
    Z: ModIntBase + for<'a> Ops<&'a Z> + Sum + Product + for<'a> Sum<&'a Z> + for<'a> Product<&'a Z>,
    for<'a> &'a Z: RefOps<Z>,
{
    fn refs(&self, b: Z, op: usize) -> [Z; 2] {
        <&Z as RefOps<Z>>::all(self, b, op)
    }
    fn neg_ref(&self) -> Z {
        -self
    }
}
/// every form of a binary operator gives `e`
#[inline(always)]
pub fn forms<Z: Mint>(a: Z, b: Z, op: usize, e: u64, msg: &'static str) {
    let [p, q] = a.refs(b, op);
    let (mut c, mut d) = (a, a);
    let (r, s) = match op {
        0 => {
            c += b;
            d += &b;
            (a + b, a + &b)
        }
        1 => {
            c -= b;
            d -= &b;
            (a - b, a - &b)
        }
        2 => {
            c *= b;
            d *= &b;
            (a * b, a * &b)
        }
        _ => {
            c /= b;
            d /= &b;
            (a / b, a / &b)
        }
    };
    for v in [p, q, r, s, c, d] {
        check(v.val() as u64 == e, msg);
    }
}
/// sum, difference, product and negation of two residues
#[inline(always)]
pub fn arith<Z: Mint>(m: u32) {
    check(Z::modulus() == m, "modulus");
    let m = m as u64;
    let (x, y) = (below(m), below(m));
    let (a, b) = (Z::raw(x as u32), Z::raw(y as u32));
    check((a.val() as u64 == x) & (b.val() as u64 == y), "representative");
    match pick(5) {
        0 => forms(a, b, 0, (x + y) % m, "sum"),
        1 => forms(a, b, 1, (x + m - y) % m, "difference"),
        2 => forms(a, b, 2, x * y % m, "product"),
        3 => {
            let e = (m - x) % m;
            check((-a).val() as u64 == e, "negation");
            check(a.neg_ref().val() as u64 == e, "negation");
            check(Z::default().val() == 0, "default value");
        }
        _ => {
            check((a == b) == (x == y), "equality");
            check((a != b) == (x != y), "inequality");
        }
    }
}
/// products with one known factor: linear, so any way of computing them can be compared
#[inline(always)]
pub fn product_known<Z: Mint>(m: u32) {
    let m = m as u64;
    let x = below(m);
    let y = [0, 1, 2, 3, m / 2, m - 1, m / 3 + 1, 1 << 16, 46341, 123456789][pick(10)] % m;
    let (a, b) = (Z::raw(x as u32), Z::raw(y as u32));
    let e = x * y % m;
    if pick(2) == 0 {
        forms(a, b, 2, e, "product");
    } else {
        forms(b, a, 2, e, "product");
    }
}
/// sums and products over iterators: the element `at` is symbolic, the others known
#[inline(always)]
pub fn folds<Z: Mint>(m: u32, max: usize, last: bool) {
    let m = m as u64;
    let n = pick(max + 1);
    let list: Vec<u64> = (0..n).map(|_| below(m)).collect();
    let z: Vec<Z> = list.iter().map(|&v| Z::raw(v as u32)).collect();
    let e = list.iter().sum::<u64>() % m;
    let s: Z = z.iter().sum();
    let t: Z = z.iter().copied().sum();
    check(s.val() as u64 == e, "sum of a list");
    check(t.val() as u64 == e, "sum of a list");
    let at = if n == 0 { 0 } else if last { n - 1 } else { pick(n) };
    let c = pick(3) as u64;
    let list: Vec<u64> = (0..n).map(|i| if i == at { list[i] } else { [2 + i as u64, m - 1, m / 2 + i as u64][c as usize] % m }).collect();
    let z: Vec<Z> = list.iter().map(|&v| Z::raw(v as u32)).collect();
    let mut k = 1 % m;
    for i in 0..n {
        if i != at {
            k = k * list[i] % m;
        }
    }
    let e = if n == 0 { k } else { list[at] * k % m };
    let s: Z = z.iter().product();
    let t: Z = z.into_iter().product();
    check(s.val() as u64 == e, "product of a list");
    check(t.val() as u64 == e, "product of a list");
}
/// longer lists, the last element symbolic
pub fn long_folds<Z: Mint>(m: u32, n: usize) {
    let m = m as u64;
    let x = below(m);
    let at = n - 1;
    let list: Vec<u64> = (0..n).map(|i| if i == at { x } else { (i % 3 + 1) as u64 % m }).collect();
    let z: Vec<Z> = list.iter().map(|&v| Z::raw(v as u32)).collect();
    let (mut e, mut k) = (0, 1 % m);
    for i in 0..n {
        if i != at {
            e += list[i];
            k = k * list[i] % m;
        }
    }
    let e = (e + x) % m;
    let s: Z = z.iter().sum();
    let t: Z = z.iter().copied().sum();
    check((s.val() as u64 == e) & (t.val() as u64 == e), "sum of a list");
    let e = x * k % m;
    let s: Z = z.iter().product();
    let t: Z = z.into_iter().product();
    check((s.val() as u64 == e) & (t.val() as u64 == e), "product of a list");
}
/// both constructors and the conversion from an integer t = r mod m
#[inline(always)]
pub fn created<Z: Mint + From<T>, T: RemEuclidU32 + Copy>(t: T, r: u64) {
    check(<Z as ModIntBase>::new(t).val() as u64 == r, "residue of an integer");
    check(Z::from(t).val() as u64 == r, "residue of an integer");
}
/// operators with a primitive integer t = r mod m on the right
#[inline(always)]
pub fn mixed<Z: Mint + Ops<T> + From<T>, T: RemEuclidU32 + Copy>(t: T, r: u64, m: u32, op: usize) {
    let m = m as u64;
    created::<Z, T>(t, r);
    match op {
        0 => {
            let x = below(m);
            let a = Z::raw(x as u32);
            let mut c = a;
            c += t;
            let e = (x + r) % m;
            check((a + t).val() as u64 == e, "sum with an integer");
            check(c.val() as u64 == e, "sum with an integer");
        }
        1 => {
            let x = below(m);
            let a = Z::raw(x as u32);
            let mut c = a;
            c -= t;
            let e = (x + m - r) % m;
            check((a - t).val() as u64 == e, "difference with an integer");
            check(c.val() as u64 == e, "difference with an integer");
        }
        _ => {
            let x = [0, 1, m - 1, m / 2 + 1, 65537][pick(5)] % m;
            let a = Z::raw(x as u32);
            let mut c = a;
            c *= t;
            let e = x * r % m;
            check((a * t).val() as u64 == e, "product with an integer");
            check(c.val() as u64 == e, "product with an integer");
        }
    }
}
/// every residue: one path each for small moduli, otherwise two halves whose
/// width alone keeps them below the modulus
#[inline(always)]
pub fn residue(m: u32, symbolic: bool) -> u64 {
    if m <= 10 {
        return pick(m as usize) as u64;
    }
    if !symbolic {
        return [0, 1, m as u64 / 2 + 1, m as u64 - 1, 200, 65521][pick(6)] % m as u64;
    }
    let v = any(31 - m.leading_zeros());
    if pick(2) == 0 {
        v
    } else {
        m as u64 - 1 - v
    }
}
/// A value q * m + r of an integer type with `bits` value bits, and r. The
/// quotient is cut to the number of bits that keeps the value in range.
#[inline(always)]
pub fn split_unsigned(bits: u32, m: u32, sym: bool) -> (u64, u64) {
    let mb = 32 - (m - 1).leading_zeros();
    if bits <= mb && 1u64 << bits <= m as u64 {
        let x = if sym { any(bits) } else { [0, 1, 1 << (bits / 2), (1 << bits) - 1][pick(4)] };
        return (x, x);
    }
    let r = residue(m, sym);
    let q = if bits > mb { any(bits - mb) } else { 0 };
    assume(bits > mb || r < 1 << bits);
    (q * m as u64 + r, r)
}
#[inline(always)]
pub fn split_signed(bits: u32, m: u32, sym: bool) -> (i64, u64) {
    let (x, r) = split_unsigned(bits - 1, m, sym);
    if pick(2) == 0 {
        (x as i64, r)
    } else {
        (-(x as i64), ite(r == 0, 0, m as u64 - r))
    }
}
#[inline(always)]
pub fn split_u128(bits: u32, m: u32, sym: bool) -> (u128, u64) {
    let r = residue(m, sym);
    let mb = 32 - (m - 1).leading_zeros();
    let h = any(bits - 64 - mb) as u128;
    let q = (h << 64) | any(64) as u128;
    (q * m as u128 + r as u128, r)
}
#[inline(always)]
pub fn split_i128(m: u32, sym: bool) -> (i128, u64) {
    let (x, r) = split_u128(124, m, sym);
    if pick(2) == 0 {
        (x as i128, r)
    } else {
        (-(x as i128), ite(r == 0, 0, m as u64 - r))
    }
}
/// every primitive integer type
#[inline(always)]
pub fn integers<Z>(m: u32, sym: bool)
where
    Z: Mint
        + Ops<i8>
        + Ops<i16>
        + Ops<i32>
        + Ops<i64>
        + Ops<i128>
        + Ops<isize>
        + Ops<u8>
        + Ops<u16>
        + Ops<u32>
        + Ops<u64>
        + Ops<u128>
        + Ops<usize>,
{
    let op = pick(3);
    let sym = sym || op != 2;
    match pick(12) {
        0 => {
            let (x, r) = split_signed(8, m, sym);
            mixed::<Z, i8>(x as i8, r, m, op);
        }
        1 => {
            let (x, r) = split_signed(16, m, sym);
            mixed::<Z, i16>(x as i16, r, m, op);
        }
        2 => {
            let (x, r) = split_signed(32, m, sym);
            mixed::<Z, i32>(x as i32, r, m, op);
        }
        3 => {
            let (x, r) = split_signed(64, m, sym);
            mixed::<Z, i64>(x, r, m, op);
        }
        4 => {
            let (x, r) = split_signed(64, m, sym);
            mixed::<Z, isize>(x as isize, r, m, op);
        }
        5 => {
            let (x, r) = split_i128(m, sym);
            mixed::<Z, i128>(x, r, m, op);
        }
        6 => {
            let (x, r) = split_unsigned(8, m, sym);
            mixed::<Z, u8>(x as u8, r, m, op);
        }
        7 => {
            let (x, r) = split_unsigned(16, m, sym);
            mixed::<Z, u16>(x as u16, r, m, op);
        }
        8 => {
            let (x, r) = split_unsigned(32, m, sym);
            mixed::<Z, u32>(x as u32, r, m, op);
        }
        9 => {
            let (x, r) = split_unsigned(64, m, sym);
            mixed::<Z, u64>(x, r, m, op);
        }
        10 => {
            let (x, r) = split_unsigned(64, m, sym);
            mixed::<Z, usize>(x as usize, r, m, op);
        }
        _ => {
            let (x, r) = split_u128(124, m, sym);
            mixed::<Z, u128>(x, r, m, op);
        }
    }
}
/// every value of the types up to 64 bits
#[inline(always)]
pub fn creation<Z: Mint>(m: u32) {
    let bits = [8, 16, 32, 64][pick(4)];
    let x = any(bits);
    let r = x % m as u64;
    let y = any_i64(bits);
    let s = y.rem_euclid(m as i64) as u64;
    match (bits, pick(2)) {
        (8, 0) => created::<Z, u8>(x as u8, r),
        (16, 0) => created::<Z, u16>(x as u16, r),
        (32, 0) => created::<Z, u32>(x as u32, r),
        (_, 0) => {
            created::<Z, u64>(x, r);
            created::<Z, usize>(x as usize, r);
        }
        (8, _) => created::<Z, i8>(y as i8, s),
        (16, _) => created::<Z, i16>(y as i16, s),
        (32, _) => created::<Z, i32>(y as i32, s),
        _ => {
            created::<Z, i64>(y, s);
            created::<Z, isize>(y as isize, s);
        }
    }
}
/// the ends of the 128-bit ranges
#[inline(always)]
pub fn wide_ends<Z: Mint + From<i128> + From<u128>>(m: u32) {
    let d = pick(48) as i128;
    match pick(3) {
        0 => {
            let x = i128::MIN + d;
            let base = i128::MIN.rem_euclid(m as i128);
            created::<Z, i128>(x, ((base + d) % m as i128) as u64);
        }
        1 => {
            let x = i128::MAX - d;
            let base = i128::MAX.rem_euclid(m as i128);
            created::<Z, i128>(x, ((base - d).rem_euclid(m as i128)) as u64);
        }
        _ => {
            let x = u128::MAX - d as u128;
            let base = (u128::MAX % m as u128) as i128;
            created::<Z, u128>(x, ((base - d).rem_euclid(m as i128)) as u64);
        }
    }
}
/// x^n from the eventually periodic sequence of powers
pub fn cycle(x: u64, m: u64, n: u64) -> u64 {
    let mut seq: Vec<u64> = vec![1 % m];
    loop {
        let v = seq[seq.len() - 1] * x % m;
        if let Some(i) = seq.iter().position(|&t| t == v) {
            let l = (seq.len() - i) as u64;
            let mut out = 0;
            let tail = (n.wrapping_sub(i as u64)) % l;
            for (j, &s) in seq.iter().enumerate() {
                let hit = if j < i { n == j as u64 } else { (n >= i as u64) & (tail == (j - i) as u64) };
                out = ite(hit, s, out);
            }
            return out;
        }
        seq.push(v);
    }
}
