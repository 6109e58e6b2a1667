//! exponentiation of modular integers
use crate::mint::*;
use crate::vp::*;
use rust_cp::misc::modint::{Mod1000000007, Mod998244353, ModInt, ModIntBase, RemEuclidU32, StaticModInt};
use std::convert::Infallible;
use std::fmt;
use std::ops::*;
use std::str::FromStr;

moduli! {
    M1 = 1, false; M2 = 2, true; M3 = 3, true; M4 = 4, false; M6 = 6, false; M8 = 8, false; M9 = 9, false; M11 = 11, true; P31 = 1 << 31, false; Mersenne = 2147483647, true;
}
macro_rules! small {
    ($f:ident $(, $a:expr)*) => {
        match pick(8) {
            0 => $f::<StaticModInt<M1>>(1 $(, $a)*),
            1 => $f::<StaticModInt<M2>>(2 $(, $a)*),
            2 => $f::<StaticModInt<M3>>(3 $(, $a)*),
            3 => $f::<StaticModInt<M4>>(4 $(, $a)*),
            4 => $f::<StaticModInt<M6>>(6 $(, $a)*),
            5 => $f::<StaticModInt<M8>>(8 $(, $a)*),
            6 => $f::<StaticModInt<M9>>(9 $(, $a)*),
            _ => $f::<StaticModInt<M11>>(11 $(, $a)*),
        }
    };
}
fn window(bits: u32) -> u64 {
    let at = [0, 8, 16, 31, 32, 47, 63 - bits, 64 - bits][pick(8)];
    let low = [0, 1, (1 << at) - 1][pick(if at == 0 { 1 } else { 3 })];
    (any_by_length(bits) << at) | low
}
/// a power both by the trait and by the type
fn powers<Z: Mint>(m: u32, n: u64, own: fn(Z, u64) -> Z) {
    let x = pick(m as usize) as u64;
    let z = Z::raw(x as u32);
    let e = cycle(x, m as u64, n);
    check(z.pow(n).val() as u64 == e, "power");
    check(own(z, n).val() as u64 == e, "power");
}
fn powers_static<Z: Mint>(m: u32, n: u64) {
    powers::<Z>(m, n, |z, n| <Z as ModIntBase>::pow(z, n))
}
fn large<Z: Mint>(m: u32, top: usize) {
    let n = pick(top) as u64;
    let m = m as u64;
    let x = if n <= 1 { below(m) } else { [2, 3, m - 1, m / 2, m / 3, 1 << 16, 123456789][pick(7)] % m };
    let mut e = 1u64;
    for _ in 0..n {
        e = e * x % m;
    }
    check(Z::raw(x as u32).pow(n).val() as u64 == e, "power");
}
/// x^n through x^(2^k) for exponents with two bits
fn sparse<Z: Mint>(m: u32) {
    let (i, j) = (pick(64), pick(64));
    let m = m as u64;
    let x = [2, m - 2, 65537][pick(3)] % m;
    let sq = |k: usize| {
        let mut y = x;
        for _ in 0..k {
            y = y * y % m;
        }
        y
    };
    let n = (1u64 << i) | (1u64 << j);
    let e = if i == j { sq(i) } else { sq(i) * sq(j) % m };
    check(Z::raw(x as u32).pow(n).val() as u64 == e, "power");
}

/// A trait implementor that counts: the value is the number of factors.
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug, Default)]
struct Count(u64);
impl fmt::Display for Count {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl FromStr for Count {
    type Err = Infallible;
    fn from_str(_: &str) -> Result<Self, Infallible> {
        Ok(Count(0))
    }
}
impl<T: RemEuclidU32> From<T> for Count {
    fn from(t: T) -> Self {
        <Count as ModIntBase>::new(t)
    }
}
macro_rules! count_ops {
    ($($t:ident $f:ident $ta:ident $fa:ident $op:ident;)*) => {$(
        impl $t for Count {
            type Output = Count;
            fn $f(self, o: Count) -> Count {
                Count(self.0.$op(o.0))
            }
        }
        impl $ta for Count {
            fn $fa(&mut self, o: Count) {
                self.0 = self.0.$op(o.0);
            }
        }
    )*};
}
// products add their numbers of factors; the other operations are not powers
count_ops! {
    Mul mul MulAssign mul_assign wrapping_add;
    Div div DivAssign div_assign wrapping_sub;
    Add add AddAssign add_assign wrapping_mul;
    Sub sub SubAssign sub_assign wrapping_mul;
}
impl Neg for Count {
    type Output = Count;
    fn neg(self) -> Count {
        self
    }
}
impl ModIntBase for Count {
    fn modulus() -> u32 {
        1000
    }
    fn raw(v: u32) -> Self {
        // one is the empty product
        check(v == 1, "only the unit is created");
        Count(0)
    }
    fn val(self) -> u32 {
        self.0 as u32
    }
    fn inv(self) -> Self {
        Count(self.0.wrapping_neg())
    }
}
harness! {
/// every 64-bit exponent, for an implementor of the trait that counts factors
fn c22_default() {
    let n = any(64);
    check(Count(1).pow(n).0 == n, "number of factors");
}
/// small moduli, all exponents below a bound
fn c22_small() {
    let n = any_by_length(param(0) as u32);
    small!(powers_static, n)
}
fn c22_window() {
    let n = window(param(0) as u32);
    match pick(3) {
        0 => powers_static::<StaticModInt<M2>>(2, n),
        1 => powers_static::<StaticModInt<M6>>(6, n),
        _ => powers_static::<StaticModInt<M9>>(9, n),
    }
}
/// dynamic moduli
fn c22_dynamic() {
    let m = 1 + pick(param(0)) as u32;
    ModInt::set_modulus(m);
    let n = if pick(2) == 0 { any_by_length(param(1) as u32) } else { window(param(2) as u32) };
    powers::<ModInt>(m, n, ModInt::pow)
}
/// the inherent function of static modints
fn c22_own() {
    let n = window(param(0) as u32);
    match pick(3) {
        0 => powers::<StaticModInt<M1>>(1, n, StaticModInt::pow),
        1 => powers::<StaticModInt<M4>>(4, n, StaticModInt::pow),
        _ => powers::<StaticModInt<M3>>(3, n, StaticModInt::pow),
    }
}
fn c22_large() {
    match pick(5) {
        0 => large::<StaticModInt<Mod1000000007>>(1000000007, param(0)),
        1 => large::<StaticModInt<Mod998244353>>(998244353, param(0)),
        2 => large::<StaticModInt<P31>>(1 << 31, param(0)),
        3 => large::<StaticModInt<Mersenne>>(2147483647, param(0)),
        _ => {
            let m = [998244353, 1 << 31, (1 << 31) - 1, 1000003][pick(4)];
            ModInt::set_modulus(m);
            large::<ModInt>(m, param(0))
        }
    }
}
fn c22_sparse() {
    match pick(3) {
        0 => sparse::<StaticModInt<Mod1000000007>>(1000000007),
        1 => sparse::<StaticModInt<P31>>(1 << 31),
        _ => {
            let m = [998244353, 65535][pick(2)];
            ModInt::set_modulus(m);
            sparse::<ModInt>(m)
        }
    }
}
}
