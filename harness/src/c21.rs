//! inverse and division of modular integers
use crate::mint::*;
use crate::vp::*;
use rust_cp::misc::modint::{Mod1000000007, Mod998244353, ModInt, ModIntBase, StaticModInt};

moduli! {
    P2 = 2, true; P3 = 3, true; P5 = 5, true; P7 = 7, true; P13 = 13, true; P31 = 31, true; P61 = 61, true;
    M1 = 1, false; M2 = 2, false; M4 = 4, false; M6 = 6, false; M7 = 7, false; M9 = 9, false; M12 = 12, false; M16 = 16, false; M30 = 30, false; M49 = 49, false;
    M64 = 64, false; Half = 1 << 31, false; Even = 2147483646, false; Squares = 1000000000, false; PlainPrime = 1000000007, false; Mersenne = 2147483647, true; F4 = 65537, true;
}
fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
/// bit a is set iff a has an inverse
fn units(m: u32) -> u64 {
    (0..m as u64).fold(0, |s, a| s | (((gcd(a, m as u64) == 1) as u64) << a))
}
fn small<Z: Mint>(m: u32) {
    let u = units(m);
    let m = m as u64;
    let a = below(m);
    let z = Z::raw(a as u32);
    if branch(u >> a & 1 == 1) {
        let x = z.inv().val() as u64;
        observe(x);
        check(x < m, "in range");
        check(a * x % m == 1 % m, "inverse");
    } else {
        may_panic(true);
        if pick(2) == 0 {
            z.inv();
        } else {
            let b = Z::raw(below(m) as u32);
            let _ = b / z;
        }
        check(false, "inverse of a residue that has none");
    }
}
/// b = q * a is divided by a in every form
fn division<Z: Mint>(m: u32) {
    let u = units(m);
    let m = m as u64;
    let a = pick(m as usize) as u64;
    let z = Z::raw(a as u32);
    let b = below(m);
    if u >> a & 1 == 1 {
        let q = (Z::raw(b as u32) / z).val() as u64;
        observe(q);
        check(q < m, "in range");
        check(q * a % m == b, "quotient");
        forms(Z::raw(b as u32), z, 3, q, "forms of division agree");
    } else {
        may_panic(true);
        match pick(4) {
            0 => forms(Z::raw(b as u32), z, 3, 0, "division by a residue without inverse"),
            1 => {
                let _ = Z::raw(b as u32) / &z;
            }
            2 => {
                let mut c = Z::raw(b as u32);
                c /= z;
            }
            _ => {
                let mut c = Z::raw(b as u32);
                c /= &z;
            }
        }
        check(false, "quotient by a residue without inverse");
    }
}
fn large<Z: Mint>(m: u32) {
    large_with::<Z>(m, true)
}
fn large_with<Z: Mint>(m: u32, sym: bool) {
    let m = m as u64;
    let t = pick(64) as u64;
    let a = match pick(5) {
        0 => t % m,
        1 => (m - 1 - t % m) % m,
        2 => m / (t + 1) % m,
        3 => (1 << (t % 32)) % m,
        _ => t.wrapping_mul(2654435769) % m,
    };
    let z = Z::raw(a as u32);
    if gcd(a, m) == 1 {
        let x = z.inv().val() as u64;
        check(x < m, "in range");
        check(a * x % m == 1, "inverse");
        let b = if sym { below(m) } else { [0, 1, m - 1, m / 2, a, m - a, (1 << 30) % m, 65535][pick(8)] % m };
        let q = (Z::raw(b as u32) / z).val() as u64;
        check(q < m, "in range");
        check(q * a % m == b, "quotient");
    } else {
        may_panic(true);
        z.inv();
        check(false, "inverse of a residue that has none");
    }
}
macro_rules! integer {
    ($a:expr, $b:expr, $q:expr, $m:expr; $($t:ty)*) => {{
        let k = pick(24);
        let mut i = 0;
        $(
            if k / 2 == i {
                // the divisor as it is, or another representative of its residue
                let d = if k % 2 == 0 { $b as $t } else if <$t>::MIN == 0 { ($b + $m) as $t } else { ($b as $t).wrapping_sub($m as $t) };
                let mut c = $a;
                c /= d;
                check(($a / d).val() as u64 == $q, "quotient by an integer");
                check(c.val() as u64 == $q, "quotient by an integer");
            }
            i += 1;
        )*
        let _ = i;
    }};
}
fn by_integer<Z>(m: u32)
where
    Z: Mint + Ops<i8> + Ops<i16> + Ops<i32> + Ops<i64> + Ops<i128> + Ops<isize> + Ops<u8> + Ops<u16> + Ops<u32> + Ops<u64> + Ops<u128> + Ops<usize>,
{
    let u = units(m);
    let b = pick(m as usize) as u64;
    assume(u >> b & 1 == 1);
    let m = m as u64;
    let q = below(m);
    let a = Z::raw((q * b % m) as u32);
    integer!(a, b, q, m; i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize)
}
macro_rules! each {
    ($f:ident; $($z:ty = $m:expr),*) => {{
        let k = pick([$($m),*].len());
        let mut i = 0;
        $(
            if k == i {
                $f::<$z>($m);
            }
            i += 1;
        )*
        let _ = i;
    }};
}
fn dynamic(top: usize) -> u32 {
    let m = 1 + pick(top) as u32;
    ModInt::set_modulus(m);
    m
}
harness! {
fn c21_prime() {
    each!(small; StaticModInt<P2> = 2, StaticModInt<P3> = 3, StaticModInt<P5> = 5, StaticModInt<P7> = 7, StaticModInt<P13> = 13, StaticModInt<P31> = 31, StaticModInt<P61> = 61)
}
fn c21_composite() {
    each!(small; StaticModInt<M1> = 1, StaticModInt<M2> = 2, StaticModInt<M4> = 4, StaticModInt<M6> = 6, StaticModInt<M7> = 7, StaticModInt<M9> = 9, StaticModInt<M12> = 12,
        StaticModInt<M16> = 16, StaticModInt<M30> = 30, StaticModInt<M49> = 49, StaticModInt<M64> = 64)
}
fn c21_dynamic() {
    small::<ModInt>(dynamic(param(0)))
}
fn c21_division() {
    each!(division; StaticModInt<P2> = 2, StaticModInt<P7> = 7, StaticModInt<P13> = 13, StaticModInt<M1> = 1, StaticModInt<M4> = 4, StaticModInt<M9> = 9,
        StaticModInt<M12> = 12, StaticModInt<M30> = 30)
}
fn c21_division_dynamic() {
    division::<ModInt>(dynamic(param(0)))
}
fn c21_integers() {
    if pick(3) == 0 {
        let m = dynamic(param(0));
        by_integer::<ModInt>(m)
    } else {
        each!(by_integer; StaticModInt<P3> = 3, StaticModInt<P13> = 13, StaticModInt<M1> = 1, StaticModInt<M12> = 12, StaticModInt<M30> = 30)
    }
}
fn c21_large() {
    each!(large; StaticModInt<Mod1000000007> = 1000000007, StaticModInt<Mod998244353> = 998244353, StaticModInt<Mersenne> = 2147483647, StaticModInt<F4> = 65537,
        StaticModInt<Half> = 1 << 31, StaticModInt<Even> = 2147483646, StaticModInt<Squares> = 1000000000, StaticModInt<PlainPrime> = 1000000007)
}
fn c21_large_dynamic() {
    let m = [65536, 65537, 998244353, 1000000007, 1000000000, 1431655765, 2147483646, 2147483647, 1 << 31][pick(9)];
    ModInt::set_modulus(m);
    large_with::<ModInt>(m, false)
}
/// m = k * g for every g: no residue that is a multiple of g has an inverse
fn c21_scaled() {
    let k = 1 + pick(param(0)) as u64;
    let g = 1 + any(25);
    assume(g > 1);
    ModInt::set_modulus((k * g) as u32);
    may_panic(true);
    ModInt::raw((pick(k as usize) as u64 * g) as u32).inv();
    check(false, "inverse of a residue that has none");
}
}
