//! dynamic modular integers
use crate::mint::*;
use crate::vp::*;
use rust_cp::misc::modint::{Barrett, DefaultId, DynamicModInt, Id, ModInt};

const M: [u32; 34] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 61, 255, 256, 257, 1000, 32768, 46341, 65535, 65536, 65537, 16777259, 1 << 30, (1 << 30) + 1, 998244353, 1000000007,
    1431655765, 2147483629, 2147483646, 2147483647, 1 << 31,
];
fn set<Z>(set: fn(u32), n: usize) -> u32 {
    let m = M[pick(34.min(n))];
    set(m);
    m
}
#[derive(Copy, Clone, PartialEq, Eq)]
enum Own {}
impl Id for Own {
    fn companion_barrett() -> &'static Barrett {
        static B: Barrett = Barrett::new(1000);
        &B
    }
}
type OwnInt = DynamicModInt<Own>;
harness! {
fn c20_arith() {
    let m = set::<ModInt>(ModInt::set_modulus, 34);
    arith::<ModInt>(m)
}
fn c20_product_known() {
    let m = set::<ModInt>(ModInt::set_modulus, 34);
    product_known::<ModInt>(m)
}
fn c20_folds() {
    let m = set::<ModInt>(ModInt::set_modulus, 34);
    folds::<ModInt>(m, param(0), true)
}
fn c20_long_folds() {
    let m = set::<ModInt>(ModInt::set_modulus, 34);
    long_folds::<ModInt>(m, param(0))
}
fn c20_integers() {
    let m = set::<ModInt>(ModInt::set_modulus, 34);
    integers::<ModInt>(m, false)
}
fn c20_creation() {
    let m = set::<ModInt>(ModInt::set_modulus, 34);
    creation::<ModInt>(m)
}
fn c20_wide_ends() {
    let m = set::<ModInt>(ModInt::set_modulus, 34);
    wide_ends::<ModInt>(m)
}
/// without any call, and an identifier with its own initial modulus
fn c20_initial() {
    if pick(2) == 0 {
        check(<DynamicModInt<DefaultId>>::modulus() == 998244353, "default modulus");
        arith::<ModInt>(998244353)
    } else {
        arith::<OwnInt>(1000)
    }
}
/// the modulus set last counts, and identifiers do not share it
fn c20_history() {
    let n = 1 + pick(param(0));
    let (mut m, mut own) = (998244353, 1000);
    for _ in 0..n {
        let v = [1, 7, 65536, 1000000007, 1 << 31][pick(5)];
        if pick(2) == 0 {
            ModInt::set_modulus(v);
            m = v;
        } else {
            OwnInt::set_modulus(v);
            own = v;
        }
        check((ModInt::modulus() == m) & (OwnInt::modulus() == own), "modulus set last");
    }
    if pick(2) == 0 {
        arith::<ModInt>(m)
    } else {
        arith::<OwnInt>(own)
    }
}
/// sums, differences and small quotients for every modulus
fn c20_any_modulus() {
    let m = 1 + any(31) as u32;
    ModInt::set_modulus(m);
    check(ModInt::modulus() == m, "modulus");
    let (x, y) = (any(31), any(31));
    let l = m as u64;
    assume((x < l) & (y < l));
    let (a, b) = (ModInt::raw(x as u32), ModInt::raw(y as u32));
    match pick(4) {
        0 => forms(a, b, 0, ite(x + y < l, x + y, (x + y).wrapping_sub(l)), "sum"),
        1 => forms(a, b, 1, ite(x < y, x + l - y, x.wrapping_sub(y)), "difference"),
        2 => check((-a).val() as u64 == ite(x == 0, 0, l - x), "negation"),
        _ => {
            let k = pick(param(0) * 2) as i64 - param(0) as i64;
            let v = k * l as i64 + x as i64;
            check(ModInt::new(v).val() as u64 == x, "residue");
            if k >= 0 {
                check(ModInt::new(v as u64).val() as u64 == x, "residue");
            }
        }
    }
}
fn c20_zero() {
    may_panic(true);
    if pick(2) == 0 {
        ModInt::set_modulus(0);
    } else {
        OwnInt::set_modulus(0);
    }
    check(false, "modulus 0 accepted");
}
}
