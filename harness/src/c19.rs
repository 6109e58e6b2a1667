//! static modular integers
use crate::mint::*;
use crate::vp::*;
use rust_cp::misc::modint::{Mod1000000007, Mod998244353, StaticModInt};

moduli! {
    M1 = 1, false; M2 = 2, true; M3 = 3, true; M4 = 4, false; M7 = 7, true; M10 = 10, false; M255 = 255, false; M256 = 256, false; M65537 = 65537, true;
    P30 = 1 << 30, false; Mersenne = 2147483647, true; P31 = 1 << 31, false; Big = 2147483646, false;
}
macro_rules! each {
    ($f:ident $(, $a:expr)*) => {
        match pick(15) {
            0 => $f::<StaticModInt<M1>>(1 $(, $a)*),
            1 => $f::<StaticModInt<M2>>(2 $(, $a)*),
            2 => $f::<StaticModInt<M3>>(3 $(, $a)*),
            3 => $f::<StaticModInt<M4>>(4 $(, $a)*),
            4 => $f::<StaticModInt<M7>>(7 $(, $a)*),
            5 => $f::<StaticModInt<M10>>(10 $(, $a)*),
            6 => $f::<StaticModInt<M255>>(255 $(, $a)*),
            7 => $f::<StaticModInt<M256>>(256 $(, $a)*),
            8 => $f::<StaticModInt<M65537>>(65537 $(, $a)*),
            9 => $f::<StaticModInt<P30>>(1 << 30 $(, $a)*),
            10 => $f::<StaticModInt<Mersenne>>(2147483647 $(, $a)*),
            11 => $f::<StaticModInt<P31>>(1 << 31 $(, $a)*),
            12 => $f::<StaticModInt<Big>>(2147483646 $(, $a)*),
            13 => $f::<StaticModInt<Mod1000000007>>(1000000007 $(, $a)*),
            _ => $f::<StaticModInt<Mod998244353>>(998244353 $(, $a)*),
        }
    };
}
harness! {
fn c19_arith() {
    each!(arith)
}
fn c19_product_known() {
    each!(product_known)
}
fn c19_folds() {
    each!(folds, param(0), false)
}
fn c19_long_folds() {
    each!(long_folds, param(0))
}
fn c19_integers() {
    each!(integers, true)
}
fn c19_creation() {
    each!(creation)
}
fn c19_wide_ends() {
    each!(wide_ends)
}
}
