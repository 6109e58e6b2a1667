//! provided monoids and numeric constants over every primitive integer type
use crate::vp::*;
use rust_cp::misc::monoids::*;
use rust_cp::traits::monoid::Monoid;
use rust_cp::traits::numeric::*;

trait Any {
    fn arb() -> Self;
    fn see(self);
}
macro_rules! any_small { ($($t:ty, $b:expr);*) => { $(impl Any for $t {
    fn arb() -> $t { any($b) as $t }
    fn see(self) { observe(self as u64 & (u64::MAX >> (64 - $b))) }
})* } }
any_small!(i8, 8; u8, 8; i16, 16; u16, 16; i32, 32; u32, 32; i64, 64; u64, 64; isize, 64; usize, 64);
impl Any for i128 {
    fn arb() -> i128 { any_u128() as i128 }
    fn see(self) { observe(self as u64); observe((self >> 64) as u64) }
}
impl Any for u128 {
    fn arb() -> u128 { any_u128() }
    fn see(self) { observe(self as u64); observe((self >> 64) as u64) }
}
fn e<M: Monoid>() -> M::S {
    M::identity()
}
fn op<M: Monoid>(a: M::S, b: M::S) -> M::S {
    M::binary_operation(&a, &b)
}
macro_rules! per_type { ($pick:expr, $f:ident) => { match $pick {
    0 => $f!(i8), 1 => $f!(u8), 2 => $f!(i16), 3 => $f!(u16), 4 => $f!(i32), 5 => $f!(u32),
    6 => $f!(i64), 7 => $f!(u64), 8 => $f!(isize), 9 => $f!(usize), 10 => $f!(i128), _ => $f!(u128),
} } }
macro_rules! order { ($t:ty) => {{
    let (a, b, c) = (<$t>::arb(), <$t>::arb(), <$t>::arb());
    let m = op::<Max<$t>>(a, b);
    m.see();
    check((m >= a) & (m >= b) & ((m == a) | (m == b)), "larger value");
    check(op::<Max<$t>>(m, c) == op::<Max<$t>>(a, op::<Max<$t>>(b, c)), "max associative");
    check((op::<Max<$t>>(e::<Max<$t>>(), a) == a) & (op::<Max<$t>>(a, e::<Max<$t>>()) == a), "identity of max");
    let m = op::<Min<$t>>(a, b);
    m.see();
    check((m <= a) & (m <= b) & ((m == a) | (m == b)), "smaller value");
    check(op::<Min<$t>>(m, c) == op::<Min<$t>>(a, op::<Min<$t>>(b, c)), "min associative");
    check((op::<Min<$t>>(e::<Min<$t>>(), a) == a) & (op::<Min<$t>>(a, e::<Min<$t>>()) == a), "identity of min");
}} }
macro_rules! sums { ($t:ty) => {{
    let (a, b, c) = (<$t>::arb(), <$t>::arb(), <$t>::arb());
    assume(a.checked_add(b).is_some());
    let s = op::<Additive<$t>>(a, b);
    s.see();
    check(s == a.wrapping_add(b), "sum");
    check(s.wrapping_sub(b) == a, "sum is exact");
    assume(b.checked_add(c).is_some());
    assume(s.checked_add(c).is_some());
    assume(a.checked_add(b.wrapping_add(c)).is_some());
    check(op::<Additive<$t>>(s, c) == op::<Additive<$t>>(a, op::<Additive<$t>>(b, c)), "addition associative");
}} }
macro_rules! units { ($t:ty) => {{
    let a = <$t>::arb();
    check((op::<Additive<$t>>(e::<Additive<$t>>(), a) == a) & (op::<Additive<$t>>(a, e::<Additive<$t>>()) == a), "identity of addition");
    check((op::<Multiplicative<$t>>(e::<Multiplicative<$t>>(), a) == a) & (op::<Multiplicative<$t>>(a, e::<Multiplicative<$t>>()) == a), "identity of multiplication");
    check(<$t as Zero>::zero() == 0, "zero");
    check(<$t as One>::one() == 1, "one");
    let (lo, hi) = (<$t as BoundedBelow>::min_value(), <$t as BoundedAbove>::max_value());
    check((lo <= a) & (a <= hi), "extreme values");
    check((lo == <$t>::MIN) & (hi == <$t>::MAX), "extreme values");
}} }
// factors of half the width (the product always fits)
macro_rules! products { ($t:ty) => {{
    let half = || {
        let h = <$t>::BITS / 2;
        if <$t>::MIN == 0 { any(h) as $t } else { any_i64(h) as $t }
    };
    let (a, b) = (half(), half());
    let s = op::<Multiplicative<$t>>(a, b);
    s.see();
    check(s == a.wrapping_mul(b), "product");
}} }
// one factor from a list, the other any value whose product fits
macro_rules! scaled { ($t:ty) => {{
    let c = [0, 1, 2, 3, 10, 100, <$t>::MAX, <$t>::MAX - 1, <$t>::MIN, <$t>::MIN.wrapping_add(1), (0 as $t).wrapping_sub(1)][pick(11)];
    let a = <$t>::arb();
    let l = concretize(any_bool() as u64) != 0;
    assume(a.checked_mul(c).is_some());
    let s = if l { op::<Multiplicative<$t>>(a, c) } else { op::<Multiplicative<$t>>(c, a) };
    s.see();
    check(s == a.wrapping_mul(c), "product");
}} }
macro_rules! mul_assoc { ($t:ty) => {{
    let (a, b, c) = (<$t>::arb(), <$t>::arb(), <$t>::arb());
    let ok = |x: $t| (x as i128 >= <$t>::MIN as i128) & (x as i128 <= <$t>::MAX as i128) & (x as i128 >= -11) & (x as i128 <= 11);
    assume(ok(a) & ok(b) & ok(c));
    let l = (a as i64) * (b as i64);
    let r = (b as i64) * (c as i64);
    let t = l * (c as i64);
    let fits = |x: i64| (x >= <$t>::MIN as i64) & (x <= (<$t>::MAX as i128).min(1 << 40) as i64);
    assume(fits(l) & fits(r) & fits(t));
    check(op::<Multiplicative<$t>>(op::<Multiplicative<$t>>(a, b), c) == op::<Multiplicative<$t>>(a, op::<Multiplicative<$t>>(b, c)), "multiplication associative");
}} }
harness! {
fn c29_order() {
    per_type!(pick(12), order)
}
fn c29_sums() {
    per_type!(pick(12), sums)
}
fn c29_units() {
    per_type!(pick(12), units)
}
fn c29_products() {
    per_type!(pick(12), products)
}
fn c29_scaled() {
    per_type!(pick(12), scaled)
}
fn c29_product_associative() {
    match pick(2) { 0 => mul_assoc!(i8), _ => mul_assoc!(u8) }
}
}
