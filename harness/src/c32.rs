//! printing, parsing, hashing of modular integers
use crate::mint::*;
use crate::vp::*;
use rust_cp::misc::modint::{Mod1000000007, Mod998244353, ModInt, StaticModInt};
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::str::FromStr;

moduli! {
    M1 = 1, false; M2 = 2, true; M10 = 10, false; M97 = 97, true; M1000 = 1000, false; M65537 = 65537, true; Half = 1 << 31, false; Mersenne = 2147483647, true;
}
macro_rules! each {
    ($f:ident; $($z:ty = $m:expr),*) => {{
        let k = pick([$($m),*].len() + 4);
        let mut i = 0;
        $(
            if k == i {
                $f::<$z>($m);
            }
            i += 1;
        )*
        if k >= i {
            let m = [3, 1000, 1000000007, 1 << 31][k - i];
            ModInt::set_modulus(m);
            $f::<ModInt>(m);
        }
    }};
}
macro_rules! all {
    ($f:ident) => {
        each!($f; StaticModInt<M1> = 1, StaticModInt<M2> = 2, StaticModInt<M10> = 10, StaticModInt<M97> = 97, StaticModInt<M1000> = 1000, StaticModInt<M65537> = 65537,
            StaticModInt<Half> = 1 << 31, StaticModInt<Mersenne> = 2147483647, StaticModInt<Mod1000000007> = 1000000007, StaticModInt<Mod998244353> = 998244353)
    };
}
/// a residue of a given number of decimal digits, digit by digit
fn decimal(m: u32) -> (u64, Vec<u8>) {
    let top = (m - 1).to_string().len();
    let n = 1 + pick(top);
    let mut s = vec![];
    let mut v = 0;
    // a window of symbolic digits, the others from a pattern
    let w = n.min(param(0));
    let at = pick(n - w + 1);
    let pattern = [b"1000000000", b"2147483647", b"9999999999", b"1070205080"][if n == w { 0 } else { pick(param(1)) }];
    for k in 0..n {
        let d = if k < at || k >= at + w {
            (pattern[k] - b'0') as u64
        } else if k == 0 && n > 1 {
            1 + below(9)
        } else {
            below(10)
        };
        v = v * 10 + d;
        s.push(b'0' + d as u8);
    }
    assume(v < m as u64);
    (v, s)
}
fn print<Z: Mint + Display + Debug>(m: u32) {
    let (v, e) = decimal(m);
    let z = Z::raw(v as u32);
    let s = if pick(2) == 0 { format!("{}", z) } else { format!("{:?}", z) };
    let s = s.as_bytes();
    check(s.len() == e.len(), "number of digits printed");
    let mut ok = true;
    for i in 0..s.len() {
        ok &= s[i] == e[i];
    }
    check(ok, "digits printed");
}
/// printed and parsed again
fn back<Z: Mint + Display + FromStr>(m: u32) {
    let (v, _) = decimal(m);
    let s = Z::raw(v as u32).to_string();
    match s.parse::<Z>() {
        Ok(z) => check(z.val() as u64 == v, "printed and parsed"),
        Err(_) => check(false, "a printed modint is parsed"),
    }
}
/// integers of every length that fit 64 bits
fn parse<Z: Mint + FromStr>(m: u32) {
    let sign = pick(3);
    let mut s = vec![];
    if sign > 0 {
        s.push([b'+', b'-'][sign - 1]);
    }
    // a window of symbolic digits, the others from a pattern
    let n = [1, 2, 3, 5, 8, 10, 11, 15, 18, 19, 20][pick(11)];
    let w = n.min(param(0));
    let at = if n == w { 0 } else { [0, (n - w) / 2, n - w][pick(3)] };
    let pattern = [b"9223372036854775807", b"0000000000000000009"][if n == w { 0 } else { pick(2) }];
    let mut v = 0u128;
    for k in 0..n {
        // twenty digits begin with a zero
        let d = if k >= at && k < at + w && n < 20 { below(10) } else if n < 20 { (pattern[k] - b'0') as u64 } else if k == 0 { 0 } else { (pattern[k - 1] - b'0') as u64 };
        s.push(b'0' + d as u8);
        v = v * 10 + d as u128;
    }
    assume(v <= i64::MAX as u128 + (sign == 2) as u128);
    let r = v as u64 % m as u64;
    let e = if sign == 2 { ite(r == 0, 0, m as u64 - r) } else { r };
    let s = String::from_utf8(s).unwrap();
    match s.parse::<Z>() {
        Ok(z) => check(z.val() as u64 == e, "residue of the integer written"),
        Err(_) => check(false, "an integer is parsed"),
    }
}
/// everything that is written to the hasher
#[derive(Default)]
struct Record(Vec<u64>);
impl Hasher for Record {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.push(100 + b.len() as u64);
        self.0.extend(b.iter().map(|&x| x as u64));
    }
    fn write_u32(&mut self, x: u32) {
        self.0.push(1);
        self.0.push(x as u64);
    }
    fn write_u64(&mut self, x: u64) {
        self.0.push(2);
        self.0.push(x);
    }
}
fn written<T: Hash>(t: &[T]) -> Vec<u64> {
    let mut h = Record::default();
    for x in t {
        x.hash(&mut h);
    }
    h.0
}
/// the same residue from different integers
fn hash<Z: Mint + Hash>(m: u32) {
    let x = below(m as u64);
    let a = Z::raw(x as u32);
    let q = any(24);
    let b = match pick(5) {
        0 => <Z as rust_cp::misc::modint::ModIntBase>::new(x + q * m as u64),
        1 => <Z as rust_cp::misc::modint::ModIntBase>::new(x as i64 - (q * m as u64) as i64),
        2 => {
            let y = Z::raw(below(m as u64) as u32);
            a + y - y
        }
        3 => -(-a),
        _ => a * Z::raw(1 % m),
    };
    check(a == b, "equal residues are equal");
    let (s, t) = (written(&[a, a]), written(&[b, b]));
    check(s.len() == t.len(), "equal modints hash equally");
    for i in 0..s.len() {
        check(s[i] == t[i], "equal modints hash equally");
    }
}
harness! {
fn c32_print() {
    all!(print)
}
fn c32_back() {
    all!(back)
}
fn c32_parse() {
    each!(parse; StaticModInt<M1> = 1, StaticModInt<M97> = 97, StaticModInt<Half> = 1 << 31, StaticModInt<Mod1000000007> = 1000000007)
}
fn c32_hash() {
    all!(hash)
}
}
