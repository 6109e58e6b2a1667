//! primality, primitive roots
use crate::vp::*;
use rust_cp::math::internal_math::vp_hooks::{is_prime, primitive_root};

/// every composite number below 2^31 that passes the strong test for two of the bases 2, 7, 61
const TWO_BASES: &[i32] = &[
    79381, 178709, 314821, 721801, 764941, 916327, 954271, 1024651, 1590751, 1869211, 1963501, 2205967, 2269093, 2284453, 2387797, 2814283, 3383353, 3539101, 5090821, 5489641, 6386993, 6969511, 9006401, 9863461, 12890503, 15188557, 19328653, 20261251, 22187791, 27509653, 31470211, 36307981, 36765901, 37649503, 37769887, 42984589, 47131657, 48191653, 51302353, 53638903, 58449847, 58986091, 59631211, 60229121, 60581401, 69885649, 72543547, 73527301, 74927161, 77594653, 79417801, 87558127, 94612771, 94775927, 96904081, 98907997, 99115297, 100662941, 115804501, 116090081, 118277581, 132338881, 134767153, 135969401, 137932321, 143168581, 146884393, 147287141, 149848201, 150155039, 152368133, 157405249, 165283471, 167692141, 169234003, 178482151, 179820257, 180497633, 184081577, 189714193, 192241901, 192857761, 206504033, 220222297, 226359547, 238171201, 240785047, 252853921, 257590661, 258503701, 284166877, 284736091, 299736181, 315351521, 329153653, 342614533, 348989101, 351910021, 359394751, 373669453, 382536001, 410680357, 414368641, 415476343, 417779909, 418192133, 418196489, 418226581, 461272267, 464012033, 471168253, 471697799, 475969231, 482164597, 483029821, 493108481, 518820101, 529214311, 552163333, 554494951, 568902001, 576691741, 579956653, 588942847, 599135767, 651514753, 659526601, 682528687, 702683101, 705883951, 746331041, 751705597, 753594001, 756205633, 773131927, 776728661, 816024161, 830664451, 842824981, 858687103, 878940833, 897756751, 910202509, 920375821, 921134551, 932098133, 932148253, 967714021, 1009140161, 1011319501, 1027744453, 1034283421, 1054999441, 1064519011, 1070941987, 1072898711, 1084444481, 1138471951, 1168256953, 1182385121, 1183338241, 1213347691, 1221127013, 1262139271, 1301504497, 1392189569, 1397357851, 1414154827, 1417897909, 1432548937, 1461307717, 1464568381, 1497221281, 1528102801, 1574362441, 1579079503, 1617921667, 1638294661, 1650682153, 1716774481, 1760706811, 1792442737, 1804906517, 1856689453, 1899525601, 1909566073, 1914303841, 1921309633, 1930534453, 1934350351, 1943951041, 2039888131, 2057835781, 2101744837, 2141340833,
];
/// primes p whose smallest generator depends on one prime factor of p - 1 (2, ..., 31; the largest,
/// simple or squared): without it a smaller number would pass
const DECISIVE: &[i32] = &[2473, 2551, 3373, 3881, 4421, 4591, 4943, 5981, 6043, 6271, 6287, 6359, 7151, 7481, 540488989, 549831649, 560929253, 613174157, 617994077, 633648391, 634809671, 711277753, 736616021, 898403761, 985768501, 1073790649, 1131110401, 1131776389, 1312520389, 1427876297, 1445343329, 1464995801, 1484250931, 1503298171, 1724050411, 2038944961, 3631, 4051, 4733, 5881, 7841, 12101, 714851, 727777, 744833, 762049, 895571, 933157, 13669, 17539, 33289, 42373, 42743, 56951, 269879, 270937, 271769, 275503, 278321, 284231];
fn prime(n: i64) -> bool {
    if n < 2 {
        return false;
    }
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return false;
        }
        d += 1;
    }
    true
}
fn power(mut b: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1 % m;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % m;
        }
        b = b * b % m;
        e >>= 1;
    }
    r
}
/// the smallest generator of the group of a prime p
fn smallest_root(p: u64) -> u64 {
    let mut f = vec![];
    let mut x = p - 1;
    let mut d = 2;
    while d * d <= x {
        if x % d == 0 {
            f.push(d);
            while x % d == 0 {
                x /= d;
            }
        }
        d += 1;
    }
    if x > 1 {
        f.push(x);
    }
    (1..p).find(|&g| f.iter().all(|&q| power(g, (p - 1) / q, p) != 1)).unwrap()
}
harness! {
/// every n that is not positive or even
fn c31_not_odd() {
    let n = any(32) as u32 as i32;
    assume((n <= 1) | (n & 1 == 0));
    check(is_prime(n) == (n == 2), "even or below 2");
}
/// every odd n below a bound
fn c31_small() {
    let n = (2 * (pick(1 << (param(0) - 4)) as u64 * 16 + concretize(any(4))) + 1) as i32;
    check(is_prime(n) == prime(n as i64), "primality");
}
/// n around ends, squares and products
fn c31_near() {
    let b = [65536i64, 46341 * 46341, 46339 * 46339, 46337 * 46337, 1 << 24, 1 << 28, 1 << 30, 1000000007, 998244353, 4759123, 2047 * 4095, i32::MAX as i64 - 7][pick(12)];
    let k = any(param(0) as u32) as i64;
    let n = b - (1 << (param(0) - 1)) + k;
    assume(n <= i32::MAX as i64);
    let n = concretize(n as u64) as i32;
    check(is_prime(n) == prime(n as i64), "primality");
}
/// composites that only one of the three bases reveals
fn c31_two_bases() {
    check(!is_prime(TWO_BASES[pick(TWO_BASES.len())]), "strong pseudoprime");
}
/// Carmichael numbers, prime powers, products of two primes
fn c31_composites() {
    let p = [3i64, 5, 7, 11, 13, 61, 67, 127, 211, 1009, 4093][pick(11)];
    let q = [3i64, 7, 13, 61, 2 * p - 1, 3 * p - 2, 4 * p + 3, p, p * p][pick(9)];
    let n = p * q;
    assume(n <= i32::MAX as i64);
    check(!is_prime(n as i32), "product");
}
/// every prime below a bound
fn c31_root_small() {
    let p = (pick(1 << (param(0) - 4)) as u64 * 16 + concretize(any(4))) as i64;
    assume(prime(p));
    check(primitive_root(p as i32) as u64 == smallest_root(p as u64), "smallest primitive root");
}
/// the listed primes and others of 20 to 31 bits
fn c31_root_large() {
    let (p, g) = [
        (167772161, 3), (469762049, 3), (754974721, 11), (998244353, 3), (1000000007, 0), (2147483647, 0), (2147483629, 0), (1000003, 0), (1224736769, 0), (2013265921, 0),
        (2113929217, 0), (1811939329, 0), (1004535809, 0), (65537, 0), (1000000009, 0), (2147483579, 0), (223092871, 0), (1048573, 0),
    ][pick(18)];
    assume(prime(p as i64));
    let r = primitive_root(p) as u64;
    check(r == if g > 0 { g } else { smallest_root(p as u64) }, "primitive root");
    check(power(r, (p as u64 - 1) / 2, p as u64) == p as u64 - 1, "generator");
}
/// one factor of p - 1 decides
fn c31_root_decisive() {
    let p = DECISIVE[pick(DECISIVE.len())];
    check(primitive_root(p) as u64 == smallest_root(p as u64), "smallest primitive root");
}
}
