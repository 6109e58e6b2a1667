//! binary logarithms, all 64-bit and 32-bit arguments at once
use crate::vp::*;
use rust_cp::misc::util::{ceil_lg, lg};
harness! {
fn c28_lg() {
    let i = any(64) as usize;
    assume(i >= 1);
    let k = lg(i);
    observe(k as u64);
    check(k < 64, "below 64");
    check((i >> (k & 63)) == 1, "2^k <= i < 2^(k+1)");
}
fn c28_ceil_lg() {
    let n = any(32) as u32;
    let k = ceil_lg(n);
    observe(k as u64);
    check(k <= 32, "at most 32");
    check((1u64 << (k & 63)) >= n as u64, "2^k >= n");
    check((k == 0) | ((1u64 << (k.wrapping_sub(1) & 63)) < n as u64), "smallest k");
}
}
