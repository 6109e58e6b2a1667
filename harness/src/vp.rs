//! Interface between the harnesses and the symbolic executor. In a native
//! build (feature `native`) the same calls read the values of one path.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn vp_any(bits: u32) -> u64;
        fn vp_assume(c: bool);
        fn vp_assert(c: bool, p: *const u8, n: usize);
        fn vp_observe(v: u64);
        fn vp_cover(c: bool, p: *const u8, n: usize);
        fn vp_may_panic(c: bool);
        fn vp_concretize(v: u64) -> u64;
        fn vp_branch(c: bool) -> bool;
        fn vp_param(i: u64) -> u64;
        fn vp_ite(c: bool, a: u64, b: u64) -> u64;
    }
    /// an arbitrary value of that many bits
    #[inline(always)]
    pub fn any(bits: u32) -> u64 {
        unsafe { vp_any(bits) }
    }
    #[inline(always)]
    pub fn assume(c: bool) {
        unsafe { vp_assume(c) }
    }
    #[inline(always)]
    pub fn check(c: bool, m: &'static str) {
        unsafe { vp_assert(c, m.as_ptr(), m.len()) }
    }
    #[inline(always)]
    pub fn observe(v: u64) {
        unsafe { vp_observe(v) }
    }
    #[inline(always)]
    pub fn cover(c: bool, m: &'static str) {
        unsafe { vp_cover(c, m.as_ptr(), m.len()) }
    }
    #[inline(always)]
    pub fn may_panic(c: bool) {
        unsafe { vp_may_panic(c) }
    }
    /// split the path over every possible value
    #[inline(always)]
    pub fn concretize(v: u64) -> u64 {
        unsafe { vp_concretize(v) }
    }
    #[inline(always)]
    pub fn branch(c: bool) -> bool {
        unsafe { vp_branch(c) }
    }
    /// a bound of the exploration, fixed per run
    #[inline(always)]
    pub fn param(i: u64) -> usize {
        unsafe { vp_param(i) as usize }
    }
    /// selection without splitting the path
    #[inline(always)]
    pub fn ite(c: bool, a: u64, b: u64) -> u64 {
        unsafe { vp_ite(c, a, b) }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    pub struct Ctx {
        pub inputs: Vec<(u32, u128)>,
        pub pos: usize,
        pub params: Vec<(u64, u64)>,
        pub obs: Vec<u64>,
        pub may_panic: bool,
        pub failed: Option<&'static str>,
        pub assume_failed: bool,
        pub short: bool,
    }
    thread_local! {
        pub static CTX: RefCell<Ctx> = RefCell::new(Ctx { inputs: vec![], params: vec![], pos: 0, obs: vec![], may_panic: false, failed: None, assume_failed: false, short: false });
    }
    pub struct Halt;
    pub fn any(bits: u32) -> u64 {
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            let p = c.pos;
            c.pos += 1;
            match c.inputs.get(p).copied() {
                Some((w, v)) => {
                    if w != bits {
                        c.short = true;
                    }
                    v as u64
                }
                None => {
                    c.short = true;
                    0
                }
            }
        })
    }
    pub fn assume(c: bool) {
        if !c {
            CTX.with(|x| x.borrow_mut().assume_failed = true);
            std::panic::resume_unwind(Box::new(Halt));
        }
    }
    pub fn check(c: bool, m: &'static str) {
        if !c {
            CTX.with(|x| x.borrow_mut().failed = Some(m));
            std::panic::resume_unwind(Box::new(Halt));
        }
    }
    pub fn observe(v: u64) {
        CTX.with(|c| c.borrow_mut().obs.push(v));
    }
    pub fn cover(_: bool, _: &'static str) {}
    pub fn may_panic(v: bool) {
        CTX.with(|c| c.borrow_mut().may_panic = v);
    }
    pub fn concretize(v: u64) -> u64 {
        v
    }
    pub fn param(i: u64) -> usize {
        CTX.with(|c| c.borrow().params.iter().find(|p| p.0 == i).expect("parameter").1 as usize)
    }
    pub fn branch(c: bool) -> bool {
        c
    }
    pub fn ite(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
}
pub use imp::*;

/// a value in 0..n, one path per value
pub fn pick(n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    let bits = usize::BITS - (n - 1).leading_zeros();
    let v = any(bits);
    assume(v < n as u64);
    concretize(v) as usize
}
/// a value in 0..n, kept symbolic
pub fn below(n: u64) -> u64 {
    if n == 1 {
        return 0;
    }
    let bits = u64::BITS - (n - 1).leading_zeros();
    let v = any(bits);
    assume(v < n);
    v
}
/// every number of up to `bits` bits, the position of the highest one fixed per path
pub fn any_by_length(bits: u32) -> u64 {
    match pick(bits as usize + 1) {
        0 => 0,
        1 => 1,
        n => (1 << (n - 1)) | any(n as u32 - 1),
    }
}
pub fn any_i64(bits: u32) -> i64 {
    let v = any(bits);
    ((v << (64 - bits)) as i64) >> (64 - bits)
}
pub fn any_bool() -> bool {
    any(1) != 0
}
pub fn any_u128() -> u128 {
    let h = any(64) as u128;
    (h << 64) | any(64) as u128
}

#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $name:ident() $body:block)*) => {
        $( $(#[$m])* #[no_mangle] pub extern "C-unwind" fn $name() $body )*
        #[cfg(feature = "native")]
        pub const ENTRIES: &[(&str, extern "C-unwind" fn())] = &[$((stringify!($name), $name)),*];
    };
}
