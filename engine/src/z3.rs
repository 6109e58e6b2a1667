//! Minimal hand-written binding to the Z3 C API.
#![allow(non_camel_case_types, non_snake_case)]
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
pub type P = *mut c_void;
extern "C" {
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_interrupt(c: P);
    fn setitimer(which: i32, new: *const [i64; 4], old: *mut [i64; 4]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, id: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_is_numeral_ast(c: P, a: P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
        if std::env::var("SYMIR_BT").is_ok() {
            eprintln!("{}", std::backtrace::Backtrace::force_capture());
        }
        std::process::exit(2);
    }
}
pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

// A query that overruns is interrupted; one that does not react ends the process.
static WATCHED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
static ALARMS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub static QUERY_LIMIT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(60);
extern "C" {
    fn _exit(c: i32) -> !;
}
extern "C" fn on_alarm(_: i32) {
    use std::sync::atomic::Ordering::SeqCst;
    let c = WATCHED.load(SeqCst);
    if c == 0 {
        return;
    }
    if ALARMS.fetch_add(1, SeqCst) >= 10 {
        unsafe { _exit(77) }
    }
    unsafe { Z3_interrupt(c as P) }
}
fn watch(c: P) {
    use std::sync::atomic::Ordering::SeqCst;
    unsafe { signal(14, on_alarm as *const () as usize) };
    ALARMS.store(0, SeqCst);
    WATCHED.store(c as usize, SeqCst);
    let v = [2, 0, QUERY_LIMIT.load(SeqCst) as i64, 0];
    unsafe { setitimer(0, &v, std::ptr::null_mut()) };
}
fn unwatch() {
    WATCHED.store(0, std::sync::atomic::Ordering::SeqCst);
    let v = [0, 0, 0, 0];
    unsafe { setitimer(0, &v, std::ptr::null_mut()) };
}

use crate::expr::*;

pub struct Z3 {
    c: P,
    s: P,
    memo: FxMap<Id, P>,
    memo_bv: FxMap<Id, P>,
    sorts: FxMap<u8, P>,
    bit: [P; 2],
    syms: FxMap<u64, P>,
    stack: Vec<Id>,
    rlimit: u32,
    asserts: usize,
}

pub enum Res {
    Sat(Vec<u128>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mut z = Z3 { c, s: std::ptr::null_mut(), memo: Default::default(), memo_bv: Default::default(), sorts: Default::default(), bit: [std::ptr::null_mut(); 2], syms: Default::default(), stack: vec![], rlimit, asserts: 0 };
            for i in 0..2 {
                let s = CString::new(i.to_string()).unwrap();
                let t = z.sort(1);
                let p = Z3_mk_numeral(z.c, s.as_ptr(), t);
                Z3_inc_ref(z.c, p);
                z.bit[i] = p;
            }
            z.new_solver();
            z
        }
    }
    fn new_solver(&mut self) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            let simple = std::env::var("SYMIR_SIMPLE").is_ok();
            let s = if simple {
                Z3_mk_simple_solver(self.c)
            } else {
                let l = CString::new("QF_BV").unwrap();
                Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()))
            };
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), self.rlimit);
            Z3_solver_set_params(self.c, s, p);
            self.s = s;
            self.stack.clear();
            self.asserts = 0;
        }
    }
    fn sort(&mut self, w: u8) -> P {
        if let Some(&p) = self.sorts.get(&w) {
            return p;
        }
        unsafe {
            let p = if w == 0 { Z3_mk_bool_sort(self.c) } else { Z3_mk_bv_sort(self.c, w as c_uint) };
            Z3_inc_ref(self.c, p);
            self.sorts.insert(w, p);
            p
        }
    }
    fn var(&mut self, ix: u64, w: u8) -> P {
        if let Some(&p) = self.syms.get(&ix) {
            return p;
        }
        unsafe {
            let t = self.sort(if w == 1 { 0 } else { w });
            let s = CString::new(format!("v{}", ix)).unwrap();
            let p = Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), t);
            Z3_inc_ref(self.c, p);
            self.syms.insert(ix, p);
            p
        }
    }
    fn keep(&mut self, e: Id, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        self.memo.insert(e, p);
        p
    }
    /// Translate; width-1 expressions become Bool, others bit-vectors.
    pub fn tr(&mut self, ar: &Arena, e: Id) -> P {
        if let Some(&p) = self.memo.get(&e) {
            return p;
        }
        let n = ar.n(e);
        let c = self.c;
        unsafe {
            let r = match n.op {
                Op::Const => {
                    if n.w == 1 {
                        if n.k != 0 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else {
                        let s = CString::new(n.k.to_string()).unwrap();
                        let t = self.sort(n.w);
                        Z3_mk_numeral(c, s.as_ptr(), t)
                    }
                }
                Op::Var => self.var(n.k as u64, n.w),
                Op::Ite => {
                    let (x, y, z) = (self.tr(ar, n.a), self.tr(ar, n.b), self.tr(ar, n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::ZExt | Op::SExt => {
                    let wa = ar.w(n.a);
                    let x = self.tr_bv(ar, n.a);
                    let d = (n.w - wa) as c_uint;
                    if n.op == Op::ZExt {
                        Z3_mk_zero_ext(c, d, x)
                    } else {
                        Z3_mk_sign_ext(c, d, x)
                    }
                }
                Op::Extract => {
                    let x = self.tr_bv(ar, n.a);
                    let y = Z3_mk_extract(c, n.k as c_uint + n.w as c_uint - 1, n.k as c_uint, x);
                    if n.w == 1 {
                        Z3_inc_ref(c, y);
                        Z3_mk_eq(c, y, self.bit[1])
                    } else {
                        y
                    }
                }
                Op::Concat => {
                    let (x, y) = (self.tr_bv(ar, n.a), self.tr_bv(ar, n.b));
                    Z3_mk_concat(c, x, y)
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let (x, y) = (self.tr(ar, n.a), self.tr(ar, n.b));
                    let v = [x, y];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => {
                            if n.b == T {
                                Z3_mk_not(c, x)
                            } else {
                                Z3_mk_xor(c, x, y)
                            }
                        }
                    }
                }
                _ => {
                    let one = ar.w(n.a) == 1 && n.op != Op::Eq;
                    let (x, y) = if one { (self.tr_bv(ar, n.a), self.tr_bv(ar, n.b)) } else { (self.tr(ar, n.a), self.tr(ar, n.b)) };
                    let f = match n.op {
                        Op::Add => Z3_mk_bvadd,
                        Op::Sub => Z3_mk_bvsub,
                        Op::Mul => Z3_mk_bvmul,
                        Op::UDiv => Z3_mk_bvudiv,
                        Op::SDiv => Z3_mk_bvsdiv,
                        Op::URem => Z3_mk_bvurem,
                        Op::SRem => Z3_mk_bvsrem,
                        Op::And => Z3_mk_bvand,
                        Op::Or => Z3_mk_bvor,
                        Op::Xor => Z3_mk_bvxor,
                        Op::Shl => Z3_mk_bvshl,
                        Op::LShr => Z3_mk_bvlshr,
                        Op::AShr => Z3_mk_bvashr,
                        Op::Eq => Z3_mk_eq,
                        Op::Ult => Z3_mk_bvult,
                        Op::Ule => Z3_mk_bvule,
                        Op::Slt => Z3_mk_bvslt,
                        Op::Sle => Z3_mk_bvsle,
                        _ => unreachable!(),
                    };
                    let r = f(c, x, y);
                    if one && !matches!(n.op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                        Z3_inc_ref(c, r);
                        Z3_mk_eq(c, r, self.bit[1])
                    } else {
                        r
                    }
                }
            };
            self.keep(e, r)
        }
    }
    fn tr_bv(&mut self, ar: &Arena, e: Id) -> P {
        let x = self.tr(ar, e);
        if ar.w(e) != 1 {
            return x;
        }
        if let Some(&p) = self.memo_bv.get(&e) {
            return p;
        }
        unsafe {
            let p = Z3_mk_ite(self.c, x, self.bit[1], self.bit[0]);
            Z3_inc_ref(self.c, p);
            self.memo_bv.insert(e, p);
            p
        }
    }
    /// Satisfiability of pc /\ extra. The solver keeps the path condition as a
    /// stack of scopes, so consecutive queries on related paths share work.
    pub fn check(&mut self, ar: &Arena, pc: &[Id], extra: Id) -> Res {
        unsafe {
            if self.asserts > 20000 {
                self.new_solver();
            }
            let mut i = 0;
            while i < self.stack.len() && i < pc.len() && self.stack[i] == pc[i] {
                i += 1;
            }
            if i < self.stack.len() {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - i) as c_uint);
                self.stack.truncate(i);
            }
            for &e in &pc[i..] {
                let p = self.tr(ar, e);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, p);
                self.asserts += 1;
                self.stack.push(e);
            }
            let q = self.tr(ar, extra);
            Z3_solver_push(self.c, self.s);
            Z3_solver_assert(self.c, self.s, q);
            self.asserts += 1;
            watch(self.c);
            let r = Z3_solver_check(self.c, self.s);
            unwatch();
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let nv = ar.var_names.len();
                    let mut vals = vec![0u128; nv];
                    for v in 0..nv {
                        let w = ar.var_names[v].1;
                        let x = self.var(v as u64, w);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, x, true, &mut o) {
                            Z3_inc_ref(self.c, o);
                            if w == 1 {
                                vals[v] = (Z3_get_bool_value(self.c, o) == 1) as u128;
                            } else {
                                let mut u = 0u64;
                                if w <= 64 && Z3_get_numeral_uint64(self.c, o, &mut u) {
                                    vals[v] = u as u128;
                                } else {
                                    let s = std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, o));
                                    vals[v] = s.to_str().unwrap().parse().unwrap_or(0);
                                }
                            }
                            Z3_dec_ref(self.c, o);
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(vals)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        }
    }
}

extern "C" {
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_get_ast_kind(c: P, a: P) -> c_uint;
    fn Z3_to_app(c: P, a: P) -> P;
    fn Z3_get_app_num_args(c: P, a: P) -> c_uint;
    fn Z3_get_app_arg(c: P, a: P, i: c_uint) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
}
/// A plain context for the integer encoding.
pub struct Ctx {
    c: P,
    s: P,
    pub all_bounds: Vec<P>,
    ints: P,
    bools: P,
}
pub struct Model {
    c: P,
    m: P,
}
impl Ctx {
    pub fn new() -> Ctx {
        unsafe {
            // the Diophantine module can run on without looking at the resource limit
            Z3_global_param_set(b"lp.dio\0".as_ptr() as _, b"false\0".as_ptr() as _);
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let ints = Z3_mk_int_sort(c);
            Z3_inc_ref(c, ints);
            let bools = Z3_mk_bool_sort(c);
            Z3_inc_ref(c, bools);
            Ctx { c, s: std::ptr::null_mut(), all_bounds: vec![], ints, bools }
        }
    }
    pub fn new_solver(&mut self, logic: Option<&str>, rlimit: u32) {
        unsafe {
            if !self.s.is_null() {
                Z3_solver_dec_ref(self.c, self.s);
            }
            let s = match logic {
                None => Z3_mk_simple_solver(self.c),
                Some(l) => {
                    let l = CString::new(l).unwrap();
                    Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, l.as_ptr()))
                }
            };
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), rlimit);
            Z3_solver_set_params(self.c, s, p);
            self.s = s;
        }
    }
    // every term is kept alive: the tables of the caller refer to them
    fn own(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        p
    }
    pub fn keep(&self, p: P) {
        unsafe { Z3_inc_ref(self.c, p) };
    }
    pub fn int_sort(&self) -> P {
        self.ints
    }
    pub fn bool_sort(&self) -> P {
        self.bools
    }
    pub fn numeral(&self, s: &str, t: P) -> P {
        let s = CString::new(s).unwrap();
        self.own(unsafe { Z3_mk_numeral(self.c, s.as_ptr(), t) })
    }
    pub fn konst(&self, s: &str, t: P) -> P {
        let s = CString::new(s).unwrap();
        self.own(unsafe { Z3_mk_const(self.c, Z3_mk_string_symbol(self.c, s.as_ptr()), t) })
    }
    pub fn boolean(&self, b: bool) -> P {
        self.own(unsafe {
            if b {
                Z3_mk_true(self.c)
            } else {
                Z3_mk_false(self.c)
            }
        })
    }
    pub fn and(&self, a: P, b: P) -> P {
        let v = [a, b];
        self.own(unsafe { Z3_mk_and(self.c, 2, v.as_ptr()) })
    }
    pub fn or(&self, a: P, b: P) -> P {
        let v = [a, b];
        self.own(unsafe { Z3_mk_or(self.c, 2, v.as_ptr()) })
    }
    pub fn xor(&self, a: P, b: P) -> P {
        self.own(unsafe { Z3_mk_xor(self.c, a, b) })
    }
    pub fn eq(&self, a: P, b: P) -> P {
        self.own(unsafe { Z3_mk_eq(self.c, a, b) })
    }
    pub fn ite(&self, a: P, b: P, d: P) -> P {
        self.own(unsafe { Z3_mk_ite(self.c, a, b, d) })
    }
    pub fn not(&self, a: P) -> P {
        self.own(unsafe { Z3_mk_not(self.c, a) })
    }
    pub fn le(&self, a: P, b: P) -> P {
        self.own(unsafe { Z3_mk_le(self.c, a, b) })
    }
    pub fn lt(&self, a: P, b: P) -> P {
        self.own(unsafe { Z3_mk_lt(self.c, a, b) })
    }
    pub fn add(&self, v: &[P]) -> P {
        self.own(unsafe { Z3_mk_add(self.c, v.len() as c_uint, v.as_ptr()) })
    }
    pub fn mul(&self, a: P, b: P) -> P {
        let v = [a, b];
        self.own(unsafe { Z3_mk_mul(self.c, 2, v.as_ptr()) })
    }
    pub fn assert(&self, p: P) {
        unsafe { Z3_solver_assert(self.c, self.s, p) }
    }
    pub fn push(&self) {
        unsafe { Z3_solver_push(self.c, self.s) }
    }
    pub fn pop(&self, n: usize) {
        if n > 0 {
            unsafe { Z3_solver_pop(self.c, self.s, n as c_uint) }
        }
    }
    pub fn kids(&self, p: P, out: &mut Vec<P>) {
        unsafe {
            if Z3_get_ast_kind(self.c, p) == 1 {
                let a = Z3_to_app(self.c, p);
                for i in 0..Z3_get_app_num_args(self.c, a) {
                    out.push(Z3_get_app_arg(self.c, a, i));
                }
            }
        }
    }
    pub fn text(&self) -> String {
        unsafe { std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s)).to_string_lossy().into_owned() + "\n(check-sat)\n" }
    }
    pub fn check(&self) -> i32 {
        watch(self.c);
        let r = unsafe { Z3_solver_check(self.c, self.s) };
        unwatch();
        r
    }
    pub fn with_model(&self, mut f: impl FnMut(&Model)) {
        unsafe {
            let m = Z3_solver_get_model(self.c, self.s);
            Z3_model_inc_ref(self.c, m);
            f(&Model { c: self.c, m });
            Z3_model_dec_ref(self.c, m);
        }
    }
}
impl Model {
    fn eval<T>(&self, p: P, f: impl Fn(P) -> Option<T>) -> Option<T> {
        unsafe {
            let mut o: P = std::ptr::null_mut();
            if !Z3_model_eval(self.c, self.m, p, false, &mut o) {
                return None;
            }
            Z3_inc_ref(self.c, o);
            let r = if o == p { None } else { f(o) };
            Z3_dec_ref(self.c, o);
            r
        }
    }
    pub fn boolean(&self, p: P) -> Option<bool> {
        self.eval(p, |o| unsafe {
            match Z3_get_bool_value(self.c, o) {
                1 => Some(true),
                -1 => Some(false),
                _ => None,
            }
        })
    }
    pub fn number(&self, p: P) -> Option<String> {
        self.eval(p, |o| unsafe { Z3_is_numeral_ast(self.c, o).then(|| std::ffi::CStr::from_ptr(Z3_get_numeral_string(self.c, o)).to_string_lossy().into_owned()) })
    }
}
