//! the debugging macro: what it evaluates, and what it writes where
use crate::vp::*;
use rust_cp::{de, debug_single};
use std::cell::RefCell;

/// Standard error and standard output while an expression runs. In the symbolic build the print functions of std
/// are redirected to the two functions below by the executor; a native build redirects the file descriptors.
#[cfg(not(feature = "native"))]
mod out {
    use std::fmt;
    struct Sink(bool);
    static mut TEXT: [(usize, [u8; 2000]); 2] = [(0, [0; 2000]); 2];
    impl fmt::Write for Sink {
        fn write_str(&mut self, s: &str) -> fmt::Result {
            let t = unsafe { &mut *(&raw mut TEXT[self.0 as usize]) };
            for &b in s.as_bytes() {
                t.1[t.0] = b;
                t.0 += 1;
            }
            Ok(())
        }
    }
    #[no_mangle]
    #[inline(never)]
    pub fn vph_eprint(a: fmt::Arguments<'_>) {
        let _ = fmt::write(&mut Sink(true), a);
    }
    #[no_mangle]
    #[inline(never)]
    pub fn vph_print(a: fmt::Arguments<'_>) {
        let _ = fmt::write(&mut Sink(false), a);
    }
    pub fn capture(f: impl FnOnce()) -> (Vec<u8>, Vec<u8>) {
        let t = unsafe { &mut *(&raw mut TEXT) };
        t[0].0 = 0;
        t[1].0 = 0;
        f();
        let t = unsafe { &*(&raw const TEXT) };
        (t[1].1[..t[1].0].to_vec(), t[0].1[..t[0].0].to_vec())
    }
}
#[cfg(feature = "native")]
mod out {
    use std::io::{Read, Write};
    use std::os::fd::FromRawFd;
    extern "C" {
        fn pipe(p: *mut i32) -> i32;
        fn dup(a: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(a: i32) -> i32;
    }
    fn read(fd: i32) -> Vec<u8> {
        let mut v = vec![];
        unsafe { std::fs::File::from_raw_fd(fd) }.read_to_end(&mut v).unwrap();
        v
    }
    pub fn capture(f: impl FnOnce()) -> (Vec<u8>, Vec<u8>) {
        std::io::stdout().flush().unwrap();
        let (mut e, mut o) = ([0; 2], [0; 2]);
        let old = unsafe {
            pipe(e.as_mut_ptr());
            pipe(o.as_mut_ptr());
            let old = (dup(2), dup(1));
            dup2(e[1], 2);
            dup2(o[1], 1);
            close(e[1]);
            close(o[1]);
            old
        };
        f();
        std::io::stdout().flush().unwrap();
        unsafe {
            dup2(old.0, 2);
            dup2(old.1, 1);
            close(old.0);
            close(old.1);
        }
        (read(e[0]), read(o[0]))
    }
}

const DEV: bool = cfg!(debug_assertions);

/// a value whose text is told by two symbolic bits; not Copy
#[derive(Clone, PartialEq)]
struct Thing {
    kind: u64,
    id: u64,
}
const TEXT: [&str; 4] = ["alpha", "b", "", "delta delta"];
impl std::fmt::Debug for Thing {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let k = concretize(self.kind & 3) as usize;
        f.write_str(TEXT[k])
    }
}
fn thing() -> Thing {
    Thing { kind: any(2), id: any(64) }
}
fn find(t: &[u8], from: usize, w: &[u8]) -> usize {
    let mut i = from;
    while i + w.len() <= t.len() {
        if &t[i..i + w.len()] == w {
            return i + w.len();
        }
        i += 1;
    }
    usize::MAX
}
/// names and values appear in this order
fn wrote(got: (Vec<u8>, Vec<u8>), parts: &[&str]) {
    let (err, out) = got;
    check(out.is_empty(), "nothing on standard output");
    if DEV {
        let mut at = 0;
        for p in parts {
            at = find(&err, at, p.as_bytes());
            check(at != usize::MAX, "names and values on standard error in order");
        }
        check(find(&err, 0, b"\n") != usize::MAX, "a line is written");
        cover(true, "written");
    } else {
        check(err.is_empty(), "nothing on standard error in release builds");
        cover(true, "silent");
    }
    observe(err.len() as u64);
}
fn show(t: &Thing) -> &'static str {
    TEXT[concretize(t.kind & 3) as usize]
}

harness! {
/// 1 to 6 arguments with effects, the values symbolic
fn c33_effects() {
    let log = RefCell::new(vec![]);
    let (x, y, z) = (thing(), thing(), thing());
    let eval = |t: &Thing| {
        log.borrow_mut().push(t.clone());
        t.clone()
    };
    let n = 1 + pick(6);
    let got = out::capture(|| match n {
        1 if branch(x.id & 1 == 0) => { de!(eval(&x),); }
        1 => { de!(eval(&x)); }
        2 => { de!(eval(&x), eval(&y)); }
        3 => { de!(eval(&x), eval(&y), eval(&z),); }
        4 => { de!(eval(&x), eval(&y), eval(&z), eval(&y)); }
        5 => { de!(eval(&x), eval(&y), eval(&z), eval(&y), eval(&x)); }
        _ => { de!(eval(&x), eval(&y), eval(&z), eval(&y), eval(&x), eval(&z)); }
    });
    let all = [("eval(&x)", &x), ("eval(&y)", &y), ("eval(&z)", &z), ("eval(&y)", &y), ("eval(&x)", &x), ("eval(&z)", &z)];
    let want = if DEV { n } else { 0 };
    let l = log.borrow();
    check(l.len() == want, "each argument is evaluated once in debug builds, never in release builds");
    let mut ok = true;
    for i in 0..want {
        ok &= (l[i].id == all[i].1.id) & (l[i].kind == all[i].1.kind);
    }
    check(ok, "arguments are evaluated in order");
    let mut parts = vec![];
    for (name, t) in &all[..n] {
        parts.push(*name);
        parts.push(show(t));
    }
    wrote(got, &parts);
}
/// arguments that change a variable: their number of evaluations shows in the result
fn c33_mutation() {
    let start = any(64);
    let (a, b) = (any(64), any(64));
    let mut s = start;
    let kind = any(2);
    let mut step = |k: u64| { s = s.wrapping_mul(3).wrapping_add(k); Thing { kind, id: s } };
    let one = pick(2) == 1;
    let got = out::capture(|| if one { de!(step(a)); } else { de!(step(a), step(b)); });
    let first = start.wrapping_mul(3).wrapping_add(a);
    let want = if !DEV { start } else if one { first } else { first.wrapping_mul(3).wrapping_add(b) };
    check(s == want, "state after the macro");
    let t = TEXT[concretize(kind & 3) as usize];
    if one { wrote(got, &["step(a)", t]) } else { wrote(got, &["step(a)", t, "step(b)", t]) }
}
/// plain variables, references, literals, nested values
fn c33_values() {
    let x = any(7) as u32;
    let flag = branch(any_bool());
    let v = vec![thing(), thing()];
    let r = &v;
    let got = match pick(4) {
        0 => {
            let got = out::capture(|| { de!(x, flag); });
            (got, vec!["x".to_string(), x.to_string(), "flag".to_string(), (if flag { "true" } else { "false" }).to_string()])
        }
        1 => {
            let got = out::capture(|| { de!(r, &v[1]); });
            (got, vec!["r".to_string(), show(&v[0]).to_string(), show(&v[1]).to_string(), "&v[1]".to_string(), show(&v[1]).to_string()])
        }
        2 => {
            let got = out::capture(|| { de!(Some(flag)); });
            (got, vec!["Some(flag)".to_string(), "Some".to_string(), flag.to_string()])
        }
        _ => {
            let got = out::capture(|| { de!((x, flag), "text"); });
            (got, vec!["(x, flag)".to_string(), x.to_string(), flag.to_string(), "\"text\"".to_string(), "text".to_string()])
        }
    };
    let parts: Vec<&str> = got.1.iter().map(|s| &s[..]).collect();
    wrote(got.0, &parts);
    check(v[0].kind < 4, "the values are still there");
}
/// calls inside calls, and the macro without arguments
fn c33_nested() {
    let depth = pick(3);
    let count = RefCell::new(0u64);
    let x = thing();
    fn go(d: usize, x: &Thing, count: &RefCell<u64>) -> Thing {
        *count.borrow_mut() += 1;
        if d > 0 {
            de!(go(d - 1, x, count));
        }
        x.clone()
    }
    let got = out::capture(|| { go(depth, &x, &count); de!(); });
    check(*count.borrow() == if DEV { depth as u64 + 1 } else { 1 }, "number of evaluations");
    let mut parts = vec![];
    for _ in 0..depth { parts.push("go(d - 1, x, count)"); }
    if depth > 0 { parts.push(show(&x)); }
    wrote(got, &parts);
}
}
