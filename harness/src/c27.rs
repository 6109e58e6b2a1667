//! recursive-function wrappers of every arity against a plain recursive
//! function with the same body
use crate::vp::*;
use rust_cp::misc::recursive_function::*;

/// the body every closure below evaluates, as an ordinary recursive function:
/// `left` (captured) bounds the number of calls, `log` (captured) records them
fn model(args: &[u64], left: &mut u64, log: &mut Vec<u64>, two: bool) -> u64 {
    log.extend_from_slice(args);
    if *left == 0 {
        let mut r = 1u64;
        for a in args {
            r = r.wrapping_mul(3).wrapping_add(*a);
        }
        return r;
    }
    *left -= 1;
    let mut rot: Vec<u64> = args.to_vec();
    if !rot.is_empty() {
        rot.rotate_left(1);
        rot[0] = rot[0].wrapping_add(7);
    }
    let p = model(&rot, left, log, two);
    log.push(p);
    let mut r = p.wrapping_mul(5).wrapping_add(args.first().copied().unwrap_or(1));
    if two {
        if !rot.is_empty() {
            rot[0] = p;
        }
        let q = model(&rot, left, log, two);
        r = r.wrapping_mul(2).wrapping_add(q);
        r = r.wrapping_add(args.last().copied().unwrap_or(3));
    }
    r
}
fn same(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
macro_rules! arity {
    ($f:ident, $name:ident, $($a:ident),*; $first:ident; $($rest:ident),*) => {
        fn $f() {
            let left0 = pick(param(0)) as u64;
            let two = any_bool();
            let two = concretize(two as u64) != 0;
            let args: Vec<u64> = vec![$({ let $a = any(64); $a }),*];
            let mut left = left0;
            let mut log: Vec<u64> = vec![];
            let mut calls = 0u64;
            let r2;
            let mut i = 0;
            $(let $a = args[i]; i += 1;)*
            let _ = i;
            let r1 = {
                let mut f = $name::new(|s, $($a: u64),*| -> u64 {
                    calls += 1;
                    log.extend_from_slice(&[$($a),*]);
                    if left == 0 {
                        let mut r = 1u64;
                        $(r = r.wrapping_mul(3).wrapping_add($a);)*
                        return r;
                    }
                    left -= 1;
                    let all = [$($a),*];
                    let n = all.len();
                    let head = all[1 % n].wrapping_add(7);
                    let p = arity!(@call s, all, head, $($a),*);
                    log.push(p);
                    let mut r = p.wrapping_mul(5).wrapping_add(all[0]);
                    if two {
                        let q = arity!(@call s, all, p, $($a),*);
                        r = r.wrapping_mul(2).wrapping_add(q);
                        r = r.wrapping_add(all[n - 1]);
                    }
                    r
                });
                let r1 = f.call($($a),*);
                r2 = f.call($($a),*); // the wrapper can be called again and keeps its state
                r1
            };
            let mut mleft = left0;
            let mut mlog = vec![];
            let m1 = model(&args, &mut mleft, &mut mlog, two);
            let m2 = model(&args, &mut mleft, &mut mlog, two);
            observe(r1);
            observe(r2);
            observe(calls);
            check(r1 == m1, "value of the outer call");
            check(r2 == m2, "value of a second call");
            check(same(&log, &mlog), "calls, arguments and results in order");
            check(left == mleft, "captured state is shared by all levels");
            check(calls as usize == count(&mlog, left0, two), "number of evaluations");
        }
    };
    (@call $s:ident, $all:ident, $head:expr, $x:ident, $($a:ident),+) => {{
        // rotate left by one: (head, x3, x4, .., x1)
        let mut k = 1;
        arity!(@go $s, $all, k, $head; $($a),+)
    }};
    (@call $s:ident, $all:ident, $head:expr, $x:ident) => { $s.call($head) };
    (@go $s:ident, $all:ident, $k:ident, $head:expr; $a:ident, $($b:ident),*) => {
        $s.call($head, $({ let $b = $all[($k + 1) % $all.len()]; $k += 1; $b },)* { $k += 1; let _ = $k; $all[0] })
    };
    (@go $s:ident, $all:ident, $k:ident, $head:expr; $a:ident) => {{
        let _ = $k; $k += 1; let _ = $k;
        $s.call($head, $all[0])
    }};
}
/// number of evaluations in two outer calls with `left` nested ones allowed
fn count(_log: &[u64], left: u64, two: bool) -> usize {
    fn go(left: &mut u64, two: bool) -> usize {
        if *left == 0 {
            return 1;
        }
        *left -= 1;
        let mut n = 1 + go(left, two);
        if two {
            n += go(left, two);
        }
        n
    }
    let mut l = left;
    go(&mut l, two) + go(&mut l, two)
}
arity!(a1, RecursiveFunction, x1; x1;);
arity!(a2, RecursiveFunction2, x1, x2; x1; x2);
arity!(a3, RecursiveFunction3, x1, x2, x3; x1; x2, x3);
arity!(a4, RecursiveFunction4, x1, x2, x3, x4; x1; x2, x3, x4);
arity!(a5, RecursiveFunction5, x1, x2, x3, x4, x5; x1; x2, x3, x4, x5);
arity!(a6, RecursiveFunction6, x1, x2, x3, x4, x5, x6; x1; x2, x3, x4, x5, x6);
arity!(a7, RecursiveFunction7, x1, x2, x3, x4, x5, x6, x7; x1; x2, x3, x4, x5, x6, x7);
arity!(a8, RecursiveFunction8, x1, x2, x3, x4, x5, x6, x7, x8; x1; x2, x3, x4, x5, x6, x7, x8);
arity!(a9, RecursiveFunction9, x1, x2, x3, x4, x5, x6, x7, x8, x9; x1; x2, x3, x4, x5, x6, x7, x8, x9);

harness! {
fn c27_arity() {
    match 1 + pick(9) {
        1 => a1(),
        2 => a2(),
        3 => a3(),
        4 => a4(),
        5 => a5(),
        6 => a6(),
        7 => a7(),
        8 => a8(),
        _ => a9(),
    }
}
fn c27_zero() {
    let left0 = pick(param(0)) as u64;
    let two = concretize(any_bool() as u64) != 0;
    let step = any(64);
    let mut left = left0;
    let mut acc = any(64);
    let acc0 = acc;
    let mut depth = 0u64;
    let mut log = vec![];
    let r = {
        let mut f = RecursiveFunction0::new(|s: &mut dyn Callable0<u64>| -> u64 {
            depth += 1;
            log.push(depth);
            acc = acc.wrapping_add(step);
            let here = acc;
            let mut r = here;
            if left > 0 {
                left -= 1;
                r = r.wrapping_mul(3).wrapping_add(s.call());
                if two {
                    r = r.wrapping_mul(3).wrapping_add(s.call());
                }
            }
            depth -= 1;
            log.push(depth);
            r.wrapping_add(acc)
        });
        f.call()
    };
    fn m(left: &mut u64, acc: &mut u64, step: u64, two: bool, d: u64, log: &mut Vec<u64>) -> u64 {
        log.push(d + 1);
        *acc = acc.wrapping_add(step);
        let mut r = *acc;
        if *left > 0 {
            *left -= 1;
            r = r.wrapping_mul(3).wrapping_add(m(left, acc, step, two, d + 1, log));
            if two {
                r = r.wrapping_mul(3).wrapping_add(m(left, acc, step, two, d + 1, log));
            }
        }
        log.push(d);
        r.wrapping_add(*acc)
    }
    let (mut l, mut a, mut g) = (left0, acc0, vec![]);
    let e = m(&mut l, &mut a, step, two, 0, &mut g);
    observe(r);
    observe(acc);
    check(r == e, "value");
    check(acc == a, "captured accumulator");
    check(same(&log, &g), "order of evaluation");
}
fn c27_deep() {
    // linear recursion to a given depth, the argument changes at every level
    let d = param(0) as u64 - pick(3) as u64;
    let (x, k) = (any(64), any(64));
    let mut visits = 0u64;
    let mut last = 0u64;
    let r = RecursiveFunction2::new(|s, n: u64, v: u64| -> u64 {
        visits += 1;
        last = v;
        if n == 0 { v } else { s.call(n - 1, v.wrapping_add(k)).wrapping_add(n) }
    })
    .call(d, x);
    let mut e = x;
    for _ in 0..d {
        e = e.wrapping_add(k);
    }
    observe(visits);
    check(visits == d + 1, "one evaluation per level");
    check(last == e, "argument of the innermost level");
    check(r == e.wrapping_add(d * (d + 1) / 2), "value");
}
fn c27_search() {
    // depth-first search in an arbitrary graph, the visited list is captured
    let n = param(0);
    let adj: Vec<Vec<bool>> = (0..n).map(|_| (0..n).map(|_| any_bool()).collect()).collect();
    let start = pick(n);
    let mut seen = vec![false; n];
    let mut order = vec![];
    let size = RecursiveFunction::new(|s, v: usize| -> usize {
        seen[v] = true;
        order.push(v as u64);
        let mut t = 1;
        for w in 0..n {
            if adj[v][w] && !seen[w] {
                t += s.call(w);
            }
        }
        t
    })
    .call(start);
    fn dfs(v: usize, adj: &[Vec<bool>], seen: &mut [bool], order: &mut Vec<u64>) {
        seen[v] = true;
        order.push(v as u64);
        for w in 0..adj.len() {
            if adj[v][w] && !seen[w] {
                dfs(w, adj, seen, order);
            }
        }
    }
    let (mut ms, mut mo) = (vec![false; n], vec![]);
    dfs(start, &adj, &mut ms, &mut mo);
    observe(size as u64);
    check(same(&order, &mo), "order of the visits");
    check(size == mo.len(), "value");
}
fn c27_owned() {
    // owned arguments and results move through every level unchanged
    let n = 1 + pick(param(0));
    let v: Vec<u64> = (0..n).map(|_| any(64)).collect();
    let base = any(64);
    let mut f = RecursiveFunction2::new(|s, mut rest: Vec<u64>, done: Option<Box<u64>>| -> (Vec<u64>, Option<Box<u64>>) {
        match rest.pop() {
            None => (vec![], done),
            Some(x) => {
                let (mut v, b) = s.call(rest, done.map(|d| Box::new(d.wrapping_add(x))));
                v.push(x);
                (v, b)
            }
        }
    });
    let (out, b) = f.call(v.clone(), Some(Box::new(base)));
    let mut e = base;
    for x in &v {
        e = e.wrapping_add(*x);
    }
    check(same(&out, &v), "owned result");
    check(b.map(|b| *b) == Some(e), "boxed argument");
    check(f.call(v, None).1.is_none(), "absent argument stays absent");
}
}
