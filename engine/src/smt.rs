//! Fallback: write the query as SMT-LIB 2 and race external solvers on it.
use crate::exec::Config;
use crate::expr::*;
use crate::z3::Res;
use std::collections::BTreeSet;
use std::fmt::Write;
use std::process::{Child, Command, Stdio};

pub fn dump(ar: &Arena, pc: &[Id], extra: Id) -> (String, Vec<usize>) {
    let mut order: Vec<Id> = vec![];
    let mut seen: FxSet<Id> = Default::default();
    let mut vars: BTreeSet<usize> = BTreeSet::new();
    let mut stack: Vec<(Id, bool)> = pc.iter().chain(std::iter::once(&extra)).map(|&e| (e, false)).collect();
    while let Some((e, done)) = stack.pop() {
        if done {
            order.push(e);
            continue;
        }
        if !seen.insert(e) {
            continue;
        }
        let n = ar.n(e);
        if n.op == Op::Var {
            vars.insert(n.k as usize);
            continue;
        }
        stack.push((e, true));
        let kids = [n.a, n.b, n.c];
        for &k in &kids[..Arena::nkids(n.op)] {
            stack.push((k, false));
        }
    }
    let mut s = String::new();
    s += "(set-option :produce-models true)\n(set-logic QF_BV)\n";
    for &v in &vars {
        let w = ar.var_names[v].1;
        writeln!(s, "(declare-const v{} (_ BitVec {}))", v, w).unwrap();
    }
    // everything is a bit-vector (booleans are width 1)
    let nm = |e: Id| -> String {
        let n = ar.n(e);
        match n.op {
            Op::Var => format!("v{}", n.k),
            Op::Const => format!("(_ bv{} {})", n.k, n.w),
            _ => format!("e{}", e),
        }
    };
    for &e in &order {
        let n = ar.n(e);
        if n.op == Op::Const {
            continue;
        }
        let a = nm(n.a);
        let b = || nm(n.b);
        let body = match n.op {
            Op::Add => format!("(bvadd {} {})", a, b()),
            Op::Sub => format!("(bvsub {} {})", a, b()),
            Op::Mul => format!("(bvmul {} {})", a, b()),
            Op::UDiv => format!("(bvudiv {} {})", a, b()),
            Op::SDiv => format!("(bvsdiv {} {})", a, b()),
            Op::URem => format!("(bvurem {} {})", a, b()),
            Op::SRem => format!("(bvsrem {} {})", a, b()),
            Op::And => format!("(bvand {} {})", a, b()),
            Op::Or => format!("(bvor {} {})", a, b()),
            Op::Xor => format!("(bvxor {} {})", a, b()),
            Op::Shl => format!("(bvshl {} {})", a, b()),
            Op::LShr => format!("(bvlshr {} {})", a, b()),
            Op::AShr => format!("(bvashr {} {})", a, b()),
            Op::Eq => format!("(ite (= {} {}) #b1 #b0)", a, b()),
            Op::Ult => format!("(ite (bvult {} {}) #b1 #b0)", a, b()),
            Op::Ule => format!("(ite (bvule {} {}) #b1 #b0)", a, b()),
            Op::Slt => format!("(ite (bvslt {} {}) #b1 #b0)", a, b()),
            Op::Sle => format!("(ite (bvsle {} {}) #b1 #b0)", a, b()),
            Op::Ite => format!("(ite (= {} #b1) {} {})", a, b(), nm(n.c)),
            Op::ZExt => format!("((_ zero_extend {}) {})", n.w - ar.w(n.a), a),
            Op::SExt => format!("((_ sign_extend {}) {})", n.w - ar.w(n.a), a),
            Op::Extract => format!("((_ extract {} {}) {})", n.k + n.w as u128 - 1, n.k, a),
            Op::Concat => format!("(concat {} {})", a, b()),
            Op::Const | Op::Var => unreachable!(),
        };
        writeln!(s, "(define-fun e{} () (_ BitVec {}) {})", e, n.w, body).unwrap();
    }
    for &c in pc.iter().chain(std::iter::once(&extra)) {
        writeln!(s, "(assert (= {} #b1))", nm(c)).unwrap();
    }
    s += "(check-sat)\n";
    if !vars.is_empty() {
        s += "(get-value (";
        for v in &vars {
            write!(s, "v{} ", v).unwrap();
        }
        s += "))\n";
    }
    (s, vars.into_iter().collect())
}

fn parse_model(ar: &Arena, text: &str) -> Vec<u128> {
    let mut vals = vec![0u128; ar.var_names.len()];
    let toks: Vec<String> = text.replace('(', " ( ").replace(')', " ) ").split_whitespace().map(|s| s.to_string()).collect();
    for i in 0..toks.len() {
        if let Some(r) = toks[i].strip_prefix('v') {
            if let Ok(ix) = r.parse::<usize>() {
                let t = toks.get(i + 1).map(|s| s.as_str()).unwrap_or("");
                let v = if let Some(h) = t.strip_prefix("#x") {
                    u128::from_str_radix(h, 16).ok()
                } else if let Some(h) = t.strip_prefix("#b") {
                    u128::from_str_radix(h, 2).ok()
                } else if t == "(" {
                    toks.get(i + 3).and_then(|s| s.strip_prefix("bv")).and_then(|s| s.parse().ok())
                } else {
                    None
                };
                if let (Some(v), true) = (v, ix < vals.len()) {
                    vals[ix] = v;
                }
            }
        }
    }
    vals
}

pub fn external(ar: &Arena, pc: &[Id], extra: Id, cfg: &Config) -> Res {
    let (text, _) = dump(ar, pc, extra);
    let pid = std::process::id();
    static CNT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let k = CNT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let path = format!("{}/q{}_{}.smt2", cfg.smt_dir, pid, k);
    if std::fs::write(&path, text).is_err() {
        return Res::Unknown;
    }
    let t = cfg.ext_timeout;
    let cmds: Vec<Vec<String>> = vec![
        vec!["cvc5".into(), "--solve-bv-as-int=sum".into(), format!("--tlimit={}", t * 1000), path.clone()],
        vec!["z3-new".into(), format!("-T:{}", t), path.clone()],
        vec!["cvc5".into(), format!("--tlimit={}", t * 1000), path.clone()],
    ];
    let mut kids: Vec<(Child, String)> = vec![];
    for (i, c) in cmds.iter().enumerate() {
        let out = format!("{}.out{}", path, i);
        let f = match std::fs::File::create(&out) {
            Ok(f) => f,
            Err(_) => continue,
        };
        if let Ok(ch) = Command::new(&c[0]).args(&c[1..]).stdout(f).stderr(Stdio::null()).stdin(Stdio::null()).spawn() {
            kids.push((ch, out));
        }
    }
    let start = std::time::Instant::now();
    let mut res = Res::Unknown;
    'outer: while !kids.is_empty() && start.elapsed().as_secs() < t + 5 {
        let mut i = 0;
        while i < kids.len() {
            match kids[i].0.try_wait() {
                Ok(Some(_)) => {
                    let (_, out) = kids.remove(i);
                    let txt = std::fs::read_to_string(&out).unwrap_or_default();
                    let _ = std::fs::remove_file(&out);
                    let first = txt.lines().next().unwrap_or("");
                    if first == "unsat" {
                        res = Res::Unsat;
                        break 'outer;
                    }
                    if first == "sat" {
                        let m = parse_model(ar, &txt);
                        let mut memo = Default::default();
                        if pc.iter().chain(std::iter::once(&extra)).all(|&c| ar.eval(c, &m, &mut memo) == 1) {
                            res = Res::Sat(m);
                            break 'outer;
                        }
                    }
                }
                Ok(None) => i += 1,
                Err(_) => {
                    kids.remove(i);
                }
            }
        }
        std::thread::sleep(std::time::Duration::from_millis(3));
    }
    for (mut c, out) in kids {
        let _ = c.kill();
        let _ = c.wait();
        let _ = std::fs::remove_file(&out);
    }
    if std::env::var("SYMIR_KEEP").is_err() {
        let _ = std::fs::remove_file(&path);
    }
    res
}
