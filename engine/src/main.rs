mod exec;
mod expr;
mod ir;
mod lia;
mod smt;
mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicI32, AtomicU32, AtomicU64, Ordering::SeqCst};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn open(p: *const i8, f: i32, ...) -> i32;
    fn getppid() -> i32;
}

#[repr(C)]
struct Shared {
    tokens: AtomicI32,
    stop: AtomicU32,
    viol: AtomicU32,
    paths: AtomicU64,
    traces: AtomicI32,
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn json_inputs(v: &[(u8, u128)]) -> String {
    let s: Vec<String> = v.iter().map(|(w, x)| format!("[{},\"{}\"]", w, x)).collect();
    format!("[{}]", s.join(","))
}
fn json_obs(v: &[u128]) -> String {
    let s: Vec<String> = v.iter().map(|x| format!("\"{}\"", x)).collect();
    format!("[{}]", s.join(","))
}

struct Args {
    ll: String,
    entry: String,
    out: String,
    shared: Option<String>,
    deadline: u64,
    max_steps: u64,
    rlimit: u32,
    ite_limit: usize,
    fork_select: bool,
    traces: usize,
    workers: i32,
    ext_timeout: u64,
    int_first: bool,
    no_lia: bool,
    fork_div: u128,
    split_div: u64,
    div: bool,
    max_viol: u32,
    verbose: bool,
    max_paths: u64,
    mem_limit: u64,
    params: Vec<(u64, u64)>,
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .map(|p| p * 4096 / (1 << 20))
        .unwrap_or(0)
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    if av.len() > 1 && av[1] == "selftest" {
        std::process::exit(selftest::run());
    }
    let mut a = Args {
        ll: String::new(),
        entry: String::new(),
        out: "/dev/stdout".into(),
        shared: None,
        deadline: 600,
        max_steps: 20_000_000,
        rlimit: 40_000_000,
        ite_limit: 64,
        fork_select: false,
        traces: 40,
        workers: 1,
        ext_timeout: 60,
        int_first: false,
        no_lia: false,
        fork_div: 0,
        split_div: 0,
        div: false,
        max_viol: 3,
        verbose: false,
        max_paths: u64::MAX,
        mem_limit: 6000,
        params: vec![],
    };
    let mut i = 1;
    while i < av.len() {
        let k = av[i].as_str();
        let mut v = || {
            i += 1;
            av[i].clone()
        };
        match k {
            "--ll" => a.ll = v(),
            "--entry" => a.entry = v(),
            "--out" => a.out = v(),
            "--shared" => a.shared = Some(v()),
            "--deadline" => a.deadline = v().parse().unwrap(),
            "--max-steps" => a.max_steps = v().parse().unwrap(),
            "--rlimit" => a.rlimit = v().parse().unwrap(),
            "--fork-select" => a.fork_select = true,
            "--ite-limit" => a.ite_limit = v().parse().unwrap(),
            "--traces" => a.traces = v().parse().unwrap(),
            "--workers" => a.workers = v().parse().unwrap(),
            "--ext-timeout" => a.ext_timeout = v().parse().unwrap(),
            "--query-limit" => z3::QUERY_LIMIT.store(v().parse().unwrap(), SeqCst),
            "--max-paths" => a.max_paths = v().parse().unwrap(),
            "--mem-limit" => a.mem_limit = v().parse().unwrap(),
            "--param" => {
                let s = v();
                let (k, x) = s.split_once('=').unwrap();
                a.params.push((k.parse().unwrap(), x.parse().unwrap()));
            }
            "--int-first" => a.int_first = true,
            "--no-lia" => a.no_lia = true,
            "--div" => a.div = true,
            "--split-div" => a.split_div = v().parse().unwrap(),
            "--fork-div" => a.fork_div = v().parse().unwrap(),
            "-v" => a.verbose = true,
            x => {
                eprintln!("unknown option {}", x);
                std::process::exit(2)
            }
        }
        i += 1;
    }
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || run(a)).unwrap();
    h.join().unwrap();
}

fn json_violation(v: &Violation) -> String {
    format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"obs\":{}}}", json_str(&v.kind), json_str(&v.msg), json_inputs(&v.inputs), json_obs(&v.obs))
}
/// violations are also written as they are found
fn announce(out: &str, v: &Violation) {
    if out != "/dev/stdout" {
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(format!("{}.viol", out)) {
            f.write_all(format!("{}\n", json_violation(v)).as_bytes()).ok();
        }
    }
}

fn run(a: Args) {
    let t0 = std::time::Instant::now();
    let root_pid = std::process::id();
    let dir = format!("{}.parts", a.out);
    let _ = std::fs::remove_dir_all(&dir);
    if a.out != "/dev/stdout" {
        std::fs::create_dir_all(&dir).unwrap();
    }
    let dir = if a.out == "/dev/stdout" {
        let d = format!("/tmp/symir.{}", root_pid);
        std::fs::create_dir_all(&d).unwrap();
        d
    } else {
        dir
    };
    let local = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const Shared;
    let local: &'static Shared = unsafe { &*local };
    // the token pool may be shared with other jobs
    let pool: &'static AtomicI32 = match &a.shared {
        None => {
            local.tokens.store(a.workers - 1, SeqCst);
            &local.tokens
        }
        Some(p) => unsafe {
            let c = std::ffi::CString::new(p.as_str()).unwrap();
            let fd = open(c.as_ptr(), 2);
            if fd < 0 {
                eprintln!("cannot open {}", p);
                std::process::exit(2);
            }
            &*(mmap(std::ptr::null_mut(), 4096, 3, 1, fd, 0) as *const AtomicI32)
        },
    };
    let mut ar = expr::Arena::new();
    let m = match ir::Module::load(&a.ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot load {}: {}", a.ll, e);
            std::process::exit(2);
        }
    };
    let _ = &mut ar;
    let cfg = Config {
        max_steps: a.max_steps,
        ite_limit: a.ite_limit,
        fork_select: a.fork_select,
        ext_timeout: a.ext_timeout,
        smt_dir: dir.clone(),
        int_first: a.int_first,
        no_lia: a.no_lia,
        fork_div: a.fork_div,
        split_div: a.split_div,
        div: a.div,
        params: a.params.clone(),
    };
    let mut ex = Exec::new(ar, m, cfg, a.rlimit);
    if let Err(e) = ex.start(&a.entry) {
        eprintln!("{}", e);
        std::process::exit(2);
    }
    local.traces.store(a.traces as i32, SeqCst);
    let deadline = t0 + std::time::Duration::from_secs(a.deadline);
    let root_parent = unsafe { getppid() };
    ex.stop_check = Box::new(move || {
        if local.stop.load(SeqCst) != 0 {
            return true;
        }
        if std::time::Instant::now() > deadline {
            local.stop.store(2, SeqCst);
            return true;
        }
        if std::process::id() == root_pid && unsafe { getppid() } != root_parent {
            local.stop.store(3, SeqCst);
            return true;
        }
        false
    });

    let mut viols: Vec<Violation> = vec![];
    let mut traces: Vec<Trace> = vec![];
    let mut errors: Vec<String> = vec![];
    let mut incomplete: Option<String> = None;
    let mut kids: Vec<i32> = vec![];
    let mut all_kids: Vec<i32> = vec![];
    let mut is_child = false;
    let mut iter = 0u64;
    loop {
        iter += 1;
        if (ex.stop_check)() {
            if local.stop.load(SeqCst) == 2 {
                incomplete = Some("time limit".into());
            }
            if !ex.work.is_empty() && incomplete.is_none() {
                incomplete = Some("stopped".into());
            }
            break;
        }
        if iter % 256 == 0 && rss_mb() > a.mem_limit {
            incomplete = Some("memory limit".into());
            local.stop.store(4, SeqCst);
            break;
        }
        // share work
        if ex.work.len() >= 2 && pool.load(SeqCst) > 0 {
            let got = pool.fetch_sub(1, SeqCst) > 0;
            if !got {
                pool.fetch_add(1, SeqCst);
            } else {
                let s = ex.work.remove(0);
                std::io::stdout().flush().ok();
                let pid = unsafe { fork() };
                if pid == 0 {
                    is_child = true;
                    ex.work.clear();
                    ex.work.push(s);
                    ex.stats = Default::default();
                    ex.covers.clear();
                    viols.clear();
                    traces.clear();
                    errors.clear();
                    kids.clear();
                    all_kids.clear();
                    incomplete = None;
                } else if pid < 0 {
                    pool.fetch_add(1, SeqCst);
                    ex.work.push(s);
                } else {
                    kids.push(pid);
                    all_kids.push(pid);
                    drop(s);
                }
            }
        }
        // reap
        if iter % 64 == 0 {
            kids.retain(|&p| {
                let mut st = 0;
                let r = unsafe { waitpid(p, &mut st, 1) };
                if r == p {
                    if st != 0 {
                        errors.push(format!("worker died with status {}", st));
                        pool.fetch_add(1, SeqCst);
                    }
                    false
                } else {
                    true
                }
            });
        }
        ex.st = match ex.work.pop() {
            None => break,
            Some(s) => s,
        };
        let r = ex.run_state();
        let steps = ex.st.steps;
        ex.stats.max_steps = ex.stats.max_steps.max(steps);
        let want_trace = |local: &Shared| local.traces.load(SeqCst) > 0;
        match r {
            Stop::Done => {
                ex.stats.paths += 1;
                let n = local.paths.fetch_add(1, SeqCst);
                // spread the sample over the exploration
                if want_trace(local) && (n < 8 || n.is_power_of_two() || n % 37 == 0) {
                    local.traces.fetch_sub(1, SeqCst);
                    traces.push(ex.mk_trace("ok"));
                }
            }
            Stop::Panic(msg) => {
                ex.stats.paths += 1;
                ex.stats.panicked += 1;
                let n = local.paths.fetch_add(1, SeqCst);
                if ex.st.may_panic {
                    if want_trace(local) && (n < 8 || n.is_power_of_two() || n % 37 == 0) {
                        local.traces.fetch_sub(1, SeqCst);
                        traces.push(ex.mk_trace("panic"));
                    }
                } else {
                    if a.verbose {
                        eprintln!("panic: {}", msg);
                        ex.backtrace();
                    }
                    let v = ex.mk_violation("panic", msg);
                    announce(&a.out, &v);
                    viols.push(v);
                    if local.viol.fetch_add(1, SeqCst) + 1 >= a.max_viol {
                        local.stop.store(1, SeqCst);
                    }
                }
            }
            Stop::Killed => ex.stats.killed += 1,
            Stop::Violation(v) => {
                ex.stats.paths += 1;
                if a.verbose {
                    eprintln!("violation {}: {}", v.kind, v.msg);
                    ex.backtrace();
                }
                announce(&a.out, &v);
                viols.push(v);
                if local.viol.fetch_add(1, SeqCst) + 1 >= a.max_viol {
                    local.stop.store(1, SeqCst);
                }
            }
            Stop::Error(e) => {
                if a.verbose {
                    eprintln!("error {}", e);
                    ex.backtrace();
                }
                if errors.len() < 5 {
                    errors.push(e);
                }
                if errors.len() >= 5 {
                    local.stop.store(5, SeqCst);
                }
            }
            Stop::Halt => {
                if local.stop.load(SeqCst) == 2 {
                    incomplete = Some("time limit".into());
                } else {
                    incomplete = Some("stopped".into());
                }
                break;
            }
        }
        if local.paths.load(SeqCst) > a.max_paths {
            local.stop.store(6, SeqCst);
        }
    }
    // give the token back before waiting for children
    if is_child {
        pool.fetch_add(1, SeqCst);
    }
    let hits = ex.collect_hits();
    let part = format!("{}/p{}", dir, std::process::id());
    {
        let mut s = String::new();
        let st = &ex.stats;
        for (k, v) in [
            ("paths", st.paths as u128),
            ("panicked", st.panicked as u128),
            ("killed", st.killed as u128),
            ("steps", st.steps as u128),
            ("forks", st.forks as u128),
            ("queries", st.queries as u128),
            ("sat", st.sat as u128),
            ("unsat", st.unsat as u128),
            ("unknown", st.unknown as u128),
            ("solver_ms", st.solver_ns / 1_000_000),
            ("asserts", st.asserts as u128),
            ("asserts_solver", st.asserts_solver as u128),
            ("asserts_const", st.asserts_const as u128),
            ("ext_solver", st.ext_solver as u128),
            ("lia", st.lia as u128),
            ("max:pc", st.max_pc as u128),
            ("max:steps", st.max_steps as u128),
            ("max:rss_mb", rss_mb() as u128),
        ] {
            s += &format!("S {} {}\n", k, v);
        }
        for (k, v) in &ex.covers {
            s += &format!("C {} {}\n", v, k);
        }
        for (f, (h, t)) in &hits {
            s += &format!("F {} {} {}\n", h, t, f);
        }
        s += &format!("D {}\n", ex.collect_locs().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
        for v in &viols {
            s += &format!("V {}\n", json_violation(v));
        }
        for t in &traces {
            s += &format!(
                "T {{\"outcome\":{},\"inputs\":{},\"obs\":{}}}\n",
                json_str(&t.outcome),
                json_inputs(&t.inputs),
                json_obs(&t.obs)
            );
        }
        for e in &errors {
            s += &format!("E {}\n", json_str(e));
        }
        if let Some(i) = &incomplete {
            s += &format!("I {}\n", json_str(i));
        }
        std::fs::write(&part, s).unwrap();
    }
    let mut child_err = 0;
    for p in kids {
        let mut st = 0;
        unsafe { waitpid(p, &mut st, 0) };
        if st != 0 {
            child_err += 1;
            pool.fetch_add(1, SeqCst);
        }
    }
    if child_err > 0 {
        let mut f = std::fs::OpenOptions::new().append(true).open(&part).unwrap();
        writeln!(f, "E {}", json_str("a worker process died")).unwrap();
    }
    if is_child {
        unsafe { _exit(0) }
    }
    // aggregate
    let mut sum: BTreeMap<String, u128> = BTreeMap::new();
    let mut cov: BTreeMap<String, u64> = BTreeMap::new();
    let mut fun: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    let mut locs: std::collections::BTreeSet<u32> = Default::default();
    let (mut v, mut t, mut e, mut inc) = (vec![], vec![], vec![], vec![]);
    let mut nproc = 0;
    for f in std::fs::read_dir(&dir).unwrap() {
        let p = f.unwrap().path();
        if !p.file_name().unwrap().to_string_lossy().starts_with('p') {
            continue;
        }
        nproc += 1;
        for l in std::fs::read_to_string(&p).unwrap().lines() {
            let (k, r) = (&l[..1], &l[2..]);
            match k {
                "S" => {
                    let (n, x) = r.split_once(' ').unwrap();
                    let x: u128 = x.parse().unwrap();
                    let s = sum.entry(n.to_string()).or_insert(0);
                    if n.starts_with("max:") {
                        *s = (*s).max(x);
                    } else {
                        *s += x;
                    }
                }
                "C" => {
                    let (n, x) = r.split_once(' ').unwrap();
                    *cov.entry(x.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                }
                "F" => {
                    let mut it = r.splitn(3, ' ');
                    let h: usize = it.next().unwrap().parse().unwrap();
                    let tt: usize = it.next().unwrap().parse().unwrap();
                    let n = it.next().unwrap().to_string();
                    let s = fun.entry(n).or_insert((0, tt));
                    s.0 = s.0.max(h);
                }
                "D" => locs.extend(r.split_whitespace().map(|x| x.parse::<u32>().unwrap())),
                "V" => v.push(r.to_string()),
                "T" => t.push(r.to_string()),
                "E" => e.push(r.to_string()),
                "I" => inc.push(r.to_string()),
                _ => {}
            }
        }
    }
    std::fs::remove_dir_all(&dir).ok();
    let mut o = String::from("{");
    o += &format!("\"entry\":{},\"wall_s\":{:.2},\"processes\":{},", json_str(&a.entry), t0.elapsed().as_secs_f64(), nproc);
    o += &format!("\"z3\":{},", json_str(&z3::version()));
    o += "\"stats\":{";
    o += &sum.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    o += "},\"covers\":{";
    o += &cov.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",");
    o += "},\"functions\":{";
    o += &fun.iter().map(|(k, v)| format!("{}:[{},{}]", json_str(k), v.0, v.1)).collect::<Vec<_>>().join(",");
    o += "},\"locs\":[";
    o += &locs.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",");
    o += &format!("],\"violations\":[{}],\"traces\":[{}],\"errors\":[{}],\"incomplete\":[{}]}}\n", v.join(","), t.join(","), e.join(","), inc.join(","));
    if a.out == "/dev/stdout" {
        print!("{}", o);
    } else {
        std::fs::write(&a.out, o).unwrap();
    }
    std::io::stdout().flush().ok();
    unsafe { _exit(0) }
}

mod selftest {
    /// Random terms, built with and without the simplifier, must be equal for
    /// every value of their variables (asked to Z3), and the evaluator must
    /// agree with Z3's models.
    use crate::expr::*;
    use crate::z3::*;
    struct Rng(u64);
    impl Rng {
        fn n(&mut self, k: u64) -> u64 {
            self.0 ^= self.0 << 13;
            self.0 ^= self.0 >> 7;
            self.0 ^= self.0 << 17;
            (self.0 >> 11) % k
        }
    }
    // a tiny term language so that the same term can be built twice
    #[derive(Clone)]
    enum Tm {
        V(usize),
        K(u128, u8),
        B(Op, Box<Tm>, Box<Tm>),
        I(Box<Tm>, Box<Tm>, Box<Tm>),
        Z(Box<Tm>, u8),
        S(Box<Tm>, u8),
        X(Box<Tm>, u8, u8),
        N(Box<Tm>),
    }
    /// sums of extended variables, compared: exercises the linear rules
    fn sum(r: &mut Rng, w: u8) -> Tm {
        let atom = |r: &mut Rng| -> Tm {
            let v = [(0usize, 1u8), (1, 4), (2, 8), (3, 8), (5, 4)][r.n(5) as usize];
            let t = Box::new(Tm::V(v.0));
            let t = if v.1 == w {
                *t
            } else if r.n(2) == 0 {
                Tm::Z(t, w)
            } else {
                Tm::S(t, w)
            };
            match r.n(4) {
                0 => Tm::B(Op::Mul, Box::new(t), Box::new(Tm::K(r.n(6) as u128, w))),
                1 => Tm::I(Box::new(Tm::V(4)), Box::new(t), Box::new(Tm::K(r.n(20) as u128, w))),
                _ => t,
            }
        };
        let mut t = atom(r);
        for _ in 0..r.n(4) {
            let o = if r.n(3) == 0 { Op::Sub } else { Op::Add };
            t = Tm::B(o, Box::new(t), Box::new(atom(r)));
        }
        if r.n(3) == 0 {
            t = Tm::B(Op::Add, Box::new(t), Box::new(Tm::K((r.n(600) as u128).wrapping_sub(300) & mask(w), w)));
        }
        t
    }
    fn gen(r: &mut Rng, w: u8, d: u32) -> Tm {
        if w == 1 && r.n(5) == 0 {
            let ops = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
            let w2 = [8u8, 9, 10, 12, 16][r.n(5) as usize];
            return Tm::B(ops[r.n(5) as usize], Box::new(sum(r, w2)), Box::new(sum(r, w2)));
        }
        let ws: [u8; 6] = [1, 4, 8, 12, 16, 32];
        if d == 0 || r.n(8) == 0 {
            if r.n(3) == 0 {
                let k = match r.n(5) {
                    0 => 0,
                    1 => 1,
                    2 => mask(w),
                    3 => 1u128 << r.n(w as u64),
                    _ => r.n(1 << 20) as u128,
                };
                return Tm::K(k & mask(w), w);
            }
            let vs = [(0usize, 1u8), (1, 4), (2, 8), (3, 8), (4, 1), (5, 4)];
            let v = vs[r.n(6) as usize];
            let t = Tm::V(v.0);
            return if v.1 == w {
                t
            } else if v.1 < w {
                if r.n(2) == 0 {
                    Tm::Z(Box::new(t), w)
                } else {
                    Tm::S(Box::new(t), w)
                }
            } else {
                let lo = r.n((v.1 - w + 1) as u64) as u8;
                Tm::X(Box::new(t), lo, w)
            };
        }
        if w == 1 && r.n(3) != 0 {
            let ops = [Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
            let w2 = ws[1 + r.n(4) as usize];
            return Tm::B(ops[r.n(5) as usize], Box::new(gen(r, w2, d - 1)), Box::new(gen(r, w2, d - 1)));
        }
        match r.n(12) {
            0 | 1 => Tm::I(Box::new(gen(r, 1, d - 1)), Box::new(gen(r, w, d - 1)), Box::new(gen(r, w, d - 1))),
            2 if w > 1 => {
                let s = 1 + r.n(w as u64 - 1) as u8;
                let ok = ws.contains(&s);
                let s = if ok { s } else { 1 };
                if r.n(2) == 0 {
                    Tm::Z(Box::new(gen(r, s, d - 1)), w)
                } else {
                    Tm::S(Box::new(gen(r, s, d - 1)), w)
                }
            }
            3 => {
                let big = [w + 3, w * 2, 32.max(w)][r.n(3) as usize];
                let lo = r.n((big - w + 1) as u64) as u8;
                Tm::X(Box::new(gen(r, big, d - 1)), lo, w)
            }
            4 if w > 1 => {
                let l = 1 + r.n(w as u64 - 1) as u8;
                Tm::B(Op::Concat, Box::new(gen(r, w - l, d - 1)), Box::new(gen(r, l, d - 1)))
            }
            5 if w == 1 => Tm::N(Box::new(gen(r, 1, d - 1))),
            _ => {
                let ops = [
                    Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Add,
                    Op::Sub,
                ];
                Tm::B(ops[r.n(15) as usize], Box::new(gen(r, w, d - 1)), Box::new(gen(r, w, d - 1)))
            }
        }
    }
    fn build(ar: &mut Arena, vars: &[Id], t: &Tm) -> Id {
        match t {
            Tm::V(i) => vars[*i],
            Tm::K(k, w) => ar.konst(*k, *w),
            Tm::B(o, a, b) => {
                let (x, y) = (build(ar, vars, a), build(ar, vars, b));
                ar.bin(*o, x, y)
            }
            Tm::I(c, a, b) => {
                let (x, y, z) = (build(ar, vars, c), build(ar, vars, a), build(ar, vars, b));
                ar.ite(x, y, z)
            }
            Tm::Z(a, w) => {
                let x = build(ar, vars, a);
                ar.zext(x, *w)
            }
            Tm::S(a, w) => {
                let x = build(ar, vars, a);
                ar.sext(x, *w)
            }
            Tm::X(a, lo, w) => {
                let x = build(ar, vars, a);
                ar.extract(x, *lo, *w)
            }
            Tm::N(a) => {
                let x = build(ar, vars, a);
                if ar.simplify {
                    ar.not(x)
                } else {
                    let e = F;
                    ar.bin(Op::Eq, x, e)
                }
            }
        }
    }
    pub fn run() -> i32 {
        let n: u64 = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(3000);
        let seed: u64 = std::env::args().nth(3).and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut r = Rng(0x9e3779b97f4a7c15 ^ seed.wrapping_mul(0x1234567));
        let mut done = 0;
        let mut unknown = 0;
        let mut lia_done = 0;
        while done < n {
            let mut ar = Arena::new();
            let vars: Vec<Id> = [1u8, 4, 8, 8, 1, 4].iter().enumerate().map(|(i, w)| ar.var(&format!("x{}", i), *w)).collect();
            let mut z = Z3::new(5_000_000);
            let mut lia = crate::lia::Lia::new(1_000_000);
            lia.div = done % 400 == 0;
            for _ in 0..200 {
                let w = [1u8, 4, 8, 16][r.n(4) as usize];
                let d = 2 + r.n(4) as u32;
                let t = gen(&mut r, w, d);
                ar.simplify = true;
                let a = build(&mut ar, &vars, &t);
                ar.simplify = false;
                let b = build(&mut ar, &vars, &t);
                let e = ar.bin(Op::Eq, a, b);
                let ne = ar.bin(Op::Eq, e, F);
                // ranges
                let (lo, hi) = (ar.lo(a), ar.hi(a));
                let (kl, kh) = (ar.konst(lo, w), ar.konst(hi, w));
                let c1 = ar.bin(Op::Ult, a, kl);
                let c2 = ar.bin(Op::Ult, kh, a);
                let q = ar.bin(Op::Or, c1, c2);
                let q = ar.bin(Op::Or, q, ne);
                let (kl, kh) = (ar.konst(ar.slo(a).max(-(1i128 << (w - 1))) as u128, w), ar.konst(ar.shi(a).min((1i128 << (w - 1)) - 1) as u128, w));
                let c1 = ar.bin(Op::Slt, a, kl);
                let c2 = ar.bin(Op::Slt, kh, a);
                let q = ar.bin(Op::Or, q, c1);
                let q = ar.bin(Op::Or, q, c2);
                ar.simplify = true;
                done += 1;
                if q == F {
                    continue;
                }
                match z.check(&ar, &[], q) {
                    Res::Unsat => {}
                    Res::Unknown => unknown += 1,
                    Res::Sat(m) => {
                        let mut memo = Default::default();
                        println!("SELFTEST FAIL: {} vs {} range [{},{}] at {:?} -> {} {}", ar.show(a, 9), ar.show(b, 9), lo, hi, m, ar.eval(a, &m, &mut memo), ar.eval(b, &m, &mut memo));
                        return 1;
                    }
                }
                // the integer encoding must not contradict the bit-vector one
                if w == 1 {
                    let u = lia.check(&mut ar, &[], a, &[]);
                    let v = z.check(&ar, &[], a);
                    match (&u, &v) {
                        (Res::Unknown, _) | (_, Res::Unknown) => {}
                        (Res::Sat(_), Res::Sat(_)) | (Res::Unsat, Res::Unsat) => lia_done += 1,
                        _ => {
                            println!("SELFTEST FAIL: integer encoding disagrees on {}", ar.show(a, 9));
                            return 1;
                        }
                    }
                }
                // evaluator against z3: b == its value under a fixed assignment
                let vals: Vec<u128> = vars.iter().map(|&v| r.n(256) as u128 & mask(ar.w(v))).collect();
                let mut memo = Default::default();
                let val = ar.eval(b, &vals, &mut memo);
                ar.simplify = false;
                let mut q = T;
                for (i, &v) in vars.iter().enumerate() {
                    let k = ar.konst(vals[i], ar.w(v));
                    let e = ar.bin(Op::Eq, v, k);
                    q = ar.bin(Op::And, q, e);
                }
                let k = ar.konst(val, w);
                let e = ar.bin(Op::Eq, b, k);
                let e = ar.bin(Op::Eq, e, F);
                q = ar.bin(Op::And, q, e);
                ar.simplify = true;
                if let Res::Sat(_) = z.check(&ar, &[], q) {
                    println!("SELFTEST FAIL: evaluator disagrees on {}", ar.show(b, 9));
                    return 1;
                }
            }
        }
        println!("selftest: {} random terms, {} undecided, {} also decided by the integer encoding", done, unknown, lia_done);
        0
    }
}
