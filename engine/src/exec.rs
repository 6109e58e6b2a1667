//! Symbolic executor for the LLVM IR subset rustc emits (panic=abort).
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const HEAP_BASE: u64 = 0x4000_0000;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cell {
    U,
    K(u8),
    P(Id, u8), // byte number of a (multiple-of-8 wide) expression
}

pub struct Obj {
    pub base: u64,
    pub size: u64,
    pub cells: Vec<Cell>,
    pub heap: bool,
}
impl Clone for Obj {
    fn clone(&self) -> Obj {
        Obj { base: self.base, size: self.size, cells: self.cells.clone(), heap: self.heap }
    }
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bb: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub dst: Option<u32>,
    pub allocas: Vec<u64>,
}

/// persistent singly linked list for the path condition / logs
pub struct Link<X> {
    pub x: X,
    pub prev: Option<Rc<Link<X>>>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Vec<Rc<Obj>>, // sorted by base
    pub next: u64,
    pub pc: Rc<Vec<Id>>,
    pub model: Rc<Vec<u128>>,
    pub facts: Rc<FxMap<Id, Id>>,
    pub version: u64,
    pub nvar: Rc<Vec<usize>>, // variables drawn, in order
    pub obs: Rc<Vec<Id>>,
    pub may_panic: bool,
    pub steps: u64,
    pub forks: u32,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub inputs: Vec<(u8, u128)>,
    pub obs: Vec<u128>,
}
#[derive(Debug, Clone)]
pub struct Trace {
    pub outcome: String,
    pub inputs: Vec<(u8, u128)>,
    pub obs: Vec<u128>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub panicked: u64,
    pub killed: u64, // paths cut by an assumption
    pub steps: u64,
    pub forks: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_ns: u128,
    pub asserts: u64,
    pub asserts_solver: u64,
    pub asserts_const: u64,
    pub ext_solver: u64,
    pub lia: u64,
    pub max_pc: u64,
    pub max_steps: u64,
}

pub enum Stop {
    /// another state was queued; continue scheduling (current state is gone)
    Killed,
    Done,
    Panic(String),
    Error(String),
    Violation(Violation),
    Halt,
}
type R<X> = Result<X, Stop>;
fn err<X>(s: impl Into<String>) -> R<X> {
    Err(Stop::Error(s.into()))
}

pub struct Config {
    pub max_steps: u64,
    pub ite_limit: usize,
    pub fork_select: bool,
    pub ext_timeout: u64,
    pub smt_dir: String,
    pub int_first: bool,
    pub no_lia: bool,
    pub fork_div: u128,
    pub split_div: u64,
    pub div: bool,
    pub params: Vec<(u64, u64)>,
}

pub struct Exec {
    pub ar: Arena,
    pub m: Module,
    pub z: Z3,
    pub lia: crate::lia::Lia,
    pub cfg: Config,
    pub work: Vec<State>,
    pub st: State,
    pub stats: Stats,
    pub covers: BTreeMap<String, u64>,
    pub funcs_hit: BTreeMap<String, HashSet<u32>>,
    gcache: HashMap<usize, Rc<Obj>>,
    gsorted: Vec<(u64, u64, usize)>,
    var_pool: HashMap<(usize, u8), Id>,
    pub var_w: Vec<u8>,
    rw_memo: FxMap<Id, Id>,
    rw_ver: u64,
    ev_memo: FxMap<Id, u128>,
    ev_model: *const Vec<u128>,
    ev_keep: Option<Rc<Vec<u128>>>,
    vercount: u64,
    pub stop_check: Box<dyn Fn() -> bool>,
    hit_cur: (usize, u32),
    fid_names: Vec<String>,
    hits: HashSet<(usize, u32)>,
    callee_kind: HashMap<String, u8>,
    trace: bool,
}

fn is_panic_fn(n: &str) -> bool {
    n.contains("9panicking")
        || n.contains("18handle_alloc_error")
        || n.contains("17capacity_overflow")
        || (n.contains("raw_vec") && n.ends_with("12handle_error"))
        || n.ends_with("rust_begin_unwind")
}

impl Exec {
    pub fn new(ar: Arena, m: Module, cfg: Config, rlimit: u32) -> Exec {
        let mut gsorted: Vec<(u64, u64, usize)> = m.globals.iter().enumerate().map(|(i, g)| (g.addr, g.size, i)).collect();
        gsorted.sort();
        let mut lia = crate::lia::Lia::new(2_000_000);
        lia.div = cfg.div;
        Exec {
            ar,
            m,
            z: Z3::new(rlimit),
            lia,
            cfg,
            work: vec![],
            st: State {
                frames: vec![],
                mem: vec![],
                next: HEAP_BASE,
                pc: Rc::new(vec![]),
                model: Rc::new(vec![]),
                facts: Rc::new(Default::default()),
                version: 0,
                nvar: Rc::new(vec![]),
                obs: Rc::new(vec![]),
                may_panic: false,
                steps: 0,
                forks: 0,
            },
            stats: Default::default(),
            covers: Default::default(),
            funcs_hit: Default::default(),
            gcache: Default::default(),
            gsorted,
            var_pool: Default::default(),
            var_w: vec![],
            rw_memo: Default::default(),
            rw_ver: u64::MAX,
            ev_memo: Default::default(),
            ev_model: std::ptr::null(),
            ev_keep: None,
            vercount: 1,
            stop_check: Box::new(|| false),
            hit_cur: (usize::MAX, 0),
            fid_names: vec![],
            hits: Default::default(),
            callee_kind: Default::default(),
            trace: std::env::var_os("SYMIR_CALLS").is_some(),
        }
    }

    pub fn start(&mut self, entry: &str) -> Result<(), String> {
        let f = self.m.func(&mut self.ar, entry)?.ok_or(format!("no function {}", entry))?;
        let st = State {
            frames: vec![Frame { regs: vec![Val::E(F); f.nregs as usize], f, bb: 0, ip: 0, dst: None, allocas: vec![] }],
            mem: vec![],
            next: HEAP_BASE,
            pc: Rc::new(vec![]),
            model: Rc::new(vec![]),
            facts: Rc::new(Default::default()),
            version: 0,
            nvar: Rc::new(vec![]),
            obs: Rc::new(vec![]),
            may_panic: false,
            steps: 0,
            forks: 0,
        };
        self.work.push(st);
        Ok(())
    }

    // ---------- solver interface ----------
    fn eval(&mut self, e: Id) -> u128 {
        let p = Rc::as_ptr(&self.st.model);
        if p != self.ev_model {
            self.ev_memo.clear();
            self.ev_model = p;
            self.ev_keep = Some(self.st.model.clone());
        }
        self.ar.eval(e, &self.st.model, &mut self.ev_memo)
    }
    fn solve(&mut self, extra: Id) -> R<Option<Vec<u128>>> {
        let t0 = std::time::Instant::now();
        self.stats.queries += 1;
        let pc = self.st.pc.clone();
        self.stats.max_pc = self.stats.max_pc.max(pc.len() as u64);
        let mut r = Res::Unknown;
        if !self.cfg.no_lia && (self.lia.useful(&self.ar, extra) || pc.iter().any(|&e| self.lia.useful(&self.ar, e))) {
            let hint = self.st.model.clone();
            r = self.lia.check(&mut self.ar, &pc, extra, &hint);
            if !matches!(r, Res::Unknown) {
                self.stats.lia += 1;
            }
        }
        if matches!(r, Res::Unknown) && !self.cfg.int_first {
            r = self.z.check(&self.ar, &pc, extra);
        }
        if let Res::Unknown = r {
            self.stats.ext_solver += 1;
            r = crate::smt::external(&self.ar, &pc, extra, &self.cfg);
            if let Res::Unknown = r {
                if self.cfg.int_first {
                    r = self.z.check(&self.ar, &pc, extra);
                }
            }
        }
        self.stats.solver_ns += t0.elapsed().as_nanos();
        if std::env::var("SYMIR_SLOW").is_ok() && t0.elapsed().as_millis() > 1000 {
            eprintln!("slow query {} ms pc={} {}", t0.elapsed().as_millis(), pc.len(), self.ar.show(extra, std::env::var("SYMIR_DEPTH").ok().and_then(|v| v.parse().ok()).unwrap_or(4)));
        }
        match r {
            Res::Sat(m) => {
                self.stats.sat += 1;
                if cfg!(debug_assertions) || self.stats.sat % 64 == 1 {
                    // the model must satisfy what was asked
                    let mut memo = Default::default();
                    for &c in pc.iter().chain(std::iter::once(&extra)) {
                        if self.ar.eval(c, &m, &mut memo) != 1 {
                            return err(format!("solver model does not satisfy the query: {}", self.ar.show(c, 6)));
                        }
                    }
                }
                Ok(Some(m))
            }
            Res::Unsat => {
                self.stats.unsat += 1;
                Ok(None)
            }
            Res::Unknown => {
                self.stats.unknown += 1;
                err("solver gave no answer within its limits".to_string())
            }
        }
    }
    fn add_fact(&mut self, c: Id, val: bool) {
        let ar = &self.ar;
        let facts = Rc::make_mut(&mut self.st.facts);
        let mut stack = vec![(c, val)];
        while let Some((c, val)) = stack.pop() {
            if c == T || c == F {
                continue;
            }
            facts.insert(c, if val { T } else { F });
            let n = ar.n(c);
            match n.op {
                Op::Xor if n.b == T => stack.push((n.a, !val)),
                Op::And if val => {
                    stack.push((n.a, true));
                    stack.push((n.b, true));
                }
                Op::Or if !val => {
                    stack.push((n.a, false));
                    stack.push((n.b, false));
                }
                Op::Eq if val => {
                    if ar.k(n.b).is_some() && n.a != n.b {
                        facts.insert(n.a, n.b);
                        // x ++ y == k etc. : structural inversion
                        let k = ar.k(n.b).unwrap();
                        let _ = k;
                    } else if ar.k(n.a).is_some() {
                        facts.insert(n.b, n.a);
                    }
                }
                Op::Ult | Op::Slt => {
                    // complement form
                    let o = if n.op == Op::Ult { Op::Ule } else { Op::Sle };
                    let _ = o;
                }
                _ => {}
            }
        }
        self.vercount += 1;
        self.st.version = self.vercount;
    }
    fn add_eq_fact(&mut self, e: Id, k: Id) {
        // e == k known; peel zero extensions / adds so that the core is known too
        let mut e = e;
        let mut k = k;
        loop {
            let n = self.ar.n(e);
            if n.op == Op::Const || e == k {
                break;
            }
            Rc::make_mut(&mut self.st.facts).insert(e, k);
            match n.op {
                Op::ZExt | Op::SExt => {
                    let w = self.ar.w(n.a);
                    k = self.ar.extract(k, 0, w);
                    e = n.a;
                }
                Op::Add if self.ar.k(n.b).is_some() => {
                    k = self.ar.bin(Op::Sub, k, n.b);
                    e = n.a;
                }
                Op::Concat if self.ar.k(n.b).is_some() => {
                    let wb = self.ar.w(n.b);
                    let wa = self.ar.w(n.a);
                    k = self.ar.extract(k, wb, wa);
                    e = n.a;
                }
                _ => break,
            }
        }
        self.vercount += 1;
        self.st.version = self.vercount;
    }
    fn add_pc(&mut self, c: Id) {
        if c == T {
            return;
        }
        Rc::make_mut(&mut self.st.pc).push(c);
        self.add_fact(c, true);
    }
    /// rewrite under what is known on this path
    pub fn rw(&mut self, e: Id) -> Id {
        if self.ar.k(e).is_some() || self.st.facts.is_empty() {
            return e;
        }
        if self.rw_ver != self.st.version {
            self.rw_memo.clear();
            self.rw_ver = self.st.version;
        }
        let facts = self.st.facts.clone();
        Self::rw_go(&mut self.ar, &facts, &mut self.rw_memo, e)
    }
    fn rw_go(ar: &mut Arena, facts: &FxMap<Id, Id>, memo: &mut FxMap<Id, Id>, e: Id) -> Id {
        let n = ar.n(e);
        if n.op == Op::Const {
            return e;
        }
        if let Some(&k) = facts.get(&e) {
            return k;
        }
        if n.op == Op::Var {
            return e;
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let r = match n.op {
            Op::Ite => {
                let c = Self::rw_go(ar, facts, memo, n.a);
                if c == T {
                    Self::rw_go(ar, facts, memo, n.b)
                } else if c == F {
                    Self::rw_go(ar, facts, memo, n.c)
                } else {
                    let x = Self::rw_go(ar, facts, memo, n.b);
                    let y = Self::rw_go(ar, facts, memo, n.c);
                    if c == n.a && x == n.b && y == n.c {
                        e
                    } else {
                        ar.ite(c, x, y)
                    }
                }
            }
            _ => {
                let nk = Arena::nkids(n.op);
                let a = Self::rw_go(ar, facts, memo, n.a);
                let b = if nk > 1 { Self::rw_go(ar, facts, memo, n.b) } else { 0 };
                if a == n.a && (nk < 2 || b == n.b) {
                    e
                } else {
                    ar.rebuild(n, a, b, 0)
                }
            }
        };
        let r = facts.get(&r).copied().unwrap_or(r);
        memo.insert(e, r);
        r
    }

    fn push_state(&mut self, s: State) {
        self.stats.forks += 1;
        self.work.push(s);
    }

    /// Decide a condition; queues the other side when both are feasible.
    fn is_const(&self, v: &Val) -> bool {
        matches!(v, Val::E(x) if self.ar.k(*x).is_some())
    }
    pub fn branch(&mut self, c0: Id) -> R<bool> {
        if c0 == T {
            return Ok(true);
        }
        if c0 == F {
            return Ok(false);
        }
        let c = self.rw(c0);
        if c == T {
            return Ok(true);
        }
        if c == F {
            return Ok(false);
        }
        let v = self.eval(c) != 0;
        let nc = self.ar.not(c);
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.solve(other)? {
            None => {
                self.add_fact(c0, v);
                self.add_fact(c, v);
                self.note_eq(mine);
                Ok(v)
            }
            Some(m) => {
                // clone for the other side
                let keep_model = self.st.model.clone();
                let keep = self.st.clone();
                self.st.model = Rc::new(m);
                self.st.forks += 1;
                self.add_pc(other);
                self.add_fact(c0, !v);
                self.note_eq(other);
                let o = std::mem::replace(&mut self.st, keep);
                self.push_state(o);
                self.st.model = keep_model;
                self.st.forks += 1;
                self.add_pc(mine);
                self.add_fact(c0, v);
                self.note_eq(mine);
                Ok(v)
            }
        }
    }
    fn note_eq(&mut self, c: Id) {
        let n = self.ar.n(c);
        if n.op == Op::Eq {
            if self.ar.k(n.b).is_some() {
                self.add_eq_fact(n.a, n.b)
            } else if self.ar.k(n.a).is_some() {
                self.add_eq_fact(n.b, n.a)
            }
        }
    }
    /// Force a value to be concrete, forking over the alternatives.
    pub fn concretize(&mut self, e: Id) -> R<u128> {
        if let Some(k) = self.ar.k(e) {
            return Ok(k);
        }
        loop {
            let x = self.rw(e);
            if let Some(k) = self.ar.k(x) {
                return Ok(k);
            }
            let v = self.eval(x);
            let w = self.ar.w(x);
            let k = self.ar.konst(v, w);
            let c = self.ar.eq(x, k);
            if self.branch(c)? {
                self.add_eq_fact(x, k);
                self.add_eq_fact(e, k);
                return Ok(v);
            }
        }
    }

    // ---------- memory ----------
    fn find_mem(&self, a: u64) -> Option<usize> {
        let i = self.st.mem.partition_point(|o| o.base <= a);
        if i == 0 {
            return None;
        }
        let o = &self.st.mem[i - 1];
        if a < o.base + o.size {
            Some(i - 1)
        } else {
            None
        }
    }
    fn ensure_global(&mut self, a: u64) -> R<Option<u64>> {
        // returns base if address lies in a global; materialises it
        let i = self.gsorted.partition_point(|g| g.0 <= a);
        if i == 0 {
            return Ok(None);
        }
        let (base, size, gi) = self.gsorted[i - 1];
        if a >= base + size {
            return Ok(None);
        }
        if !self.gcache.contains_key(&gi) {
            let ty = self.m.globals[gi].ty.clone();
            let v = match self.m.global_init(&mut self.ar, gi) {
                Ok(Some(v)) => v,
                Ok(None) => return err(format!("external global {}", self.m.globals[gi].name)),
                Err(e) => return err(format!("global {}: {}", self.m.globals[gi].name, e)),
            };
            let mut cells = vec![Cell::K(0); size as usize];
            self.put(&mut cells, 0, &ty, &v);
            self.gcache.insert(gi, Rc::new(Obj { base, size, cells, heap: false }));
        }
        let o = self.gcache[&gi].clone();
        let p = self.st.mem.partition_point(|x| x.base < base);
        self.st.mem.insert(p, o);
        Ok(Some(base))
    }
    fn locate(&mut self, a: u64) -> R<Option<usize>> {
        if let Some(i) = self.find_mem(a) {
            return Ok(Some(i));
        }
        if a >= GLOBAL_BASE && a < HEAP_BASE && self.ensure_global(a)?.is_some() {
            return Ok(self.find_mem(a));
        }
        Ok(None)
    }
    fn put(&mut self, cells: &mut [Cell], off: usize, ty: &Ty, v: &Val) {
        match (ty, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::Float(_), Val::E(e)) => {
                let n = ty.store_size() as usize;
                let mut e = *e;
                let w = self.ar.w(e);
                if let Some(k) = self.ar.k(e) {
                    for i in 0..n {
                        cells[off + i] = Cell::K((k >> (8 * i)) as u8);
                    }
                    return;
                }
                if w as usize != n * 8 {
                    e = self.ar.zext(e, (n * 8) as u8);
                }
                for i in 0..n {
                    cells[off + i] = Cell::P(e, i as u8);
                }
            }
            (Ty::Vec(n, t), Val::Agg(v)) if **t == Ty::Int(1) => {
                for i in 0..*n as usize {
                    // packed bits
                    let _ = i;
                }
                let mut acc: Option<Id> = None;
                for x in v.iter() {
                    if let Val::E(e) = x {
                        acc = Some(match acc {
                            None => *e,
                            Some(a) => self.ar.bin(Op::Concat, *e, a),
                        });
                    }
                }
                let bytes = ((n + 7) / 8) as usize;
                let e = self.ar.zext(acc.unwrap(), (bytes * 8) as u8);
                let t = Ty::Int((bytes * 8) as u8);
                self.put(cells, off, &t, &Val::E(e));
            }
            (_, Val::Agg(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, t) = ty.field(i);
                    self.put(cells, off + o as usize, &t, x);
                }
            }
            _ => {}
        }
    }
    fn get(&mut self, cells: &[Cell], off: usize, ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) => {
                let n = ty.store_size() as usize;
                let e = self.get_bytes(&cells[off..off + n]);
                if *w as usize != n * 8 {
                    Val::E(self.ar.extract(e, 0, *w))
                } else {
                    Val::E(e)
                }
            }
            Ty::Ptr => Val::E(self.get_bytes(&cells[off..off + 8])),
            Ty::Float(w) => Val::E(self.get_bytes(&cells[off..off + *w as usize / 8])),
            Ty::Vec(n, t) if **t == Ty::Int(1) => {
                let bytes = ((n + 7) / 8) as usize;
                let e = self.get_bytes(&cells[off..off + bytes]);
                let v = (0..*n as u8).map(|i| Val::E(self.ar.extract(e, i, 1))).collect();
                Val::Agg(Rc::new(v))
            }
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let v = (0..ty.nfields())
                    .map(|i| {
                        let (o, t) = ty.field(i);
                        self.get(cells, off + o as usize, &t)
                    })
                    .collect();
                Val::Agg(Rc::new(v))
            }
            _ => Val::E(F),
        }
    }
    fn get_bytes(&mut self, c: &[Cell]) -> Id {
        let n = c.len();
        if let Cell::P(e, 0) = c[0] {
            if self.ar.w(e) as usize == n * 8 && (1..n).all(|i| c[i] == Cell::P(e, i as u8)) {
                return e;
            }
        }
        let mut acc: Option<Id> = None;
        let mut i = 0;
        while i < n {
            let (e, l) = match c[i] {
                Cell::U => (self.ar.konst(0, 8), 1),
                Cell::K(_) => {
                    let mut v = 0u128;
                    let mut j = i;
                    while j < n {
                        match c[j] {
                            Cell::K(b) => v |= (b as u128) << (8 * (j - i)),
                            Cell::U => {}
                            _ => break,
                        }
                        j += 1;
                    }
                    (self.ar.konst(v, (8 * (j - i)) as u8), j - i)
                }
                Cell::P(e, k) => {
                    let mut j = i + 1;
                    while j < n && c[j] == Cell::P(e, k + (j - i) as u8) {
                        j += 1;
                    }
                    (self.ar.extract(e, k * 8, (8 * (j - i)) as u8), j - i)
                }
            };
            acc = Some(match acc {
                None => e,
                Some(a) => self.ar.bin(Op::Concat, e, a),
            });
            i += l;
        }
        acc.unwrap()
    }
    fn obj_mut(&mut self, i: usize) -> &mut Obj {
        Rc::make_mut(&mut self.st.mem[i])
    }
    pub fn alloc(&mut self, size: u64, align: u64, heap: bool) -> u64 {
        let al = align.max(16);
        let base = (self.st.next + al - 1) / al * al;
        self.st.next = base + size.max(1) + 32;
        let o = Obj { base, size, cells: vec![Cell::U; size as usize], heap };
        // addresses grow, so this stays sorted
        self.st.mem.push(Rc::new(o));
        base
    }
    fn free(&mut self, base: u64) -> R<()> {
        match self.find_mem_base(base) {
            Some(i) => {
                self.st.mem.remove(i);
                Ok(())
            }
            None => self.bad_mem(format!("free of unknown address {:#x}", base)),
        }
    }
    fn find_mem_base(&self, base: u64) -> Option<usize> {
        let i = self.st.mem.partition_point(|o| o.base < base);
        if i < self.st.mem.len() && self.st.mem[i].base == base {
            Some(i)
        } else {
            None
        }
    }
    fn bad_mem<X>(&mut self, s: String) -> R<X> {
        if std::env::var("SYMIR_MEM").is_ok() {
            self.backtrace();
            for o in &self.st.mem {
                eprintln!("  obj {:#x} +{}", o.base, o.size);
            }
        }
        Err(Stop::Violation(self.mk_violation("memory", s)))
    }
    pub fn backtrace(&self) {
        for f in self.st.frames.iter().rev() {
            eprintln!("   at {} bb{} ip{}", f.f.name, f.bb, f.ip);
        }
    }

    /// (stride, residue): every value of e is congruent to residue modulo stride (0 = exact)
    fn stride(&self, e: Id, d: u32) -> (u128, u128) {
        fn gcd(a: u128, b: u128) -> u128 {
            if b == 0 {
                a
            } else {
                gcd(b, a % b)
            }
        }
        let n = self.ar.n(e);
        if d == 0 {
            return (1, 0);
        }
        let p2 = |s: u128| if s == 0 { 0 } else { s & s.wrapping_neg() };
        let m = mask(n.w);
        match n.op {
            Op::Const => (0, n.k),
            Op::ZExt => self.stride(n.a, d - 1),
            Op::Add | Op::Sub => {
                let (s1, r1) = self.stride(n.a, d - 1);
                let (s2, r2) = self.stride(n.b, d - 1);
                let mut s = gcd(s1, s2);
                let wrap = if n.op == Op::Add {
                    self.ar.hi(n.a).checked_add(self.ar.hi(n.b)).map_or(true, |x| x > m)
                } else {
                    self.ar.lo(n.a) < self.ar.hi(n.b)
                };
                let r = if n.op == Op::Add { r1.wrapping_add(r2) & m } else { r1.wrapping_sub(r2) & m };
                if wrap {
                    s = p2(s);
                }
                if s == 0 {
                    return (0, r);
                }
                (s, r % s)
            }
            Op::Mul if self.ar.k(n.b).is_some() => {
                let k = self.ar.k(n.b).unwrap();
                let (s1, r1) = self.stride(n.a, d - 1);
                let wrap = self.ar.hi(n.a).checked_mul(k).map_or(true, |x| x > m);
                let mut s = s1.wrapping_mul(k);
                let r = r1.wrapping_mul(k) & m;
                if s1 == 0 {
                    return (0, r);
                }
                if wrap {
                    s = p2(s1).wrapping_mul(p2(k)) & m;
                }
                if s == 0 {
                    return (1, 0);
                }
                (s, r % s)
            }
            Op::Shl if self.ar.k(n.b).is_some() => {
                let k = self.ar.k(n.b).unwrap();
                if k >= 64 {
                    return (1, 0);
                }
                (1u128 << k, 0)
            }
            Op::Concat => {
                let wb = self.ar.w(n.b);
                let (sb, rb) = self.stride(n.b, d - 1);
                if sb == 0 {
                    (1u128 << wb, rb)
                } else {
                    (p2(sb).min(1u128 << wb), rb % p2(sb))
                }
            }
            Op::Ite => {
                let (s1, r1) = self.stride(n.b, d - 1);
                let (s2, r2) = self.stride(n.c, d - 1);
                let df = if r1 > r2 { r1 - r2 } else { r2 - r1 };
                let s = gcd(gcd(s1, s2), df);
                if s == 0 {
                    return (0, r1);
                }
                (s, r1 % s)
            }
            _ => (1, 0),
        }
    }

    /// Resolve an address for an access of n bytes.
    /// Returns object index and candidate (offset, condition) list; one entry
    /// with condition T when the offset is known.
    fn resolve(&mut self, addr: Id, n: u64) -> R<(usize, Vec<(u64, Id)>)> {
        if let Some(k) = self.ar.k(addr) {
            let a = k as u64;
            return match self.locate(a)? {
                Some(i) if a + n <= self.st.mem[i].base + self.st.mem[i].size => Ok((i, vec![(a - self.st.mem[i].base, T)])),
                _ => self.bad_mem(format!("access of {} bytes at {:#x}", n, a)),
            };
        }
        let addr = self.rw(addr);
        if self.ar.k(addr).is_some() {
            return self.resolve(addr, n);
        }
        let a = self.eval(addr) as u64;
        let i = match self.locate(a)? {
            Some(i) if a + n <= self.st.mem[i].base + self.st.mem[i].size => i,
            _ => return self.bad_mem(format!("access of {} bytes at symbolic {:#x}", n, a)),
        };
        let (base, size) = (self.st.mem[i].base, self.st.mem[i].size);
        // stay inside this object?
        let last = base + size - n;
        if !(self.ar.lo(addr) >= base as u128 && self.ar.hi(addr) <= last as u128) {
            let kb = self.ar.konst(base as u128, 64);
            let d = self.ar.bin(Op::Sub, addr, kb);
            let kl = self.ar.konst((size - n) as u128, 64);
            let inside = self.ar.bin(Op::Ule, d, kl);
            if !self.branch(inside)? {
                return self.resolve(addr, n);
            }
        }
        let addr2 = self.rw(addr);
        if let Some(k) = self.ar.k(addr2) {
            return Ok((i, vec![(k as u64 - base, T)]));
        }
        let addr = addr2;
        let (mut s, mut r) = self.stride(addr, 12);
        if s == 0 {
            s = 1;
            r = 0;
        }
        let lo = self.ar.lo(addr).max(base as u128);
        let hi = self.ar.hi(addr).min(last as u128);
        let mut cands = vec![];
        let mut x = lo + (s + r % s - lo % s) % s;
        while x <= hi {
            cands.push(x);
            x += s;
            if cands.len() > self.cfg.ite_limit {
                // too many: fork over concrete values instead
                let v = self.concretize(addr)? as u64;
                return Ok((i, vec![(v - base, T)]));
            }
        }
        let w = self.ar.w(addr);
        let mut out = vec![];
        for x in cands {
            let k = self.ar.konst(x, w);
            let c = self.ar.eq(addr, k);
            let c = self.rw(c);
            if c == F {
                continue;
            }
            out.push((x as u64 - base, c));
            if c == T {
                break;
            }
        }
        if out.is_empty() {
            return err("no candidate offsets");
        }
        Ok((i, out))
    }
    fn ite_val(&mut self, c: Id, a: &Val, b: &Val) -> R<Val> {
        match (a, b) {
            (Val::E(x), Val::E(y)) => Ok(Val::E(self.ar.ite(c, *x, *y))),
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.ite_val(c, &x[i], &y[i])?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => err("ite over mixed values"),
        }
    }
    fn load(&mut self, ty: &Ty, addr: Id) -> R<Val> {
        let n = match ty {
            Ty::Int(_) => ty.store_size(),
            _ => ty.size(),
        };
        if n == 0 {
            return Ok(self.m.zero(&mut self.ar, ty));
        }
        let (i, c) = self.resolve(addr, n)?;
        let o = self.st.mem[i].clone();
        let mut acc: Option<Val> = None;
        for &(off, cond) in c.iter().rev() {
            let v = self.get(&o.cells, off as usize, ty);
            acc = Some(match acc {
                None => v,
                Some(a) => self.ite_val(cond, &v, &a)?,
            });
        }
        Ok(acc.unwrap())
    }
    fn store(&mut self, ty: &Ty, v: &Val, addr: Id) -> R<()> {
        let n = match ty {
            Ty::Int(_) => ty.store_size(),
            _ => ty.size(),
        };
        if n == 0 {
            return Ok(());
        }
        let (i, c) = self.resolve(addr, n)?;
        let mut cells = std::mem::take(&mut self.obj_mut(i).cells);
        if c.len() == 1 {
            self.put(&mut cells, c[0].0 as usize, ty, v);
        } else {
            for &(off, cond) in &c {
                let old = self.get(&cells, off as usize, ty);
                let nv = self.ite_val(cond, v, &old)?;
                self.put(&mut cells, off as usize, ty, &nv);
            }
        }
        self.obj_mut(i).cells = cells;
        Ok(())
    }
    fn addr_of(&mut self, a: Id, n: u64) -> R<(usize, usize)> {
        // concrete location of an n-byte block
        let a = self.concretize(a)? as u64;
        match self.locate(a)? {
            Some(i) if a + n <= self.st.mem[i].base + self.st.mem[i].size => Ok((i, (a - self.st.mem[i].base) as usize)),
            _ => self.bad_mem(format!("block access of {} bytes at {:#x}", n, a)),
        }
    }
    pub fn read_bytes(&mut self, a: Id, n: u64) -> R<Vec<Id>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (i, off) = self.addr_of(a, n)?;
        let o = self.st.mem[i].clone();
        Ok((0..n as usize).map(|k| self.get_bytes(&o.cells[off + k..off + k + 1])).collect())
    }

    // ---------- values ----------
    fn op(&self, o: &Opnd) -> Val {
        match o {
            Opnd::K(v) => v.clone(),
            Opnd::R(r) => self.st.frames.last().unwrap().regs[*r as usize].clone(),
        }
    }
    fn ope(&self, o: &Opnd) -> R<Id> {
        match o {
            Opnd::K(Val::E(e)) => Ok(*e),
            Opnd::R(r) => match &self.st.frames.last().unwrap().regs[*r as usize] {
                Val::E(e) => Ok(*e),
                _ => err("scalar expected"),
            },
            _ => err("scalar expected"),
        }
    }
    fn set(&mut self, r: u32, v: Val) {
        self.st.frames.last_mut().unwrap().regs[r as usize] = v;
    }
    fn map2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, Id, Id) -> Id) -> R<Val> {
        match (a, b) {
            (Val::E(x), Val::E(y)) => Ok(Val::E(f(self, *x, *y))),
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.map2(&x[i], &y[i], f)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => err("vector shape"),
        }
    }
    fn map1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Self, Id) -> Id) -> Val {
        match a {
            Val::E(x) => Val::E(f(self, *x)),
            Val::Agg(x) => {
                let v = x.iter().map(|y| self.map1(y, f)).collect();
                Val::Agg(Rc::new(v))
            }
        }
    }
    fn inputs(&self, model: &[u128]) -> Vec<(u8, u128)> {
        self.st.nvar.iter().map(|&v| (self.ar.var_names[v].1, model.get(v).copied().unwrap_or(0) & mask(self.ar.var_names[v].1))).collect()
    }
    fn obs_vals(&mut self) -> Vec<u128> {
        let o = self.st.obs.clone();
        o.iter().map(|&e| self.eval(e)).collect()
    }
    pub fn mk_violation(&mut self, kind: &str, msg: String) -> Violation {
        let m = self.st.model.clone();
        let inputs = self.inputs(&m);
        let obs = self.obs_vals();
        Violation { kind: kind.to_string(), msg, inputs, obs }
    }
    pub fn mk_trace(&mut self, outcome: &str) -> Trace {
        let m = self.st.model.clone();
        let inputs = self.inputs(&m);
        let obs = self.obs_vals();
        Trace { outcome: outcome.to_string(), inputs, obs }
    }

    // ---------- stepping ----------
    /// Run the current state to its end.
    pub fn run_state(&mut self) -> Stop {
        let mut tick = 0u32;
        loop {
            tick = tick.wrapping_add(1);
            if tick & 0xfff == 0 && (self.stop_check)() {
                return Stop::Halt;
            }
            if let Err(s) = self.step() {
                return s;
            }
        }
    }
    fn jump(&mut self, to: u32) -> R<()> {
        let fr = self.st.frames.last_mut().unwrap();
        let from = fr.bb;
        fr.bb = to;
        let f = fr.f.clone();
        let blk = &f.blocks[to as usize];
        let mut ip = 0;
        let mut vals: Vec<(u32, Val)> = vec![];
        while let Some(Ins::Phi(dst, inc)) = blk.get(ip) {
            let mut found = None;
            for (b, o) in inc {
                if *b == from {
                    found = Some(o);
                    break;
                }
            }
            match found {
                Some(o) => {
                    let v = match o {
                        Opnd::K(v) => v.clone(),
                        Opnd::R(r) => fr.regs[*r as usize].clone(),
                    };
                    vals.push((*dst, v));
                }
                None => return err(format!("phi without matching predecessor in {} block {} from {}: {:?}", f.name, to, from, inc.iter().map(|x| x.0).collect::<Vec<_>>())),
            }
            ip += 1;
        }
        for (d, v) in vals {
            fr.regs[d as usize] = v;
        }
        fr.ip = ip as u32;
        self.hits.insert((f.id, to));
        Ok(())
    }
    fn next(&mut self) {
        self.st.frames.last_mut().unwrap().ip += 1;
    }

    fn step(&mut self) -> R<()> {
        self.st.steps += 1;
        self.stats.steps += 1;
        if self.st.steps > self.cfg.max_steps {
            let v = self.mk_violation("hang", format!("more than {} instructions executed", self.cfg.max_steps));
            return Err(Stop::Violation(v));
        }
        let fr = self.st.frames.last().unwrap();
        let f = fr.f.clone();
        let ins = match f.blocks[fr.bb as usize].get(fr.ip as usize) {
            Some(i) => i,
            None => return err("fell off a block"),
        };
        match ins {
            Ins::Nop => {}
            Ins::Bin(op, d, a, b) => {
                let (a, b) = (self.op(a), self.op(b));
                let op = *op;
                let v = match (&a, &b) {
                    (Val::E(x), Val::E(y)) => Val::E(self.binop(op, *x, *y)?),
                    _ => {
                        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                            return err("vector division");
                        }
                        self.map2(&a, &b, &mut |s, x, y| s.ar.bin(op, x, y))?
                    }
                };
                self.set(*d, v);
            }
            Ins::ICmp(p, d, a, b) => {
                let (a, b) = (self.op(a), self.op(b));
                let p = *p;
                let v = self.map2(&a, &b, &mut |s, x, y| s.icmp(p, x, y))?;
                self.set(*d, v);
            }
            Ins::Select(d, c, a, b) => {
                let (c, a, b) = (self.op(c), self.op(a), self.op(b));
                let v = match &c {
                    Val::E(c) => {
                        if *c == T {
                            a
                        } else if *c == F {
                            b
                        } else if self.cfg.fork_select && matches!(&a, Val::E(x) if self.ar.w(*x) >= 8) && !(self.is_const(&a) && self.is_const(&b)) {
                            if self.branch(*c)? {
                                a
                            } else {
                                b
                            }
                        } else {
                            self.ite_val(*c, &a, &b)?
                        }
                    }
                    Val::Agg(cs) => match (&a, &b) {
                        (Val::Agg(x), Val::Agg(y)) => {
                            let mut v = vec![];
                            for i in 0..cs.len() {
                                let ci = match &cs[i] {
                                    Val::E(e) => *e,
                                    _ => return err("select mask"),
                                };
                                v.push(self.ite_val(ci, &x[i], &y[i])?);
                            }
                            Val::Agg(Rc::new(v))
                        }
                        _ => return err("vector select"),
                    },
                };
                self.set(*d, v);
            }
            Ins::Phi(..) => return err("stray phi"),
            Ins::Br(b) => return self.jump(*b),
            Ins::CondBr(c, a, b) => {
                if a == b {
                    return self.jump(*a);
                }
                let c = self.ope(c)?;
                let t = self.branch(c)?;
                return self.jump(if t { *a } else { *b });
            }
            Ins::Switch(o, d, cs) => {
                let x = self.ope(o)?;
                let x = self.rw(x);
                if let Some(k) = self.ar.k(x) {
                    for (v, b) in cs {
                        if let Opnd::K(Val::E(e)) = v {
                            if self.ar.k(*e) == Some(k) {
                                return self.jump(*b);
                            }
                        }
                    }
                    return self.jump(*d);
                }
                // group cases by target
                let mut order: Vec<(u32, Id)> = vec![];
                for (v, b) in cs {
                    let e = match v {
                        Opnd::K(Val::E(e)) => *e,
                        _ => return err("switch case"),
                    };
                    let c = self.ar.eq(x, e);
                    match order.iter_mut().find(|t| t.0 == *b) {
                        Some(t) => {
                            let o = self.ar.or(t.1, c);
                            t.1 = o;
                        }
                        None => order.push((*b, c)),
                    }
                }
                for (b, c) in order {
                    if b == *d {
                        continue;
                    }
                    if self.branch(c)? {
                        return self.jump(b);
                    }
                }
                return self.jump(*d);
            }
            Ins::Ret(o) => {
                let v = o.as_ref().map(|o| self.op(o));
                return self.ret(v);
            }
            Ins::Unreachable => {
                let v = self.mk_violation("unreachable", format!("reached an unreachable instruction in {}", f.name));
                return Err(Stop::Violation(v));
            }
            Ins::Call(d, callee, args, ty) => {
                return self.call(*d, callee, args, ty);
            }
            Ins::Load(d, ty, p) => {
                let p = self.ope(p)?;
                let v = self.load(ty, p)?;
                self.set(*d, v);
            }
            Ins::Store(ty, v, p) => {
                let p = self.ope(p)?;
                let v = self.op(v);
                self.store(ty, &v, p)?;
            }
            Ins::Gep(d, base, off, terms) => {
                let mut a = self.ope(base)?;
                let k = self.ar.konst(*off as u128, 64);
                a = self.ar.bin(Op::Add, a, k);
                for (o, sc) in terms {
                    let i = self.ope(o)?;
                    let w = self.ar.w(i);
                    let i = if w < 64 { self.ar.sext(i, 64) } else { self.ar.extract(i, 0, 64) };
                    let k = self.ar.konst(*sc as u128, 64);
                    let t = self.ar.bin(Op::Mul, i, k);
                    a = self.ar.bin(Op::Add, a, t);
                }
                self.set(*d, Val::E(a));
            }
            Ins::Alloca(d, size, al, n) => {
                let n = self.ope(n)?;
                let n = self.concretize(n)? as u64;
                let a = self.alloc(size * n, *al, false);
                self.st.frames.last_mut().unwrap().allocas.push(a);
                let e = self.ar.konst(a as u128, 64);
                self.set(*d, Val::E(e));
            }
            Ins::Cast(k, d, o, from, to) => {
                let v = self.op(o);
                let v = match k {
                    CastK::Copy => {
                        if from == to || (from.is_scalar() && to.is_scalar()) {
                            v
                        } else {
                            // vector bitcast: go through bytes
                            let n = from.size() as usize;
                            let mut cells = vec![Cell::U; n.max(16)];
                            self.put(&mut cells, 0, from, &v);
                            self.get(&cells, 0, to)
                        }
                    }
                    _ => {
                        let el = match to {
                            Ty::Vec(_, t) => (**t).clone(),
                            t => t.clone(),
                        };
                        let w = el.bits();
                        let k = *k;
                        self.map1(&v, &mut |s, x| match k {
                            CastK::Zext => s.ar.zext(x, w),
                            CastK::Sext => s.ar.sext(x, w),
                            _ => s.ar.extract(x, 0, w),
                        })
                    }
                };
                self.set(*d, v);
            }
            Ins::ExtractValue(d, o, ix) => {
                let mut v = self.op(o);
                for i in ix {
                    v = match &v {
                        Val::Agg(a) => a[*i as usize].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                self.set(*d, v);
            }
            Ins::InsertValue(d, o, x, ix) => {
                let v = self.op(o);
                let x = self.op(x);
                fn ins(v: &Val, x: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        Val::Agg(a) => {
                            let mut a = (**a).clone();
                            let i = ix[0] as usize;
                            a[i] = ins(&a[i], x, &ix[1..]);
                            Val::Agg(Rc::new(a))
                        }
                        v => v.clone(),
                    }
                }
                let r = ins(&v, x, ix);
                self.set(*d, r);
            }
            Ins::ExtractElem(d, o, i) => {
                let v = self.op(o);
                let i = self.ope(i)?;
                let i = self.concretize(i)? as usize;
                let r = match &v {
                    Val::Agg(a) if i < a.len() => a[i].clone(),
                    _ => return err("extractelement"),
                };
                self.set(*d, r);
            }
            Ins::InsertElem(d, o, x, i) => {
                let v = self.op(o);
                let x = self.op(x);
                let i = self.ope(i)?;
                let i = self.concretize(i)? as usize;
                let r = match &v {
                    Val::Agg(a) if i < a.len() => {
                        let mut a = (**a).clone();
                        a[i] = x;
                        Val::Agg(Rc::new(a))
                    }
                    _ => return err("insertelement"),
                };
                self.set(*d, r);
            }
            Ins::Shuffle(d, a, b, mk) => {
                let (a, b) = (self.op(a), self.op(b));
                let r = match (&a, &b) {
                    (Val::Agg(x), Val::Agg(y)) => {
                        let v = mk
                            .iter()
                            .map(|i| match i {
                                Some(i) if *i < x.len() => x[*i].clone(),
                                Some(i) if *i < x.len() + y.len() => y[*i - x.len()].clone(),
                                _ => x[0].clone(),
                            })
                            .collect();
                        Val::Agg(Rc::new(v))
                    }
                    _ => return err("shufflevector"),
                };
                self.set(*d, r);
            }
            Ins::AtomicRmw(d, op, ty, p, v) => {
                let p = self.ope(p)?;
                let v = self.ope(v)?;
                let old = match self.load(ty, p)? {
                    Val::E(e) => e,
                    _ => return err("atomicrmw"),
                };
                let nv = match op.as_str() {
                    "xchg" => v,
                    "add" => self.ar.bin(Op::Add, old, v),
                    "sub" => self.ar.bin(Op::Sub, old, v),
                    "or" => self.ar.bin(Op::Or, old, v),
                    "and" => self.ar.bin(Op::And, old, v),
                    "xor" => self.ar.bin(Op::Xor, old, v),
                    o => return err(format!("atomicrmw {}", o)),
                };
                self.store(ty, &Val::E(nv), p)?;
                self.set(*d, Val::E(old));
            }
            Ins::CmpXchg(d, ty, p, a, b) => {
                let p = self.ope(p)?;
                let (a, b) = (self.ope(a)?, self.ope(b)?);
                let old = match self.load(ty, p)? {
                    Val::E(e) => e,
                    _ => return err("cmpxchg"),
                };
                let c = self.ar.eq(old, a);
                let nv = self.ar.ite(c, b, old);
                self.store(ty, &Val::E(nv), p)?;
                self.set(*d, Val::Agg(Rc::new(vec![Val::E(old), Val::E(c)])));
            }
            Ins::Unsupported(s) => return err(format!("unsupported: {} (in {})", s, f.name)),
        }
        self.next();
        Ok(())
    }
    fn binop(&mut self, op: Op, a: Id, b: Id) -> R<Id> {
        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && self.ar.k(b).is_none() {
            // operands are often fixed on this path
            let a2 = self.rw(a);
            let b2 = self.rw(b);
            if self.cfg.fork_div > 0 && self.ar.k(b2).is_none() && self.span(b2) < self.cfg.fork_div {
                let w = self.ar.w(b2);
                let k = self.concretize(b2)?;
                let k = self.ar.konst(k, w);
                let a2 = self.rw(a2);
                return Ok(self.ar.bin(op, a2, k));
            }
            if self.cfg.fork_div > 0 && self.ar.k(b2).is_none() {
                if let Some(r) = self.small_dividend(op, a2, b2)? {
                    return Ok(r);
                }
            }
            if self.cfg.split_div > 0 && self.ar.k(b2).is_none() {
                return self.split_div(op, a2, b2);
            }
            return Ok(self.ar.bin(op, a2, b2));
        }
        Ok(self.ar.bin(op, a, b))
    }
    fn span(&self, e: Id) -> u128 {
        let u = self.ar.hi(e) - self.ar.lo(e);
        match self.ar.shi(e).checked_sub(self.ar.slo(e)) {
            Some(s) => u.min(s as u128),
            None => u,
        }
    }
    /// a small dividend: either the divisor is larger, or it has few values
    fn small_dividend(&mut self, op: Op, a: Id, b: Id) -> R<Option<Id>> {
        let w = self.ar.w(a);
        let signed = matches!(op, Op::SDiv | Op::SRem);
        let top = if signed {
            if self.ar.slo(a) < -(self.cfg.fork_div as i128) {
                return Ok(None);
            }
            self.ar.shi(a).max(-self.ar.slo(a)) as u128
        } else {
            self.ar.hi(a)
        };
        if top >= self.cfg.fork_div || top >> (w - 1).min(100) != 0 {
            return Ok(None);
        }
        let t = self.ar.konst(top, w);
        let z = self.ar.konst(0, w);
        let large = if signed {
            let up = self.ar.bin(Op::Slt, t, b);
            let n = self.ar.bin(Op::Sub, z, t);
            let down = self.ar.bin(Op::Slt, b, n);
            self.ar.or(up, down)
        } else {
            self.ar.bin(Op::Ult, t, b)
        };
        if self.branch(large)? {
            return Ok(Some(if matches!(op, Op::UDiv | Op::SDiv) { z } else { a }));
        }
        let k = self.concretize(b)?;
        let k = self.ar.konst(k, w);
        let a = self.rw(a);
        Ok(Some(self.ar.bin(op, a, k)))
    }
    /// division by an unknown: one path per small quotient, where the result
    /// is linear in the operands
    fn split_div(&mut self, op: Op, a: Id, b: Id) -> R<Id> {
        let w = self.ar.w(a);
        let signed = matches!(op, Op::SDiv | Op::SRem);
        let r = self.ar.bin(op, a, b);
        if !matches!(self.ar.n(r).op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) || w > 100 {
            return Ok(r);
        }
        let (mut x, mut y, mut na, mut nb) = (a, b, false, false);
        let z = self.ar.konst(0, w);
        if signed {
            let c = self.ar.bin(Op::Slt, a, z);
            na = self.branch(c)?;
            let c = self.ar.bin(Op::Slt, b, z);
            nb = self.branch(c)?;
            let ext = w + 1;
            x = self.ar.sext(a, ext);
            y = self.ar.sext(b, ext);
            let z = self.ar.konst(0, ext);
            if na {
                x = self.ar.bin(Op::Sub, z, x);
            }
            if nb {
                y = self.ar.bin(Op::Sub, z, y);
            }
        }
        let ext = w + 10;
        let x = if signed { self.ar.sext(x, ext) } else { self.ar.zext(x, ext) };
        let y = if signed { self.ar.sext(y, ext) } else { self.ar.zext(y, ext) };
        for k in 0..self.cfg.split_div {
            let kk = self.ar.konst(k as u128 + 1, ext);
            let t = self.ar.bin(Op::Mul, kk, y);
            let c = if signed { self.ar.bin(Op::Slt, x, t) } else { self.ar.bin(Op::Ult, x, t) };
            if self.branch(c)? {
                let kq = self.ar.konst(k as u128, w);
                let neg = self.ar.bin(Op::Sub, z, kq);
                let q = if na != nb { neg } else { kq };
                return Ok(if matches!(op, Op::UDiv | Op::SDiv) {
                    q
                } else {
                    let m = self.ar.bin(Op::Mul, q, b);
                    self.ar.bin(Op::Sub, a, m)
                });
            }
        }
        Ok(r)
    }
    fn icmp(&mut self, p: Pred, x: Id, y: Id) -> Id {
        let ar = &mut self.ar;
        match p {
            Pred::Eq => ar.eq(x, y),
            Pred::Ne => {
                let e = ar.eq(x, y);
                ar.not(e)
            }
            Pred::Ult => ar.bin(Op::Ult, x, y),
            Pred::Ule => ar.bin(Op::Ule, x, y),
            Pred::Ugt => ar.bin(Op::Ult, y, x),
            Pred::Uge => ar.bin(Op::Ule, y, x),
            Pred::Slt => ar.bin(Op::Slt, x, y),
            Pred::Sle => ar.bin(Op::Sle, x, y),
            Pred::Sgt => ar.bin(Op::Slt, y, x),
            Pred::Sge => ar.bin(Op::Sle, y, x),
        }
    }
    fn ret(&mut self, v: Option<Val>) -> R<()> {
        let fr = self.st.frames.pop().unwrap();
        for a in fr.allocas.iter().rev() {
            if let Some(i) = self.find_mem_base(*a) {
                self.st.mem.remove(i);
            }
        }
        if self.st.frames.is_empty() {
            return Err(Stop::Done);
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            self.set(d, v);
        }
        self.next();
        Ok(())
    }
    fn fin(&mut self, d: Option<u32>, v: Option<Val>) -> R<()> {
        if let (Some(d), Some(v)) = (d, v) {
            self.set(d, v);
        }
        self.next();
        Ok(())
    }
    fn fine(&mut self, d: Option<u32>, e: Id) -> R<()> {
        self.fin(d, Some(Val::E(e)))
    }

    fn call(&mut self, d: Option<u32>, callee: &Callee, args: &[Opnd], ty: &Ty) -> R<()> {
        let name = match callee {
            Callee::Name(n) => {
                let mut n = n.as_str();
                while let Some(a) = self.m.aliases.get(n) {
                    n = a;
                }
                n.to_string()
            }
            Callee::Ind(o) => {
                let p = self.ope(o)?;
                let a = self.concretize(p)? as u64;
                match self.m.addr_fn.get(&a) {
                    Some(n) => n.clone(),
                    None => return self.bad_mem(format!("call through bad pointer {:#x}", a)),
                }
            }
        };
        let av: Vec<Val> = args.iter().map(|o| self.op(o)).collect();
        if name.starts_with("llvm.") {
            return self.intrinsic(d, &name, &av, ty);
        }
        let name = match self.redirect(&name) {
            Some(n) => n.to_string(),
            None => name,
        };
        if name.starts_with("vp_") {
            return self.api(d, &name, &av);
        }
        if is_panic_fn(&name) {
            let loc = self.panic_loc(&av);
            return Err(Stop::Panic(format!("{}{}", short(&name), loc)));
        }
        if let Some(r) = self.special(d, &name, &av)? {
            return r;
        }
        if self.trace {
            eprintln!("call {} {}", self.st.frames.len(), name);
        }
        let f = match self.m.func(&mut self.ar, &name) {
            Ok(Some(f)) => f,
            Ok(None) => return err(format!("call of external function {}", name)),
            Err(e) => return err(e),
        };
        if self.st.frames.len() > 20000 {
            let v = self.mk_violation("hang", "call depth beyond 20000 frames".to_string());
            return Err(Stop::Violation(v));
        }
        if f.id >= self.fid_names.len() {
            self.fid_names.resize(f.id + 1, String::new());
        }
        if self.fid_names[f.id].is_empty() {
            self.fid_names[f.id] = f.name.clone();
        }
        self.hits.insert((f.id, 0));
        let mut regs = vec![Val::E(F); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() {
            if i < av.len() {
                regs[*p as usize] = av[i].clone();
            }
        }
        self.st.frames.push(Frame { f, bb: 0, ip: 0, regs, dst: d, allocas: vec![] });
        Ok(())
    }
    /// the print functions of std go to the harness where it has stand-ins for them
    fn redirect(&mut self, name: &str) -> Option<&'static str> {
        if !name.contains("5stdio") {
            return None;
        }
        let to = if name.contains("5stdio7_eprint") || name.contains("5stdio7__eprint") {
            "vph_eprint"
        } else if name.contains("5stdio6_print") || name.contains("5stdio6__print") {
            "vph_print"
        } else {
            return None;
        };
        match self.m.func(&mut self.ar, to) {
            Ok(Some(_)) => Some(to),
            _ => None,
        }
    }
    fn panic_loc(&mut self, av: &[Val]) -> String {
        // the last pointer argument is usually a &Location {ptr, len, line, col}
        for v in av.iter().rev() {
            if let Val::E(e) = v {
                if let Some(a) = self.ar.k(*e) {
                    let a = a as u64;
                    if let Ok(Some(i)) = self.locate(a) {
                        let o = self.st.mem[i].clone();
                        if o.size >= 24 && !o.heap && o.base == a {
                            let p = self.get_bytes(&o.cells[0..8]);
                            let n = self.get_bytes(&o.cells[8..16]);
                            let l = self.get_bytes(&o.cells[16..20]);
                            if let (Some(_), Some(n), Some(l)) = (self.ar.k(p), self.ar.k(n), self.ar.k(l)) {
                                if n < 300 {
                                    if let Ok(b) = self.read_bytes(p, n as u64) {
                                        let s: String = b.iter().filter_map(|x| self.ar.k(*x)).map(|x| x as u8 as char).collect();
                                        if s.contains(".rs") {
                                            return format!(" at {}:{}", s.trim_end_matches('\0'), l);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        String::new()
    }
    fn e(v: &Val) -> R<Id> {
        match v {
            Val::E(e) => Ok(*e),
            _ => err("scalar argument expected"),
        }
    }
    fn special(&mut self, d: Option<u32>, name: &str, av: &[Val]) -> R<Option<R<()>>> {
        let kind = match self.callee_kind.get(name) {
            Some(&k) => k,
            None => {
                let k = if name.ends_with("___rust_alloc") {
                    1
                } else if name.ends_with("___rust_dealloc") {
                    2
                } else if name.ends_with("___rust_realloc") {
                    3
                } else if name.ends_with("___rust_alloc_zeroed") {
                    4
                } else if name.contains("__rust_no_alloc_shim") {
                    5
                } else if name == "malloc" {
                    21
                } else if name == "free" {
                    22
                } else if name == "realloc" {
                    23
                } else if name == "calloc" {
                    24
                } else if name == "posix_memalign" {
                    25
                } else if name == "memcmp" {
                    6
                } else if name == "bcmp" {
                    7
                } else if name == "strlen" {
                    8
                } else if name == "memcpy" || name == "memmove" {
                    9
                } else if name == "memset" {
                    10
                } else if name == "abort" {
                    11
                } else {
                    0
                };
                self.callee_kind.insert(name.to_string(), k);
                k
            }
        };
        if kind == 0 {
            return Ok(None);
        }
        let r = match kind {
            1 | 4 => {
                let n = Self::e(&av[0])?;
                let n = self.concretize(n)? as u64;
                let al = Self::e(&av[1])?;
                let al = self.concretize(al)? as u64;
                if n > 1 << 26 {
                    return err(format!("allocation of {} bytes", n));
                }
                let a = self.alloc(n, al, true);
                if kind == 4 {
                    let i = self.find_mem_base(a).unwrap();
                    for c in self.obj_mut(i).cells.iter_mut() {
                        *c = Cell::K(0);
                    }
                }
                let e = self.ar.konst(a as u128, 64);
                self.fine(d, e)
            }
            2 => {
                let p = Self::e(&av[0])?;
                let p = self.concretize(p)? as u64;
                self.free(p)?;
                self.fin(d, None)
            }
            3 => {
                let p = Self::e(&av[0])?;
                let p = self.concretize(p)? as u64;
                let old = Self::e(&av[1])?;
                let old = self.concretize(old)? as u64;
                let al = Self::e(&av[2])?;
                let al = self.concretize(al)? as u64;
                let n = Self::e(&av[3])?;
                let n = self.concretize(n)? as u64;
                if n > 1 << 26 {
                    return err(format!("allocation of {} bytes", n));
                }
                let i = match self.find_mem_base(p) {
                    Some(i) => i,
                    None => return self.bad_mem(format!("realloc of {:#x}", p)),
                };
                let o = self.st.mem[i].clone();
                let a = self.alloc(n, al, true);
                let j = self.find_mem_base(a).unwrap();
                let m = old.min(n).min(o.size) as usize;
                self.obj_mut(j).cells[..m].copy_from_slice(&o.cells[..m]);
                self.free(p)?;
                let e = self.ar.konst(a as u128, 64);
                self.fine(d, e)
            }
            21 | 24 => {
                let n = Self::e(&av[0])?;
                let mut n = self.concretize(n)? as u64;
                if kind == 24 {
                    let m = Self::e(&av[1])?;
                    n *= self.concretize(m)? as u64;
                }
                if n > 1 << 26 {
                    return err(format!("allocation of {} bytes", n));
                }
                let a = self.alloc(n, 16, true);
                if kind == 24 {
                    let i = self.find_mem_base(a).unwrap();
                    for c in self.obj_mut(i).cells.iter_mut() {
                        *c = Cell::K(0);
                    }
                }
                let e = self.ar.konst(a as u128, 64);
                self.fine(d, e)
            }
            22 => {
                let p = Self::e(&av[0])?;
                let p = self.concretize(p)? as u64;
                if p != 0 {
                    self.free(p)?;
                }
                self.fin(d, None)
            }
            23 => {
                let p = Self::e(&av[0])?;
                let p = self.concretize(p)? as u64;
                let n = Self::e(&av[1])?;
                let n = self.concretize(n)? as u64;
                if n > 1 << 26 {
                    return err(format!("allocation of {} bytes", n));
                }
                let i = match self.find_mem_base(p) {
                    Some(i) => i,
                    None => return self.bad_mem(format!("realloc of {:#x}", p)),
                };
                let o = self.st.mem[i].clone();
                let a = self.alloc(n, 16, true);
                let j = self.find_mem_base(a).unwrap();
                let m = n.min(o.size) as usize;
                self.obj_mut(j).cells[..m].copy_from_slice(&o.cells[..m]);
                self.free(p)?;
                let e = self.ar.konst(a as u128, 64);
                self.fine(d, e)
            }
            25 => {
                let al = Self::e(&av[1])?;
                let al = self.concretize(al)? as u64;
                let n = Self::e(&av[2])?;
                let n = self.concretize(n)? as u64;
                let out = Self::e(&av[0])?;
                let out = self.concretize(out)?;
                let a = self.alloc(n, al, true);
                let e = self.ar.konst(a as u128, 64);
                let out = self.ar.konst(out, 64);
                self.store(&Ty::Ptr, &Val::E(e), out)?;
                let z = self.ar.konst(0, 32);
                self.fine(d, z)
            }
            5 => self.fin(d, None),
            6 | 7 => {
                let n = Self::e(&av[2])?;
                let n = self.concretize(n)? as u64;
                let a = self.read_bytes(Self::e(&av[0])?, n)?;
                let b = self.read_bytes(Self::e(&av[1])?, n)?;
                let mut r = self.ar.konst(0, 32);
                if kind == 7 {
                    let mut c = T;
                    for i in 0..n as usize {
                        let q = self.ar.eq(a[i], b[i]);
                        c = self.ar.and(c, q);
                    }
                    let one = self.ar.konst(1, 32);
                    r = self.ar.ite(c, r, one);
                } else {
                    for i in (0..n as usize).rev() {
                        let q = self.ar.eq(a[i], b[i]);
                        let lt = self.ar.bin(Op::Ult, a[i], b[i]);
                        let m1 = self.ar.konst(u128::MAX, 32);
                        let p1 = self.ar.konst(1, 32);
                        let s = self.ar.ite(lt, m1, p1);
                        r = self.ar.ite(q, r, s);
                    }
                }
                self.fine(d, r)
            }
            8 => {
                let mut p = Self::e(&av[0])?;
                let mut n = 0u128;
                loop {
                    let b = self.read_bytes(p, 1)?[0];
                    let z = self.ar.konst(0, 8);
                    let c = self.ar.eq(b, z);
                    if self.branch(c)? {
                        break;
                    }
                    n += 1;
                    let one = self.ar.konst(1, 64);
                    p = self.ar.bin(Op::Add, p, one);
                }
                let e = self.ar.konst(n, 64);
                self.fine(d, e)
            }
            9 => {
                self.memcpy(&av[0], &av[1], &av[2])?;
                self.fin(d, Some(av[0].clone()))
            }
            10 => {
                self.memset(&av[0], &av[1], &av[2])?;
                self.fin(d, Some(av[0].clone()))
            }
            _ => Err(Stop::Panic("abort".into())),
        };
        Ok(Some(r))
    }
    fn memcpy(&mut self, dst: &Val, src: &Val, n: &Val) -> R<()> {
        let n = Self::e(n)?;
        let n = self.concretize(n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.addr_of(Self::e(src)?, n)?;
        let sb = self.st.mem[si].base;
        let (di, dof) = self.addr_of(Self::e(dst)?, n)?;
        let _ = si;
        let si = self.find_mem_base(sb).unwrap();
        let tmp: Vec<Cell> = self.st.mem[si].cells[so..so + n as usize].to_vec();
        self.obj_mut(di).cells[dof..dof + n as usize].copy_from_slice(&tmp);
        Ok(())
    }
    fn memset(&mut self, dst: &Val, v: &Val, n: &Val) -> R<()> {
        let n = Self::e(n)?;
        let n = self.concretize(n)? as u64;
        if n == 0 {
            return Ok(());
        }
        let v = Self::e(v)?;
        let v = self.ar.extract(v, 0, 8);
        let c = match self.ar.k(v) {
            Some(k) => Cell::K(k as u8),
            None => Cell::P(v, 0),
        };
        let (di, dof) = self.addr_of(Self::e(dst)?, n)?;
        for x in &mut self.obj_mut(di).cells[dof..dof + n as usize] {
            *x = c;
        }
        Ok(())
    }

    fn api(&mut self, d: Option<u32>, name: &str, av: &[Val]) -> R<()> {
        match name {
            "vp_any" => {
                let w = Self::e(&av[0])?;
                let w = self.concretize(w)? as u8;
                let ord = self.st.nvar.len();
                let v = match self.var_pool.get(&(ord, w)) {
                    Some(&v) => v,
                    None => {
                        let v = self.ar.var(&format!("in{}_{}", ord, w), w);
                        self.var_pool.insert((ord, w), v);
                        v
                    }
                };
                let idx = self.ar.n(v).k as usize;
                Rc::make_mut(&mut self.st.nvar).push(idx);
                let e = self.ar.zext(v, 64);
                self.fine(d, e)
            }
            "vp_assume" => {
                let c0 = Self::e(&av[0])?;
                let c = self.rw(c0);
                if c == F {
                    return Err(Stop::Killed);
                }
                if c != T {
                    if self.eval(c) == 0 {
                        match self.solve(c)? {
                            None => return Err(Stop::Killed),
                            Some(m) => self.st.model = Rc::new(m),
                        }
                    }
                    self.add_pc(c);
                    self.add_fact(c0, true);
                    self.note_eq(c);
                }
                self.fin(d, None)
            }
            "vp_assert" => {
                let c0 = Self::e(&av[0])?;
                let msg = self.read_str(&av[1], &av[2])?;
                self.stats.asserts += 1;
                let c = self.rw(c0);
                if c == T {
                    self.stats.asserts_const += 1;
                    return self.fin(d, None);
                }
                if c == F {
                    let v = self.mk_violation("assert", msg);
                    return Err(Stop::Violation(v));
                }
                self.stats.asserts_solver += 1;
                let bad = if self.eval(c) == 0 {
                    true
                } else {
                    let nc = self.ar.not(c);
                    match self.solve(nc)? {
                        None => false,
                        Some(m) => {
                            self.st.model = Rc::new(m);
                            true
                        }
                    }
                };
                if bad {
                    let v = self.mk_violation("assert", msg);
                    return Err(Stop::Violation(v));
                }
                self.add_fact(c0, true);
                self.add_fact(c, true);
                self.fin(d, None)
            }
            "vp_observe" => {
                let e = Self::e(&av[0])?;
                Rc::make_mut(&mut self.st.obs).push(e);
                self.fin(d, None)
            }
            "vp_cover" => {
                let c0 = Self::e(&av[0])?;
                let msg = self.read_str(&av[1], &av[2])?;
                if self.covers.get(&msg).copied().unwrap_or(0) > 0 {
                    return self.fin(d, None);
                }
                let c = self.rw(c0);
                let mut hit = c == T;
                if c != T && c != F {
                    hit = self.eval(c) != 0 || self.solve(c)?.is_some();
                }
                *self.covers.entry(msg).or_insert(0) += hit as u64;
                self.fin(d, None)
            }
            "vp_may_panic" => {
                let c = Self::e(&av[0])?;
                self.st.may_panic = self.branch(c)?;
                self.fin(d, None)
            }
            "vp_concretize" => {
                let e = Self::e(&av[0])?;
                let v = self.concretize(e)?;
                let k = self.ar.konst(v, 64);
                self.fine(d, k)
            }
            "vp_branch" => {
                let e = Self::e(&av[0])?;
                let v = self.branch(e)?;
                self.fine(d, if v { T } else { F })
            }
            "vp_ite" => {
                // branch-free selection
                let c = Self::e(&av[0])?;
                let (a, b) = (Self::e(&av[1])?, Self::e(&av[2])?);
                let r = self.ar.ite(c, a, b);
                self.fine(d, r)
            }
            "vp_param" => {
                let i = Self::e(&av[0])?;
                let i = self.concretize(i)? as u64;
                let v = match self.cfg.params.iter().find(|p| p.0 == i) {
                    Some(p) => p.1,
                    None => return err(format!("parameter {} not given", i)),
                };
                let k = self.ar.konst(v as u128, 64);
                self.fine(d, k)
            }
            "vp_symbolic" => self.fine(d, T),
            _ => err(format!("unknown api {}", name)),
        }
    }
    fn read_str(&mut self, p: &Val, n: &Val) -> R<String> {
        let n = Self::e(n)?;
        let n = self.concretize(n)? as u64;
        let b = self.read_bytes(Self::e(p)?, n)?;
        Ok(b.iter().map(|x| self.ar.k(*x).unwrap_or(63) as u8 as char).collect())
    }

    fn intrinsic(&mut self, d: Option<u32>, name: &str, av: &[Val], ty: &Ty) -> R<()> {
        let base: &str = {
            let mut end = name.len();
            // strip type suffixes
            loop {
                match name[..end].rfind('.') {
                    Some(p) if p > 4 => {
                        let s = &name[p + 1..end];
                        let ist = s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit())
                            || (s.starts_with('p') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
                            || (s.starts_with('v') && s.len() > 1 && s.as_bytes()[1].is_ascii_digit())
                            || s.starts_with("s_") || s.starts_with("sl_");
                        if ist {
                            end = p;
                        } else {
                            break;
                        }
                    }
                    _ => break,
                }
            }
            &name[5..end]
        };
        match base {
            "memcpy" | "memmove" | "memcpy.inline" => {
                self.memcpy(&av[0], &av[1], &av[2])?;
                return self.fin(d, None);
            }
            "memset" | "memset.inline" => {
                self.memset(&av[0], &av[1], &av[2])?;
                return self.fin(d, None);
            }
            "trap" | "debugtrap" | "ubsantrap" => return Err(Stop::Panic("trap".into())),
            "assume" | "prefetch" | "donothing" | "sideeffect" | "lifetime.start" | "lifetime.end" | "experimental.noalias.scope.decl" => {
                return self.fin(d, None)
            }
            "threadlocal.address" | "ptrmask" if base == "threadlocal.address" => return self.fin(d, Some(av[0].clone())),
            "expect" => return self.fin(d, Some(av[0].clone())),
            "is.constant" => return self.fine(d, F),
            "objectsize" => {
                let k = self.ar.konst(u128::MAX, ty.bits());
                return self.fine(d, k);
            }
            "load.relative" => {
                let p = Self::e(&av[0])?;
                let off = Self::e(&av[1])?;
                let off = if self.ar.w(off) < 64 { self.ar.sext(off, 64) } else { off };
                let a = self.ar.bin(Op::Add, p, off);
                let v = match self.load(&Ty::Int(32), a)? {
                    Val::E(e) => e,
                    _ => unreachable!(),
                };
                let v = self.ar.sext(v, 64);
                let r = self.ar.bin(Op::Add, p, v);
                return self.fine(d, r);
            }
            _ => {}
        }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let xs: Vec<Id> = match &av[0] {
                Val::Agg(v) => v.iter().map(|x| Self::e(x)).collect::<R<Vec<_>>>()?,
                _ => return err("reduce"),
            };
            let mut acc = xs[0];
            for &x in &xs[1..] {
                acc = match r {
                    "add" => self.ar.bin(Op::Add, acc, x),
                    "mul" => self.ar.bin(Op::Mul, acc, x),
                    "and" => self.ar.bin(Op::And, acc, x),
                    "or" => self.ar.bin(Op::Or, acc, x),
                    "xor" => self.ar.bin(Op::Xor, acc, x),
                    "umax" | "umin" | "smax" | "smin" => self.minmax(r, acc, x)?,
                    _ => return err(format!("intrinsic {}", name)),
                };
            }
            return self.fine(d, acc);
        }
        // element-wise over vectors
        let vec_len = av.iter().filter_map(|v| if let Val::Agg(a) = v { Some(a.len()) } else { None }).next();
        if base.ends_with(".with.overflow") {
            if vec_len.is_some() {
                return err("vector overflow intrinsic");
            }
            let (a, b) = (Self::e(&av[0])?, Self::e(&av[1])?);
            let (v, o) = self.overflow(&base[..4], a, b)?;
            return self.fin(d, Some(Val::Agg(Rc::new(vec![Val::E(v), Val::E(o)]))));
        }
        if let Some(n) = vec_len {
            let mut out = vec![];
            for i in 0..n {
                let xs: Vec<Id> = av
                    .iter()
                    .map(|v| match v {
                        Val::Agg(a) => Self::e(&a[i]),
                        Val::E(e) => Ok(*e),
                    })
                    .collect::<R<Vec<_>>>()?;
                out.push(Val::E(self.scalar_intr(base, name, &xs)?));
            }
            return self.fin(d, Some(Val::Agg(Rc::new(out))));
        }
        let xs: Vec<Id> = av.iter().map(|v| Self::e(v)).collect::<R<Vec<_>>>()?;
        let r = self.scalar_intr(base, name, &xs)?;
        self.fine(d, r)
    }
    fn minmax(&mut self, k: &str, a: Id, b: Id) -> R<Id> {
        let c = match k {
            "umax" => self.ar.bin(Op::Ult, b, a),
            "umin" => self.ar.bin(Op::Ult, a, b),
            "smax" => self.ar.bin(Op::Slt, b, a),
            _ => self.ar.bin(Op::Slt, a, b),
        };
        if self.cfg.fork_select && self.ar.w(a) >= 8 {
            return Ok(if self.branch(c)? { a } else { b });
        }
        Ok(self.ar.ite(c, a, b))
    }
    fn overflow(&mut self, k: &str, a: Id, b: Id) -> R<(Id, Id)> {
        let ar = &mut self.ar;
        let w = ar.w(a);
        let m = mask(w);
        Ok(match k {
            "uadd" => {
                let s = ar.bin(Op::Add, a, b);
                let o = match ar.hi(a).checked_add(ar.hi(b)) {
                    Some(h) if h <= m => F,
                    _ => ar.bin(Op::Ult, s, a),
                };
                (s, o)
            }
            "usub" => {
                let s = ar.bin(Op::Sub, a, b);
                let o = ar.bin(Op::Ult, a, b);
                (s, o)
            }
            "umul" => {
                let s = ar.bin(Op::Mul, a, b);
                let o = match ar.hi(a).checked_mul(ar.hi(b)) {
                    Some(h) if h <= m => F,
                    _ => {
                        if w <= 64 {
                            let (x, y) = (ar.zext(a, 2 * w), ar.zext(b, 2 * w));
                            let p = ar.bin(Op::Mul, x, y);
                            let km = ar.konst(m, 2 * w);
                            ar.bin(Op::Ult, km, p)
                        } else {
                            // a != 0 && s / a != b
                            let z = ar.konst(0, w);
                            let az = ar.eq(a, z);
                            let q = ar.bin(Op::UDiv, s, a);
                            let e = ar.eq(q, b);
                            let o = ar.or(az, e);
                            ar.not(o)
                        }
                    }
                };
                (s, o)
            }
            "sadd" | "ssub" => {
                let op = if k == "sadd" { Op::Add } else { Op::Sub };
                let s = ar.bin(op, a, b);
                let (al, ah, bl, bh) = (ar.slo(a), ar.shi(a), ar.slo(b), ar.shi(b));
                let (l, h) = if k == "sadd" {
                    (al.checked_add(bl), ah.checked_add(bh))
                } else {
                    (al.checked_sub(bh), ah.checked_sub(bl))
                };
                let (mn, mx) = if w == 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
                if let (Some(l), Some(h)) = (l, h) {
                    if l >= mn && h <= mx {
                        return Ok((s, F));
                    }
                }
                let o = if w < 128 {
                    let (x, y) = (ar.sext(a, w + 1), ar.sext(b, w + 1));
                    let p = ar.bin(op, x, y);
                    let q = ar.sext(s, w + 1);
                    let e = ar.eq(p, q);
                    ar.not(e)
                } else {
                    // sign logic
                    let x = ar.bin(Op::Xor, a, s);
                    let y = if k == "sadd" { ar.bin(Op::Xor, b, s) } else { ar.bin(Op::Xor, a, b) };
                    let z = ar.bin(Op::And, x, y);
                    ar.extract(z, w - 1, 1)
                };
                (s, o)
            }
            "smul" => {
                let s = ar.bin(Op::Mul, a, b);
                let half = 1u128 << (w - 1);
                let (mn, mx) = if w == 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
                let mut ok = true;
                for x in [ar.slo(a), ar.shi(a)] {
                    for y in [ar.slo(b), ar.shi(b)] {
                        ok &= x.checked_mul(y).map_or(false, |p| p >= mn && p <= mx);
                    }
                }
                if ok {
                    return Ok((s, F));
                }
                let o = if w <= 64 {
                    let (x, y) = (ar.sext(a, 2 * w), ar.sext(b, 2 * w));
                    let p = ar.bin(Op::Mul, x, y);
                    let q = ar.sext(s, 2 * w);
                    let e = ar.eq(p, q);
                    ar.not(e)
                } else {
                    // are both operands sign extensions of <=64 bits?
                    let na = ar.n(a);
                    let nb = ar.n(b);
                    let bits = |ar: &Arena, n: &Node| match n.op {
                        Op::SExt => ar.w(n.a) as u32,
                        Op::ZExt => ar.w(n.a) as u32 + 1,
                        Op::Const => 129 - (if (n.k as i128) < 0 { !n.k } else { n.k }).leading_zeros(),
                        _ => 128,
                    };
                    if bits(ar, &na) + bits(ar, &nb) <= 128 {
                        return Ok((s, F));
                    }
                    let z = ar.konst(0, w);
                    let az = ar.eq(a, z);
                    let q = ar.bin(Op::SDiv, s, a);
                    let e = ar.eq(q, b);
                    let m1 = ar.konst(u128::MAX, w);
                    let mn = ar.konst(half, w);
                    let am = ar.eq(a, m1);
                    let bm = ar.eq(b, mn);
                    let sp = ar.and(am, bm);
                    let o = ar.or(az, e);
                    let o = ar.not(o);
                    ar.or(o, sp)
                };
                (s, o)
            }
            _ => return err("overflow intrinsic"),
        })
    }
    fn scalar_intr(&mut self, base: &str, name: &str, x: &[Id]) -> R<Id> {
        let w = self.ar.w(x[0]);
        Ok(match base {
            "umax" | "umin" | "smax" | "smin" => self.minmax(base, x[0], x[1])?,
            "abs" => {
                let z = self.ar.konst(0, w);
                let n = self.ar.bin(Op::Sub, z, x[0]);
                let c = self.ar.bin(Op::Slt, x[0], z);
                self.ar.ite(c, n, x[0])
            }
            "usub.sat" => {
                let s = self.ar.bin(Op::Sub, x[0], x[1]);
                let c = self.ar.bin(Op::Ult, x[0], x[1]);
                let z = self.ar.konst(0, w);
                self.ar.ite(c, z, s)
            }
            "uadd.sat" => {
                let (s, o) = self.overflow("uadd", x[0], x[1])?;
                let m = self.ar.konst(u128::MAX, w);
                self.ar.ite(o, m, s)
            }
            "sadd.sat" | "ssub.sat" => {
                let (s, o) = self.overflow(&base[..4], x[0], x[1])?;
                let z = self.ar.konst(0, w);
                let neg = self.ar.bin(Op::Slt, x[0], z);
                let mn = self.ar.konst(1u128 << (w - 1), w);
                let mx = self.ar.konst((1u128 << (w - 1)) - 1, w);
                let lim = self.ar.ite(neg, mn, mx);
                self.ar.ite(o, lim, s)
            }
            "ucmp" | "scmp" => {
                let op = if base == "ucmp" { Op::Ult } else { Op::Slt };
                let lt = self.ar.bin(op, x[0], x[1]);
                let gt = self.ar.bin(op, x[1], x[0]);
                // result width is the first suffix
                let rw: u8 = name
                    .split('.')
                    .find_map(|s| s.strip_prefix('i').and_then(|t| t.parse().ok()))
                    .unwrap_or(8);
                let (m1, z, p1) = (self.ar.konst(u128::MAX, rw), self.ar.konst(0, rw), self.ar.konst(1, rw));
                let r = self.ar.ite(gt, p1, z);
                self.ar.ite(lt, m1, r)
            }
            "ctlz" => {
                let a = self.rw(x[0]);
                // thresholds from low to high: value v has ctlz = w - bits(v)
                let mut r = self.ar.konst(w as u128, w);
                for b in 0..w {
                    // v >= 2^b  => ctlz <= w-1-b
                    let t = 1u128 << b;
                    let k = self.ar.konst(t, w);
                    let c = self.ar.bin(Op::Ule, k, a);
                    let v = self.ar.konst((w - 1 - b) as u128, w);
                    r = self.ar.ite(c, v, r);
                }
                r
            }
            "cttz" => {
                let a = self.rw(x[0]);
                let mut r = self.ar.konst(w as u128, w);
                for b in (0..w).rev() {
                    let c = self.ar.extract(a, b, 1);
                    let v = self.ar.konst(b as u128, w);
                    r = self.ar.ite(c, v, r);
                }
                r
            }
            "ctpop" => {
                let mut r = self.ar.konst(0, w);
                for b in 0..w {
                    let c = self.ar.extract(x[0], b, 1);
                    let v = self.ar.zext(c, w);
                    r = self.ar.bin(Op::Add, r, v);
                }
                r
            }
            "bswap" => {
                let mut acc: Option<Id> = None;
                for i in 0..w / 8 {
                    let e = self.ar.extract(x[0], i * 8, 8);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.ar.bin(Op::Concat, a, e),
                    });
                }
                acc.unwrap()
            }
            "bitreverse" => {
                let mut acc: Option<Id> = None;
                for i in 0..w {
                    let e = self.ar.extract(x[0], i, 1);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => self.ar.bin(Op::Concat, a, e),
                    });
                }
                acc.unwrap()
            }
            "fshl" | "fshr" => {
                let kw = self.ar.konst(w as u128, w);
                let s = self.ar.bin(Op::URem, x[2], kw);
                let inv = self.ar.bin(Op::Sub, kw, s);
                let (l, r) = if base == "fshl" { (s, inv) } else { (inv, s) };
                let p = self.ar.bin(Op::Shl, x[0], l);
                let q = self.ar.bin(Op::LShr, x[1], r);
                self.ar.bin(Op::Or, p, q)
            }
            _ => return err(format!("intrinsic {}", name)),
        })
    }

    pub fn collect_hits(&mut self) -> BTreeMap<String, (usize, usize)> {
        let mut m: BTreeMap<String, (usize, usize)> = BTreeMap::new();
        let mut per: HashMap<usize, BTreeSet<u32>> = HashMap::new();
        for (f, b) in &self.hits {
            per.entry(*f).or_default().insert(*b);
        }
        for (_, f) in &self.m.funcs {
            if let Some(s) = per.get(&f.id) {
                m.insert(f.name.clone(), (s.len(), f.blocks.len()));
            }
        }
        let _ = self.hit_cur;
        m
    }
    /// debug locations of the executed blocks
    pub fn collect_locs(&self) -> BTreeSet<u32> {
        let mut s = BTreeSet::new();
        let byid: HashMap<usize, _> = self.m.funcs.iter().map(|(_, f)| (f.id, f)).collect();
        for (f, b) in &self.hits {
            if let Some(f) = byid.get(f) {
                s.extend(f.dbg[*b as usize].iter().copied());
            }
        }
        s
    }
}

pub fn short(n: &str) -> String {
    // last identifier of a v0-mangled name
    let b = n.as_bytes();
    let mut i = 0;
    let mut last = n.to_string();
    while i < b.len() {
        if b[i].is_ascii_digit() && i > 0 {
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                j += 1;
            }
            let k: usize = n[i..j].parse().unwrap_or(0);
            let s = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if k > 0 && s + k <= b.len() {
                last = n[s..s + k].to_string();
                i = s + k;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    last
}
