//! Reader for textual LLVM IR (opaque pointers). Functions are parsed on demand.
use crate::expr::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u8),
    Ptr,
    Float(u8),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Opaque,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64 + 7) / 8).next_power_of_two();
                b.min(16)
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = b.next_power_of_two().min(16);
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.store_size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) => (i as u64 * t.size(), (**t).clone()),
            Ty::Vec(_, t) => (i as u64 * t.store_size(), (**t).clone()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if j == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            Ty::Struct(f, _) => f.len(),
            _ => 0,
        }
    }
    pub fn bits(&self) -> u8 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    E(Id),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
    Copy,
}
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Op, u32, Opnd, Opnd),
    ICmp(Pred, u32, Opnd, Opnd),
    Select(u32, Opnd, Opnd, Opnd),
    Phi(u32, Vec<(u32, Opnd)>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Opnd, u32, Vec<(Opnd, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Call(Option<u32>, Callee, Vec<Opnd>, Ty),
    Load(u32, Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(u32, Opnd, u64, Vec<(Opnd, u64)>),
    Alloca(u32, u64, u64, Opnd),
    Cast(CastK, u32, Opnd, Ty, Ty),
    ExtractValue(u32, Opnd, Vec<u32>),
    InsertValue(u32, Opnd, Opnd, Vec<u32>),
    ExtractElem(u32, Opnd, Opnd),
    InsertElem(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<Option<usize>>),
    AtomicRmw(u32, String, Ty, Opnd, Opnd),
    CmpXchg(u32, Ty, Opnd, Opnd, Opnd),
    Nop,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub enum Callee {
    Name(String),
    Ind(Opnd),
}

pub struct Func {
    pub name: String,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Vec<Ins>>,
    /// per block: the debug locations its instructions carry
    pub dbg: Vec<Vec<u32>>,
    pub id: usize,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<String>,
    pub konst: bool,
    pub addr: u64,
    pub size: u64,
}

pub struct Module {
    lines: Vec<String>,
    pub types: HashMap<String, Ty>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, usize>,
    pub fn_lines: HashMap<String, (usize, usize)>,
    pub fn_addr: HashMap<String, u64>,
    pub addr_fn: HashMap<u64, String>,
    pub funcs: HashMap<String, Rc<Func>>,
    pub aliases: HashMap<String, String>,
    pub nfuncs: usize,
}

pub const GLOBAL_BASE: u64 = 0x1000_0000;
pub const FN_BASE: u64 = 0x10_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String),   // word / keyword
    L(String),   // %local
    G(String),   // @global
    Num(String), // integer or other numeric text
    Str(Vec<u8>),
    P(char),
    Dots,
    M(String), // metadata
    Hash(String),
}

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 + 0 {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap();
            o.push(h);
            i += 3;
        } else if b[i] == b'\\' && i + 1 < b.len() && b[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn tokenize(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut o = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' | b'!' | b'#' => {
                let st = i + 1;
                let name;
                if st < b.len() && b[st] == b'"' {
                    let mut j = st + 1;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = s[st + 1..j].to_string();
                    i = j + 1;
                } else {
                    let mut j = st;
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                    i = j;
                }
                o.push(match c {
                    b'%' => Tok::L(name),
                    b'@' => Tok::G(name),
                    b'!' => Tok::M(name),
                    _ => Tok::Hash(name),
                });
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                o.push(Tok::Str(s[i + 1..j].as_bytes().to_vec()));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                while b[j] != b'"' {
                    j += 1;
                }
                o.push(Tok::Str(unesc(&s[i + 2..j])));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                o.push(Tok::Dots);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || b[j] == b'+' || (b[j] == b'-')) {
                    j += 1;
                }
                o.push(Tok::Num(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'$' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                o.push(Tok::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                o.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    o
}

pub struct Cur<'a> {
    pub t: &'a [Tok],
    pub i: usize,
}
impl<'a> Cur<'a> {
    pub fn peek(&self) -> Option<&'a Tok> {
        self.t.get(self.i)
    }
    pub fn next(&mut self) -> Result<&'a Tok, String> {
        let r = self.t.get(self.i).ok_or("unexpected end")?;
        self.i += 1;
        Ok(r)
    }
    pub fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    pub fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    pub fn exp(&mut self, c: char) -> Result<(), String> {
        if self.eat_p(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} at {} of {:?}", c, self.peek(), self.i, self.t.iter().take(30).collect::<Vec<_>>()))
        }
    }
    pub fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    pub fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        while let Some(t) = self.peek() {
            self.i += 1;
            match t {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
}

fn is_value_word(w: &str) -> bool {
    matches!(
        w,
        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "add" | "sub" | "xor" | "trunc"
            | "bitcast" | "splat" | "none" | "asm" | "addrspacecast"
    )
}

impl Module {
    pub fn load(path: &str) -> Result<Module, String> {
        let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines: vec![],
            types: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            fn_lines: HashMap::new(),
            fn_addr: HashMap::new(),
            addr_fn: HashMap::new(),
            funcs: HashMap::new(),
            aliases: HashMap::new(),
            nfuncs: 0,
        };
        // named types (may refer to each other: resolve lazily by retrying)
        let mut pending: Vec<(String, String)> = vec![];
        for l in &lines {
            if l.starts_with('%') {
                if let Some(p) = l.find(" = type ") {
                    let name = l[1..p].trim_matches('"').to_string();
                    pending.push((name, l[p + 8..].to_string()));
                }
            }
        }
        for _ in 0..50 {
            let mut rest = vec![];
            for (n, d) in pending {
                let tk = tokenize(&d);
                let mut c = Cur { t: &tk, i: 0 };
                match m.ty(&mut c) {
                    Ok(t) => {
                        m.types.insert(n, t);
                    }
                    Err(_) => rest.push((n, d)),
                }
            }
            pending = rest;
            if pending.is_empty() {
                break;
            }
        }
        let mut next = GLOBAL_BASE;
        let mut nf = 0u64;
        let mut i = 0;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with('@') {
                m.global(l, &mut next)?;
            } else if l.starts_with("define ") || l.starts_with("declare ") {
                let p = l.find('@').unwrap();
                let name = if l.as_bytes()[p + 1] == b'"' {
                    let e = l[p + 2..].find('"').unwrap();
                    l[p + 2..p + 2 + e].to_string()
                } else {
                    let e = l[p + 1..].find('(').unwrap();
                    l[p + 1..p + 1 + e].to_string()
                };
                let a = FN_BASE + nf * 16;
                nf += 1;
                m.fn_addr.insert(name.clone(), a);
                m.addr_fn.insert(a, name.clone());
                if l.starts_with("define ") {
                    let s = i;
                    while lines[i] != "}" {
                        i += 1;
                    }
                    m.fn_lines.insert(name, (s, i));
                }
            }
            i += 1;
        }
        m.lines = lines;
        Ok(m)
    }

    fn global(&mut self, l: &str, next: &mut u64) -> Result<(), String> {
        let tk = tokenize(l);
        let mut c = Cur { t: &tk, i: 0 };
        let name = match c.next()? {
            Tok::G(n) => n.clone(),
            _ => return Ok(()),
        };
        c.exp('=')?;
        let mut konst = false;
        let mut ext = false;
        loop {
            match c.next()? {
                Tok::W(w) => match w.as_str() {
                    "constant" => {
                        konst = true;
                        break;
                    }
                    "global" => break,
                    "external" | "extern_weak" => ext = true,
                    "alias" => {
                        // alias TYPE, ptr @target
                        for t in tk.iter().rev() {
                            if let Tok::G(g) = t {
                                self.aliases.insert(name.clone(), g.clone());
                                break;
                            }
                        }
                        return Ok(());
                    }
                    "thread_local" => {
                        if c.is_p('(') {
                            c.skip_balanced();
                        }
                    }
                    _ => {
                        if c.is_p('(') {
                            c.skip_balanced();
                        }
                    }
                },
                _ => {}
            }
        }
        let ty = self.ty(&mut c)?;
        let size = ty.size();
        let al = 16u64.max(ty.align());
        let addr = (*next + al - 1) / al * al;
        *next = addr + size + 32;
        let init = if ext { None } else { Some(l.to_string()) };
        self.gidx.insert(name.clone(), self.globals.len());
        self.globals.push(Global { name, ty, init, konst, addr, size });
        Ok(())
    }

    pub fn global_init(&self, ar: &mut Arena, gi: usize) -> Result<Option<Val>, String> {
        let g = &self.globals[gi];
        let l = match &g.init {
            None => return Ok(None),
            Some(l) => l,
        };
        let tk = tokenize(l);
        let mut c = Cur { t: &tk, i: 0 };
        loop {
            match c.next()? {
                Tok::W(w) if w == "constant" || w == "global" => break,
                Tok::W(_) => {
                    if c.is_p('(') {
                        c.skip_balanced();
                    }
                }
                _ => {}
            }
        }
        let ty = self.ty(&mut c)?;
        Ok(Some(self.konst(ar, &mut c, &ty)?))
    }

    pub fn ty(&self, c: &mut Cur) -> Result<Ty, String> {
        let t = match c.next()? {
            Tok::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if c.eat_w("addrspace") {
                        c.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "fp128" | "x86_fp80" => Ty::Float(128),
                "label" | "metadata" | "token" | "opaque" => Ty::Opaque,
                s if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => {
                    let w: u32 = s[1..].parse().unwrap();
                    if w > 128 {
                        return Err(format!("integer width {}", w));
                    }
                    Ty::Int(w as u8)
                }
                s => return Err(format!("type? {}", s)),
            },
            Tok::L(n) => self.types.get(n).cloned().ok_or(format!("unknown type %{}", n))?,
            Tok::P('[') => {
                let n: u64 = match c.next()? {
                    Tok::Num(s) => s.parse().map_err(|_| "array size")?,
                    _ => return Err("array size".into()),
                };
                c.next()?; // x
                let t = self.ty(c)?;
                c.exp(']')?;
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if c.is_p('{') {
                    c.exp('{')?;
                    let f = self.ty_list(c, '}')?;
                    c.exp('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u64 = match c.next()? {
                        Tok::Num(s) => s.parse().map_err(|_| "vector size")?,
                        _ => return Err("vector size".into()),
                    };
                    c.next()?;
                    let t = self.ty(c)?;
                    c.exp('>')?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P('{') => {
                let f = self.ty_list(c, '}')?;
                Ty::Struct(Rc::new(f), false)
            }
            t => return Err(format!("type? {:?}", t)),
        };
        // function type suffix (only in calls through varargs prototypes)
        if c.is_p('(') {
            // caller handles
        }
        Ok(t)
    }
    fn ty_list(&self, c: &mut Cur, end: char) -> Result<Vec<Ty>, String> {
        let mut f = vec![];
        if c.eat_p(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty(c)?);
            if c.eat_p(end) {
                return Ok(f);
            }
            c.exp(',')?;
        }
    }

    pub fn zero(&self, ar: &mut Arena, ty: &Ty) -> Val {
        match ty {
            Ty::Int(w) => Val::E(ar.konst(0, *w)),
            Ty::Ptr => Val::E(ar.konst(0, 64)),
            Ty::Float(w) => Val::E(ar.konst(0, *w)),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let z = self.zero(ar, t);
                Val::Agg(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(f, _) => {
                let v = f.iter().map(|t| self.zero(ar, t)).collect();
                Val::Agg(Rc::new(v))
            }
            _ => Val::E(F),
        }
    }
    pub fn sym_addr(&self, g: &str) -> Option<u64> {
        let mut g = g;
        while let Some(a) = self.aliases.get(g) {
            g = a;
        }
        if let Some(&i) = self.gidx.get(g) {
            return Some(self.globals[i].addr);
        }
        self.fn_addr.get(g).copied()
    }

    /// constant of a given type
    pub fn konst(&self, ar: &mut Arena, c: &mut Cur, ty: &Ty) -> Result<Val, String> {
        let t = c.next()?;
        match t {
            Tok::Num(s) => match ty {
                Ty::Int(w) => {
                    let v = if let Some(r) = s.strip_prefix('-') {
                        (r.parse::<u128>().map_err(|e| e.to_string())?).wrapping_neg()
                    } else {
                        s.parse::<u128>().map_err(|e| format!("{} {}", e, s))?
                    };
                    Ok(Val::E(ar.konst(v, *w)))
                }
                Ty::Float(w) => {
                    // only used as opaque bits
                    let v = if let Some(h) = s.strip_prefix("0x") { u128::from_str_radix(h, 16).unwrap_or(0) } else { 0 };
                    Ok(Val::E(ar.konst(v, *w)))
                }
                _ => Err(format!("number for {:?}", ty)),
            },
            Tok::Str(b) => {
                let v = b.iter().map(|&x| Val::E(ar.konst(x as u128, 8))).collect();
                Ok(Val::Agg(Rc::new(v)))
            }
            Tok::G(g) => {
                let a = self.sym_addr(g).ok_or(format!("unknown global @{}", g))?;
                Ok(Val::E(ar.konst(a as u128, 64)))
            }
            Tok::P('{') => {
                let v = self.konst_list(ar, c, '}')?;
                Ok(Val::Agg(Rc::new(v)))
            }
            Tok::P('[') => {
                let v = self.konst_list(ar, c, ']')?;
                Ok(Val::Agg(Rc::new(v)))
            }
            Tok::P('<') => {
                if c.eat_p('{') {
                    let v = self.konst_list(ar, c, '}')?;
                    c.exp('>')?;
                    Ok(Val::Agg(Rc::new(v)))
                } else {
                    let v = self.konst_list(ar, c, '>')?;
                    Ok(Val::Agg(Rc::new(v)))
                }
            }
            Tok::W(w) => match w.as_str() {
                "true" => Ok(Val::E(T)),
                "false" => Ok(Val::E(F)),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(self.zero(ar, ty)),
                "splat" => {
                    c.exp('(')?;
                    let t = self.ty(c)?;
                    let v = self.konst(ar, c, &t)?;
                    c.exp(')')?;
                    Ok(Val::Agg(Rc::new(vec![v; ty.nfields()])))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "addrspacecast" => {
                    while let Some(Tok::W(_)) = c.peek() {
                        c.i += 1;
                    }
                    c.exp('(')?;
                    let t = self.ty(c)?;
                    let v = self.konst(ar, c, &t)?;
                    c.next()?; // to
                    let t2 = self.ty(c)?;
                    c.exp(')')?;
                    let e = match v {
                        Val::E(e) => e,
                        v => return Ok(v),
                    };
                    let (w, w2) = (ar.w(e), t2.bits());
                    Ok(Val::E(if w2 > w { ar.zext(e, w2) } else { ar.extract(e, 0, w2) }))
                }
                "add" | "sub" | "xor" => {
                    while let Some(Tok::W(_)) = c.peek() {
                        c.i += 1;
                    }
                    c.exp('(')?;
                    let t = self.ty(c)?;
                    let a = self.konst(ar, c, &t)?;
                    c.exp(',')?;
                    let t = self.ty(c)?;
                    let b = self.konst(ar, c, &t)?;
                    c.exp(')')?;
                    let op = match w.as_str() {
                        "add" => Op::Add,
                        "sub" => Op::Sub,
                        _ => Op::Xor,
                    };
                    match (a, b) {
                        (Val::E(a), Val::E(b)) => Ok(Val::E(ar.bin(op, a, b))),
                        _ => Err("const op on aggregates".into()),
                    }
                }
                "getelementptr" => {
                    while let Some(Tok::W(_)) = c.peek() {
                        c.i += 1;
                        if c.is_p('(') && matches!(&c.t[c.i - 1], Tok::W(x) if x == "inrange") {
                            c.skip_balanced();
                        }
                    }
                    c.exp('(')?;
                    let t = self.ty(c)?;
                    c.exp(',')?;
                    let pt = self.ty(c)?;
                    let base = match self.konst(ar, c, &pt)? {
                        Val::E(e) => ar.k(e).unwrap() as u64,
                        _ => return Err("gep base".into()),
                    };
                    let mut off = 0u64;
                    let mut cur = t.clone();
                    let mut first = true;
                    while c.eat_p(',') {
                        let it = self.ty(c)?;
                        let v = match self.konst(ar, c, &it)? {
                            Val::E(e) => sext(ar.k(e).unwrap(), ar.w(e)) as i64,
                            _ => return Err("gep index".into()),
                        };
                        if first {
                            off = off.wrapping_add((v as u64).wrapping_mul(t.size()));
                            first = false;
                        } else {
                            match &cur {
                                Ty::Struct(..) => {
                                    let (o, f) = cur.field(v as usize);
                                    off = off.wrapping_add(o);
                                    cur = f;
                                }
                                Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                    let e = (**e).clone();
                                    off = off.wrapping_add((v as u64).wrapping_mul(e.size()));
                                    cur = e;
                                }
                                _ => return Err("gep into scalar".into()),
                            }
                        }
                    }
                    c.exp(')')?;
                    Ok(Val::E(ar.konst(base.wrapping_add(off) as u128, 64)))
                }
                s => Err(format!("constant? {}", s)),
            },
            t => Err(format!("constant? {:?}", t)),
        }
    }
    fn konst_list(&self, ar: &mut Arena, c: &mut Cur, end: char) -> Result<Vec<Val>, String> {
        let mut v = vec![];
        if c.eat_p(end) {
            return Ok(v);
        }
        loop {
            let t = self.ty(c)?;
            v.push(self.konst(ar, c, &t)?);
            if c.eat_p(end) {
                return Ok(v);
            }
            c.exp(',')?;
        }
    }

    pub fn func(&mut self, ar: &mut Arena, name: &str) -> Result<Option<Rc<Func>>, String> {
        let mut name = name.to_string();
        while let Some(a) = self.aliases.get(&name) {
            name = a.clone();
        }
        if let Some(f) = self.funcs.get(&name) {
            return Ok(Some(f.clone()));
        }
        let (s, e) = match self.fn_lines.get(&name) {
            None => return Ok(None),
            Some(&x) => x,
        };
        let id = self.nfuncs;
        let f = {
            let mut p = FnParser { m: self, ar, regs: HashMap::new(), bbs: HashMap::new(), nbb: 0 };
            p.parse(&name, s, e, id).map_err(|x| format!("in {}: {}", name, x))?
        };
        self.nfuncs += 1;
        let f = Rc::new(f);
        self.funcs.insert(name, f.clone());
        Ok(Some(f))
    }
}

struct FnParser<'a> {
    m: &'a Module,
    ar: &'a mut Arena,
    regs: HashMap<String, u32>,
    bbs: HashMap<String, u32>,
    nbb: u32,
}

impl<'a> FnParser<'a> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn bb(&mut self, n: &str) -> u32 {
        if let Some(&x) = self.bbs.get(n) {
            return x;
        }
        let k = self.nbb;
        self.nbb += 1;
        self.bbs.insert(n.to_string(), k);
        k
    }
    fn attrs(&self, c: &mut Cur) {
        loop {
            match c.peek() {
                Some(Tok::W(w)) if !is_value_word(w) => {
                    let al = w == "align";
                    c.i += 1;
                    if c.is_p('(') {
                        c.skip_balanced();
                    } else if al {
                        if let Some(Tok::Num(_)) = c.peek() {
                            c.i += 1;
                        }
                    }
                }
                Some(Tok::Str(_)) => c.i += 1,
                _ => return,
            }
        }
    }
    fn opnd(&mut self, c: &mut Cur, ty: &Ty) -> Result<Opnd, String> {
        if let Some(Tok::L(n)) = c.peek() {
            c.i += 1;
            return Ok(Opnd::R(self.reg(n)));
        }
        Ok(Opnd::K(self.m.konst(self.ar, c, ty)?))
    }
    fn tyop(&mut self, c: &mut Cur) -> Result<(Ty, Opnd), String> {
        let t = self.m.ty(c)?;
        let o = self.opnd(c, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, c: &mut Cur) -> Result<u32, String> {
        if !c.eat_w("label") {
            return Err("expected label".into());
        }
        match c.next()? {
            Tok::L(n) => Ok(self.bb(n)),
            t => Err(format!("label? {:?}", t)),
        }
    }

    fn parse(&mut self, name: &str, s: usize, e: usize, id: usize) -> Result<Func, String> {
        let m: &'a Module = self.m;
        let tk = tokenize(&m.lines[s]);
        let mut c = Cur { t: &tk, i: 0 };
        while !matches!(c.peek(), Some(Tok::G(_))) {
            c.next()?;
        }
        c.next()?;
        c.exp('(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !c.eat_p(')') {
            loop {
                if let Some(Tok::Dots) = c.peek() {
                    c.next()?;
                } else {
                    self.m.ty(&mut c)?;
                    self.attrs(&mut c);
                    let r = match c.peek() {
                        Some(Tok::L(n)) => {
                            c.i += 1;
                            unnamed += n.bytes().all(|b| b.is_ascii_digit()) as usize;
                            self.reg(n)
                        }
                        _ => {
                            unnamed += 1;
                            let k = self.regs.len() as u32;
                            self.regs.insert(format!("{}", k), k);
                            k
                        }
                    };
                    params.push(r);
                }
                if c.eat_p(')') {
                    break;
                }
                c.exp(',')?;
            }
        }
        let mut blocks: Vec<Vec<Ins>> = vec![];
        let mut order: Vec<(u32, Vec<Ins>)> = vec![];
        let mut i = s + 1;
        let mut cur: Option<(u32, Vec<Ins>)> = None;
        let mut locs: HashMap<u32, Vec<u32>> = HashMap::new();
        while i < e {
            let l = &m.lines[i];
            i += 1;
            let tr = l.trim_start();
            if tr.is_empty() || tr.starts_with(';') || tr.starts_with("#dbg") {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let tkl = tokenize(l);
                let n = match &tkl[0] {
                    Tok::W(w) => w.clone(),
                    Tok::Num(w) => w.clone(),
                    Tok::Str(b) => String::from_utf8_lossy(b).into_owned(),
                    t => return Err(format!("label line {:?} {}", t, l)),
                };
                if let Some(x) = cur.take() {
                    order.push(x);
                }
                let b = self.bb(&n);
                cur = Some((b, vec![]));
                continue;
            }
            let mut text = l.clone();
            if tr.starts_with("switch ") {
                while !m.lines[i - 1].trim_end().contains(']') {
                    text.push('\n');
                    text += &m.lines[i];
                    i += 1;
                }
            }
            if text.contains("invoke ") && i < e && m.lines[i].trim_start().starts_with("to label") {
                text.push(' ');
                text += &m.lines[i];
                i += 1;
            }
            // an invoke is a call and a jump: a panic ends the path, nothing unwinds
            let mut then = None;
            if let (Some(p), Some(q)) = (text.find("invoke "), text.rfind(" to label ")) {
                if p < q && (text.trim_start().starts_with("invoke ") || text[..p].trim_end().ends_with('=')) {
                    let to = text[q + 10..].split(" unwind ").next().unwrap().trim().to_string();
                    let dbg = text.rfind("!dbg !").map(|d| text[d..].to_string()).unwrap_or_default();
                    text = format!("{}call {} {}", &text[..p], text[p + 7..q].trim_end(), if dbg.is_empty() { String::new() } else { format!(", {}", dbg) });
                    then = Some(format!("br label {}", to));
                }
            }
            let tk = tokenize(&text);
            let ins = match self.ins(&tk) {
                Ok(x) => x,
                Err(er) => Ins::Unsupported(format!("{} in `{}`", er, text.trim())),
            };
            if cur.is_none() {
                let b = self.bb(&unnamed.to_string());
                cur = Some((b, vec![]));
            }
            if let Some(p) = text.rfind("!dbg !") {
                let n: String = text[p + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(n) = n.parse::<u32>() {
                    let v = locs.entry(cur.as_ref().unwrap().0).or_default();
                    if !v.contains(&n) {
                        v.push(n);
                    }
                }
            }
            cur.as_mut().unwrap().1.push(ins);
            if let Some(t) = then {
                let ins = match self.ins(&tokenize(&t)) {
                    Ok(x) => x,
                    Err(er) => Ins::Unsupported(er),
                };
                cur.as_mut().unwrap().1.push(ins);
            }
        }
        if let Some(x) = cur.take() {
            order.push(x);
        }
        // The entry block must get index of first block: remap so that execution starts there.
        let entry = order[0].0;
        blocks.resize(self.nbb as usize, vec![]);
        for (b, v) in order {
            blocks[b as usize] = v;
        }
        let mut dbg: Vec<Vec<u32>> = (0..self.nbb as u32).map(|b| locs.remove(&b).unwrap_or_default()).collect();
        if entry != 0 {
            blocks.swap(0, entry as usize);
            dbg.swap(0, entry as usize);
            let f = |b: &mut u32| {
                if *b == 0 {
                    *b = entry
                } else if *b == entry {
                    *b = 0
                }
            };
            for b in blocks.iter_mut() {
                for x in b.iter_mut() {
                    match x {
                        Ins::Br(t) => f(t),
                        Ins::CondBr(_, x, y) => {
                            f(x);
                            f(y)
                        }
                        Ins::Switch(_, d, cs) => {
                            f(d);
                            for (_, t) in cs.iter_mut() {
                                f(t)
                            }
                        }
                        Ins::Phi(_, inc) => {
                            for (t, _) in inc.iter_mut() {
                                f(t)
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        Ok(Func { name: name.to_string(), params, nregs: self.regs.len() as u32, blocks, dbg, id })
    }

    fn ins(&mut self, tk: &[Tok]) -> Result<Ins, String> {
        let mut c = Cur { t: tk, i: 0 };
        let mut d = None;
        if let (Some(Tok::L(n)), Some(Tok::P('='))) = (tk.get(0), tk.get(1)) {
            d = Some(self.reg(n));
            c.i = 2;
        }
        let dst = d.unwrap_or(0);
        while c.is_w("tail") || c.is_w("musttail") || c.is_w("notail") {
            c.i += 1;
        }
        let w = match c.next()? {
            Tok::W(w) => w.as_str(),
            t => return Err(format!("instr? {:?}", t)),
        };
        let binop = match w {
            "add" => Some(Op::Add),
            "sub" => Some(Op::Sub),
            "mul" => Some(Op::Mul),
            "udiv" => Some(Op::UDiv),
            "sdiv" => Some(Op::SDiv),
            "urem" => Some(Op::URem),
            "srem" => Some(Op::SRem),
            "and" => Some(Op::And),
            "or" => Some(Op::Or),
            "xor" => Some(Op::Xor),
            "shl" => Some(Op::Shl),
            "lshr" => Some(Op::LShr),
            "ashr" => Some(Op::AShr),
            _ => None,
        };
        if let Some(op) = binop {
            while matches!(c.peek(), Some(Tok::W(x)) if matches!(x.as_str(), "nuw"|"nsw"|"exact"|"disjoint")) {
                c.i += 1;
            }
            let (t, a) = self.tyop(&mut c)?;
            c.exp(',')?;
            let b = self.opnd(&mut c, &t)?;
            return Ok(Ins::Bin(op, dst, a, b));
        }
        match w {
            "icmp" => {
                c.eat_w("samesign");
                let p = match c.next()? {
                    Tok::W(p) => match p.as_str() {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        x => return Err(format!("pred {}", x)),
                    },
                    _ => return Err("pred".into()),
                };
                let (t, a) = self.tyop(&mut c)?;
                c.exp(',')?;
                let b = self.opnd(&mut c, &t)?;
                Ok(Ins::ICmp(p, dst, a, b))
            }
            "select" => {
                let (_, a) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (_, x) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (_, y) = self.tyop(&mut c)?;
                Ok(Ins::Select(dst, a, x, y))
            }
            "phi" => {
                let t = self.m.ty(&mut c)?;
                let mut inc = vec![];
                loop {
                    c.exp('[')?;
                    let o = self.opnd(&mut c, &t)?;
                    c.exp(',')?;
                    let b = match c.next()? {
                        Tok::L(n) => self.bb(n),
                        _ => return Err("phi label".into()),
                    };
                    c.exp(']')?;
                    inc.push((b, o));
                    if !(c.is_p(',') && c.t.get(c.i + 1) == Some(&Tok::P('['))) {
                        break;
                    }
                    c.i += 1;
                }
                Ok(Ins::Phi(dst, inc))
            }
            "br" => {
                if c.is_w("label") {
                    Ok(Ins::Br(self.label(&mut c)?))
                } else {
                    let (_, o) = self.tyop(&mut c)?;
                    c.exp(',')?;
                    let a = self.label(&mut c)?;
                    c.exp(',')?;
                    let b = self.label(&mut c)?;
                    Ok(Ins::CondBr(o, a, b))
                }
            }
            "switch" => {
                let (t, o) = self.tyop(&mut c)?;
                c.exp(',')?;
                let d = self.label(&mut c)?;
                c.exp('[')?;
                let mut cs = vec![];
                while !c.eat_p(']') {
                    let _ = self.m.ty(&mut c)?;
                    let k = self.opnd(&mut c, &t)?;
                    c.exp(',')?;
                    let b = self.label(&mut c)?;
                    cs.push((k, b));
                }
                Ok(Ins::Switch(o, d, cs))
            }
            "ret" => {
                if c.is_w("void") {
                    return Ok(Ins::Ret(None));
                }
                let (_, o) = self.tyop(&mut c)?;
                Ok(Ins::Ret(Some(o)))
            }
            "unreachable" => Ok(Ins::Unreachable),
            "load" => {
                c.eat_w("atomic");
                c.eat_w("volatile");
                let t = self.m.ty(&mut c)?;
                c.exp(',')?;
                let (_, p) = self.tyop(&mut c)?;
                Ok(Ins::Load(dst, t, p))
            }
            "store" => {
                c.eat_w("atomic");
                c.eat_w("volatile");
                let (t, v) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (_, p) = self.tyop(&mut c)?;
                Ok(Ins::Store(t, v, p))
            }
            "alloca" => {
                c.eat_w("inalloca");
                let t = self.m.ty(&mut c)?;
                let mut n = Opnd::K(Val::E(self.ar.konst(1, 64)));
                let mut al = t.align();
                while c.eat_p(',') {
                    if c.eat_w("align") {
                        if let Tok::Num(s) = c.next()? {
                            al = s.parse().unwrap_or(al);
                        }
                    } else if let Some(Tok::M(_)) = c.peek() {
                        break;
                    } else if c.is_w("addrspace") {
                        break;
                    } else {
                        n = self.tyop(&mut c)?.1;
                    }
                }
                Ok(Ins::Alloca(dst, t.size(), al, n))
            }
            "getelementptr" => {
                while matches!(c.peek(), Some(Tok::W(x)) if matches!(x.as_str(), "inbounds"|"nuw"|"nusw"|"inrange")) {
                    c.i += 1;
                    if c.is_p('(') {
                        c.skip_balanced();
                    }
                }
                let t = self.m.ty(&mut c)?;
                c.exp(',')?;
                let (pt, base) = self.tyop(&mut c)?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = t.clone();
                let mut first = true;
                while c.is_p(',') && !matches!(c.t.get(c.i + 1), Some(Tok::M(_))) {
                    c.i += 1;
                    let (_, o) = self.tyop(&mut c)?;
                    let (scale, nt): (u64, Ty) = if first {
                        (t.size(), cur.clone())
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let i = match &o {
                                    Opnd::K(Val::E(e)) => self.ar.k(*e).unwrap() as usize,
                                    _ => return Err("struct gep index".into()),
                                };
                                let (fo, ft) = cur.field(i);
                                off = off.wrapping_add(fo);
                                cur = ft;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size(), (**e).clone()),
                            _ => return Err("gep into scalar".into()),
                        }
                    };
                    first = false;
                    cur = nt;
                    match &o {
                        Opnd::K(Val::E(e)) => {
                            let v = sext(self.ar.k(*e).ok_or("gep const")?, self.ar.w(*e)) as i64;
                            off = off.wrapping_add((v as u64).wrapping_mul(scale));
                        }
                        _ => terms.push((o, scale)),
                    }
                }
                Ok(Ins::Gep(dst, base, off, terms))
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while matches!(c.peek(), Some(Tok::W(x)) if matches!(x.as_str(), "nneg"|"nuw"|"nsw")) {
                    c.i += 1;
                }
                let (t, o) = self.tyop(&mut c)?;
                if !c.eat_w("to") {
                    return Err("cast to".into());
                }
                let t2 = self.m.ty(&mut c)?;
                let k = match w {
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "trunc" => CastK::Trunc,
                    "bitcast" | "addrspacecast" => CastK::Copy,
                    _ => {
                        let (a, b) = (t.bits(), t2.bits());
                        if a == b {
                            CastK::Copy
                        } else if a < b {
                            CastK::Zext
                        } else {
                            CastK::Trunc
                        }
                    }
                };
                Ok(Ins::Cast(k, dst, o, t, t2))
            }
            "freeze" => {
                let (t, o) = self.tyop(&mut c)?;
                Ok(Ins::Cast(CastK::Copy, dst, o, t.clone(), t))
            }
            "extractvalue" => {
                let (_, o) = self.tyop(&mut c)?;
                let mut ix = vec![];
                while c.eat_p(',') {
                    match c.next()? {
                        Tok::Num(s) => ix.push(s.parse().map_err(|_| "index")?),
                        _ => break,
                    }
                }
                Ok(Ins::ExtractValue(dst, o, ix))
            }
            "insertvalue" => {
                let (_, o) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (_, v) = self.tyop(&mut c)?;
                let mut ix = vec![];
                while c.eat_p(',') {
                    match c.next()? {
                        Tok::Num(s) => ix.push(s.parse().map_err(|_| "index")?),
                        _ => break,
                    }
                }
                Ok(Ins::InsertValue(dst, o, v, ix))
            }
            "extractelement" => {
                let (_, o) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (_, i) = self.tyop(&mut c)?;
                Ok(Ins::ExtractElem(dst, o, i))
            }
            "insertelement" => {
                let (_, o) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (_, v) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (_, i) = self.tyop(&mut c)?;
                Ok(Ins::InsertElem(dst, o, v, i))
            }
            "shufflevector" => {
                let (_, a) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (_, b) = self.tyop(&mut c)?;
                c.exp(',')?;
                let mt = self.m.ty(&mut c)?;
                let mk = self.m.konst(self.ar, &mut c, &mt)?;
                let v = match mk {
                    Val::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::E(e) => self.ar.k(*e).map(|x| x as usize),
                            _ => None,
                        })
                        .collect(),
                    _ => return Err("mask".into()),
                };
                Ok(Ins::Shuffle(dst, a, b, v))
            }
            "call" => {
                // fast-math / cc / return attributes
                self.attrs_call(&mut c);
                let t = self.m.ty(&mut c)?;
                if c.is_p('(') {
                    // full function type: skip parameter list
                    c.skip_balanced();
                }
                let callee = match c.peek() {
                    Some(Tok::G(g)) => {
                        c.i += 1;
                        Callee::Name(g.clone())
                    }
                    Some(Tok::L(n)) => {
                        c.i += 1;
                        Callee::Ind(Opnd::R(self.reg(n)))
                    }
                    Some(Tok::W(w)) if w == "asm" => {
                        // empty asm barriers (black_box) only
                        let mut body = None;
                        for t in &c.t[c.i..] {
                            if let Tok::Str(b) = t {
                                body = Some(b.clone());
                                break;
                            }
                        }
                        if body == Some(vec![]) && t == Ty::Void {
                            return Ok(Ins::Nop);
                        }
                        return Err("inline asm".into());
                    }
                    Some(Tok::W(_)) => Callee::Ind(Opnd::K(self.m.konst(self.ar, &mut c, &Ty::Ptr)?)),
                    t => return Err(format!("callee {:?}", t)),
                };
                if let Callee::Name(n) = &callee {
                    if n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.invariant") {
                        return Ok(Ins::Nop);
                    }
                }
                c.exp('(')?;
                let mut args = vec![];
                if !c.eat_p(')') {
                    loop {
                        let t = self.m.ty(&mut c)?;
                        self.attrs(&mut c);
                        if t == Ty::Opaque {
                            // metadata operand
                            while !c.is_p(',') && !c.is_p(')') {
                                if c.is_p('(') {
                                    c.skip_balanced();
                                } else {
                                    c.next()?;
                                }
                            }
                        } else {
                            args.push(self.opnd(&mut c, &t)?);
                        }
                        if c.eat_p(')') {
                            break;
                        }
                        c.exp(',')?;
                    }
                }
                Ok(Ins::Call(d, callee, args, t))
            }
            "atomicrmw" => {
                c.eat_w("volatile");
                let op = match c.next()? {
                    Tok::W(x) => x.clone(),
                    _ => return Err("atomicrmw".into()),
                };
                let (_, p) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (t, v) = self.tyop(&mut c)?;
                Ok(Ins::AtomicRmw(dst, op, t, p, v))
            }
            "cmpxchg" => {
                c.eat_w("weak");
                c.eat_w("volatile");
                let (_, p) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (t, a) = self.tyop(&mut c)?;
                c.exp(',')?;
                let (_, b) = self.tyop(&mut c)?;
                Ok(Ins::CmpXchg(dst, t, p, a, b))
            }
            "fence" => Ok(Ins::Nop),
            x => Err(format!("unsupported instruction {}", x)),
        }
    }
    fn attrs_call(&self, c: &mut Cur) {
        loop {
            match c.peek() {
                Some(Tok::W(w)) => {
                    let is_ty = matches!(w.as_str(), "void" | "ptr" | "float" | "double" | "half" | "fp128")
                        || (w.starts_with('i') && w[1..].parse::<u32>().is_ok());
                    if is_ty {
                        return;
                    }
                    let al = w == "align";
                    c.i += 1;
                    if c.is_p('(') {
                        c.skip_balanced();
                    } else if al {
                        c.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
}
