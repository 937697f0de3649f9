//! Symbolic executor over LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    E(E),
    A(Rc<Vec<Val>>),
}

const HEAP_OFF: u64 = 0x1000_0000;
const GLOB_BASE: u64 = 0x7000_0000_0000_0000;
const FN_BASE: u64 = 0x6000_0000_0000_0000;
const HUGE: u64 = 64 << 20;

#[derive(Clone)]
pub struct Obj {
    bytes: Vec<E>,
    alive: bool,
    constant: bool,
}
const CH: usize = 64;
type Chunk = Vec<Option<Rc<Obj>>>;

#[derive(Clone)]
struct Frame {
    f: Rc<Func>,
    regs: Vec<Option<Val>>,
    block: u32,
    ip: usize,
    dest: Option<u32>,
    normal: Option<u32>,
    allocas: Vec<u32>,
}

#[derive(Clone)]
struct UfRec {
    alg: u32,
    inp: Rc<Vec<E>>,
    out: Rc<Vec<E>>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    heap: Vec<Rc<Chunk>>,
    nheap: u32,
    gover: Rc<HashMap<u32, Rc<Obj>>>,
    pc: Vec<E>,
    dom: Rc<FxMap<u32, [u64; 4]>>,
    multi: Vec<u64>,
    model: Rc<Model>,
    inputs: Vec<E>,
    ufout: Vec<E>,
    obs: Vec<Rc<Vec<E>>>,
    ufs: Vec<UfRec>,
    nvars: u32,
    steps: u64,
    depth: u32,
    nchoose: u32,
    reached: Vec<String>,
}

pub enum Stop {
    End,
    Infeasible,
    Violation { kind: String, id: String, msg: String },
    Unsupported(String),
    /// the state was consumed by a fork helper
    Unknown(String),
}
type R<T> = Result<T, Stop>;

enum Dec {
    True,
    False,
    /// both possible: value under the current model, model for the other side
    Both(bool, Rc<Model>),
}

#[derive(Clone)]
enum Callee {
    Func(Rc<Func>),
    Builtin(Rc<str>),
    Panic(Rc<str>),
}

pub struct Violation {
    pub kind: String,
    pub id: String,
    pub msg: String,
    pub inputs: Vec<u8>,
    pub ufs: Vec<u8>,
}
pub struct Sample {
    pub inputs: Vec<u8>,
    pub ufs: Vec<u8>,
    pub obs: Vec<Vec<u8>>,
}

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub infeasible: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks: BTreeMap<String, (u64, u64)>, // id -> (decided by normal form, decided by solver)
    pub reached: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub incomplete: Vec<String>,
    pub samples: Vec<Sample>,
    pub fast: u64,
    pub cached: u64,
    pub functions: BTreeSet<String>,
    pub max_inputs: usize,
    pub max_depth: u32,
}

pub struct Limits {
    pub max_paths: u64,
    pub max_steps_path: u64,
    pub deadline: std::time::Instant,
    pub case: Option<(u64, u64)>,
    pub trace: bool,
    pub max_violations: usize,
    pub max_frames: usize,
    pub tier: u32,
}

pub struct Engine {
    pub m: Module,
    /// fork counts per call site (only with --sites)
    pub sites: HashMap<String, u64>,
    pub p: Pool,
    pub z: Z3,
    callees: HashMap<Rc<str>, Callee>,
    gaddr: HashMap<Rc<str>, u64>,
    gobj: Vec<Rc<Obj>>,
    gstart: Vec<u64>,
    gnext: u64,
    gpending: Vec<u32>,
    gnames: Vec<Rc<str>>,
    fn_addr: HashMap<Rc<str>, u64>,
    fn_names: Vec<Rc<str>>,
    consts: FxMap<usize, Val>,
    cache: HashMap<Vec<E>, Option<Rc<FxMap<u32, u8>>>>,
    tts: FxMap<E, [u64; 4]>,
    work: Vec<State>,
    pub rep: Report,
    pub lim: Limits,
    cur_dead: bool,
}

fn bitpos(v: u32) -> (usize, u64) {
    ((v / 64) as usize, 1u64 << (v % 64))
}

impl Engine {
    pub fn new(m: Module, z: Z3, lim: Limits) -> Self {
        Engine {
            m,
            sites: HashMap::new(),
            p: Pool::new(),
            z,
            callees: HashMap::new(),
            gaddr: HashMap::new(),
            gobj: vec![],
            gstart: vec![],
            gnext: GLOB_BASE + 0x1000,
            gpending: vec![],
            gnames: vec![],
            fn_addr: HashMap::new(),
            fn_names: vec![],
            consts: FxMap::default(),
            cache: HashMap::new(),
            tts: FxMap::default(),
            work: vec![],
            rep: Report::default(),
            lim,
            cur_dead: false,
        }
    }

    // ------------------------------------------------------------ globals
    fn addr_of(&mut self, name: &Rc<str>) -> u64 {
        if let Some(a) = self.gaddr.get(name) {
            return *a;
        }
        if let Some(a) = self.fn_addr.get(name) {
            return *a;
        }
        if self.m.globals.contains_key(name) {
            let (size, align, constant) = {
                let g = &self.m.globals[name];
                (g.ty.size(), g.align.max(16), g.constant)
            };
            let a = (self.gnext + align - 1) / align * align;
            self.gnext = a + size + 64;
            let id = self.gobj.len() as u32;
            self.gobj.push(Rc::new(Obj { bytes: vec![0; size as usize], alive: true, constant }));
            self.gstart.push(a);
            self.gnames.push(name.clone());
            self.gaddr.insert(name.clone(), a);
            self.gpending.push(id);
            return a;
        }
        if let Some(c) = self.m.aliases.get(name).cloned() {
            let v = self.const_val(&c, &Ty::Ptr);
            if let Val::E(e) = v {
                let a = self.p.cv(e).unwrap() as u64;
                self.gaddr.insert(name.clone(), a);
                return a;
            }
        }
        // function (defined or external)
        let a = FN_BASE + ((self.fn_names.len() as u64 + 1) << 32);
        self.fn_names.push(name.clone());
        self.fn_addr.insert(name.clone(), a);
        a
    }
    fn materialise(&mut self) {
        while let Some(id) = self.gpending.pop() {
            let name = self.gnames[id as usize].clone();
            let (ty, init) = {
                let g = &self.m.globals[&name];
                (g.ty.clone(), g.init.clone())
            };
            if let Some(c) = init {
                let v = self.const_val(&c, &ty);
                let mut out = vec![0u32; ty.size() as usize];
                self.to_bytes(&v, &ty, &mut out, 0);
                let o = Rc::make_mut(&mut self.gobj[id as usize]);
                o.bytes = out;
            }
        }
    }
    fn zero(&mut self, ty: &Ty) -> Val {
        match ty {
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                let z = self.zero(t);
                Val::A(Rc::new(vec![z; *n as usize]))
            }
            Ty::Struct(f, _) => {
                let v = f.iter().map(|t| self.zero(t)).collect();
                Val::A(Rc::new(v))
            }
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => Val::E(self.p.c(ty.bits().min(128), 0)),
            _ => Val::E(0),
        }
    }
    fn const_val(&mut self, c: &Const, ty: &Ty) -> Val {
        match c {
            Const::Int(w, v) => Val::E(self.p.c((*w).min(128), *v)),
            Const::Float(w, v) => Val::E(self.p.c(*w, *v as u128)),
            Const::Undef(t) | Const::Zero(t) => {
                let t = t.clone();
                self.zero(&t)
            }
            Const::Bytes(b) => {
                let v = b.iter().map(|x| Val::E(*x as u32)).collect();
                Val::A(Rc::new(v))
            }
            Const::Agg(t, v) => {
                let tys: Vec<Ty> = match t {
                    Ty::Struct(f, _) => f.to_vec(),
                    Ty::Array(n, e) | Ty::Vector(n, e) => vec![(**e).clone(); *n as usize],
                    _ => panic!("agg ty"),
                };
                let out = v.iter().zip(&tys).map(|(c, t)| self.const_val(c, t)).collect();
                Val::A(Rc::new(out))
            }
            Const::Global(n) => {
                let a = self.addr_of(n);
                Val::E(self.p.c(64, a as u128))
            }
            Const::Gep(t, b, idx) => {
                let bv = self.const_val(b, &Ty::Ptr);
                let iv: Vec<E> = idx
                    .iter()
                    .map(|i| {
                        let v = self.const_val(i, &Ty::Int(64));
                        self.e(&v)
                    })
                    .collect();
                let b = self.e(&bv);
                Val::E(self.gep(t, b, &iv))
            }
            Const::Cast(_, c, to) => {
                let v = self.const_val(c, ty);
                let e = self.e(&v);
                let w = to.bits();
                let ew = self.p.w(e);
                Val::E(if w < ew { self.p.trunc(e, w) } else { self.p.zext(e, w) })
            }
            Const::Bin(op, a, b) => {
                let a = self.const_val(a, ty);
                let b = self.const_val(b, ty);
                let (a, b) = (self.e(&a), self.e(&b));
                Val::E(match op.as_str() {
                    "add" => self.p.add(a, b),
                    "sub" => self.p.sub(a, b),
                    "mul" => self.p.mul(a, b),
                    "xor" => self.p.xor(a, b),
                    "and" => self.p.and(a, b),
                    "or" => self.p.or(a, b),
                    "shl" => self.p.shl(a, b),
                    _ => self.p.lshr(a, b),
                })
            }
        }
    }
    fn e(&self, v: &Val) -> E {
        match v {
            Val::E(e) => *e,
            Val::A(a) if a.len() == 1 => self.e(&a[0]),
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
    fn gep(&mut self, ty: &Ty, base: E, idx: &[E]) -> E {
        let mut r = base;
        let mut t = ty.clone();
        for (k, &i) in idx.iter().enumerate() {
            if k == 0 {
                let i = self.sx64(i);
                let s = self.p.c(64, t.size() as u128);
                let o = self.p.mul(i, s);
                r = self.p.add(r, o);
            } else {
                match t.clone() {
                    Ty::Struct(f, _) => {
                        let n = self.p.cv(i).unwrap() as usize;
                        let (offs, _) = t.layout();
                        let o = self.p.c(64, offs[n] as u128);
                        r = self.p.add(r, o);
                        t = f[n].clone();
                    }
                    Ty::Array(_, e) | Ty::Vector(_, e) => {
                        let i = self.sx64(i);
                        let s = self.p.c(64, e.size() as u128);
                        let o = self.p.mul(i, s);
                        r = self.p.add(r, o);
                        t = (*e).clone();
                    }
                    _ => panic!("gep into {t:?}"),
                }
            }
        }
        r
    }
    fn sx64(&mut self, i: E) -> E {
        let w = self.p.w(i);
        if w < 64 {
            self.p.sext(i, 64)
        } else if w > 64 {
            self.p.trunc(i, 64)
        } else {
            i
        }
    }

    // ------------------------------------------------------------ bytes <-> values
    fn to_bytes(&mut self, v: &Val, ty: &Ty, out: &mut [E], off: usize) {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let e = self.e(v);
                let w = self.p.w(e);
                let nb = ((w + 7) / 8) as usize;
                if let Some(c) = self.p.cv(e) {
                    for i in 0..nb {
                        out[off + i] = ((c >> (8 * i)) & 0xff) as u32;
                    }
                } else {
                    let e = if w % 8 != 0 { self.p.zext(e, nb as u32 * 8) } else { e };
                    for i in 0..nb {
                        out[off + i] = self.p.ext(e, 8 * i as u32, 8);
                    }
                }
            }
            Ty::Array(n, t) => {
                let s = t.size() as usize;
                if let Val::A(a) = v {
                    for i in 0..*n as usize {
                        self.to_bytes(&a[i], t, out, off + i * s);
                    }
                }
            }
            Ty::Vector(n, t) => {
                if let Val::A(a) = v {
                    let s = match **t {
                        Ty::Int(w) if w % 8 != 0 => {
                            let e = self.vec_to_int(a);
                            let w = self.p.w(e);
                            self.to_bytes(&Val::E(e), &Ty::Int(w), out, off);
                            return;
                        }
                        _ => (t.bits() / 8) as usize,
                    };
                    for i in 0..*n as usize {
                        self.to_bytes(&a[i], t, out, off + i * s);
                    }
                }
            }
            Ty::Struct(f, _) => {
                let (offs, _) = ty.layout();
                if let Val::A(a) = v {
                    for i in 0..f.len() {
                        self.to_bytes(&a[i], &f[i], out, off + offs[i] as usize);
                    }
                }
            }
            _ => {}
        }
    }
    fn from_bytes(&mut self, b: &[E], ty: &Ty) -> Val {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = ty.bits();
                let nb = ((w + 7) / 8) as usize;
                if b[..nb].iter().all(|x| *x < 256) {
                    let mut r = 0u128;
                    for i in (0..nb).rev() {
                        r = (r << 8) | b[i] as u128;
                    }
                    return Val::E(self.p.c(w, r));
                }
                let e = if nb == 1 {
                    b[0]
                } else {
                    let parts: Vec<E> = b[..nb].iter().rev().copied().collect();
                    self.p.cat(&parts)
                };
                let e = if w % 8 != 0 { self.p.trunc(e, w) } else { e };
                Val::E(e)
            }
            Ty::Array(n, t) => {
                let s = t.size() as usize;
                let v = (0..*n as usize).map(|i| self.from_bytes(&b[i * s..], t)).collect();
                Val::A(Rc::new(v))
            }
            Ty::Vector(n, t) => {
                if t.bits() % 8 != 0 {
                    let w = t.bits() * *n as u32;
                    let e = self.from_bytes(b, &Ty::Int(w));
                    let e = self.e(&e);
                    return self.int_to_vec(e, *n as usize, t.bits());
                }
                let s = (t.bits() / 8) as usize;
                let v = (0..*n as usize).map(|i| self.from_bytes(&b[i * s..], t)).collect();
                Val::A(Rc::new(v))
            }
            Ty::Struct(f, _) => {
                let (offs, _) = ty.layout();
                let v = (0..f.len()).map(|i| self.from_bytes(&b[offs[i] as usize..], &f[i])).collect();
                Val::A(Rc::new(v))
            }
            _ => Val::E(0),
        }
    }
    fn vec_to_int(&mut self, a: &[Val]) -> E {
        let parts: Vec<E> = a.iter().rev().map(|v| self.e(v)).collect();
        self.p.cat(&parts)
    }
    fn int_to_vec(&mut self, e: E, n: usize, w: u32) -> Val {
        let v = (0..n).map(|i| Val::E(self.p.ext(e, i as u32 * w, w))).collect();
        Val::A(Rc::new(v))
    }

    // ------------------------------------------------------------ objects
    fn new_obj(&mut self, st: &mut State, bytes: Vec<E>) -> u64 {
        let id = st.nheap;
        st.nheap += 1;
        let (c, i) = (id as usize / CH, id as usize % CH);
        while st.heap.len() <= c {
            st.heap.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut st.heap[c])[i] = Some(Rc::new(Obj { bytes, alive: true, constant: false }));
        ((id as u64) << 32) + HEAP_OFF
    }
    /// locate the object containing `addr`: (id, base); id >= 1<<31 are globals
    fn find(&mut self, st: &State, addr: u64) -> Option<(u32, u64)> {
        if addr >= GLOB_BASE {
            let mut lo = 0;
            let mut hi = self.gstart.len();
            while lo < hi {
                let mid = (lo + hi) / 2;
                if self.gstart[mid] <= addr {
                    lo = mid + 1;
                } else {
                    hi = mid;
                }
            }
            if lo == 0 {
                return None;
            }
            return Some((lo as u32 - 1 + (1 << 31), self.gstart[lo - 1]));
        }
        if addr >= FN_BASE {
            return None;
        }
        let id = (addr >> 32) as u32;
        if id == 0 || id >= st.nheap {
            return None;
        }
        Some((id, ((id as u64) << 32) + HEAP_OFF))
    }
    fn obj<'a>(&'a mut self, st: &'a State, id: u32) -> &'a Rc<Obj> {
        if id >= 1 << 31 {
            if !self.gpending.is_empty() {
                self.materialise();
            }
            let g = id - (1 << 31);
            if let Some(o) = st.gover.get(&g) {
                return o;
            }
            &self.gobj[g as usize]
        } else {
            st.heap[id as usize / CH][id as usize % CH].as_ref().unwrap()
        }
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> &'a mut Obj {
        if id >= 1 << 31 {
            if !self.gpending.is_empty() {
                self.materialise();
            }
            let g = id - (1 << 31);
            let m = Rc::make_mut(&mut st.gover);
            let o = m.entry(g).or_insert_with(|| self.gobj[g as usize].clone());
            Rc::make_mut(o)
        } else {
            let c = Rc::make_mut(&mut st.heap[id as usize / CH]);
            Rc::make_mut(c[id as usize % CH].as_mut().unwrap())
        }
    }
    fn memerr(&self, st: &State, what: &str) -> Stop {
        Stop::Violation {
            kind: "memory".into(),
            id: format!("memory:{what}"),
            msg: format!("invalid memory access ({what}) in {}", self.where_(st)),
        }
    }
    fn where_(&self, st: &State) -> String {
        let v: Vec<String> = st.frames.iter().rev().take(6).map(|f| demangle(&f.f.name)).collect();
        v.join(" < ")
    }
    /// Resolve a pointer for an access of n bytes.
    fn resolve(&mut self, st: &mut State, ptr: E, n: u64, write: bool) -> R<(u32, Result<u64, E>)> {
        if let Some(a) = self.p.cv(ptr) {
            let a = a as u64;
            let (id, base) = match self.find(st, a) {
                Some(x) => x,
                None => return Err(self.memerr(st, if a < 4096 { "null" } else { "wild" })),
            };
            let off = a.wrapping_sub(base);
            let (size, alive, cst) = {
                let o = self.obj(st, id);
                (o.bytes.len() as u64, o.alive, o.constant)
            };
            if !alive {
                return Err(self.memerr(st, "use-after-free"));
            }
            if off > size || off + n > size {
                return Err(self.memerr(st, "out-of-bounds"));
            }
            if write && cst {
                return Err(self.memerr(st, "write-to-constant"));
            }
            return Ok((id, Ok(off)));
        }
        let a = st.model.eval(&self.p, ptr) as u64;
        let (id, base) = match self.find(st, a) {
            Some(x) => x,
            None => return Err(self.memerr(st, "wild")),
        };
        let (size, alive, cst) = {
            let o = self.obj(st, id);
            (o.bytes.len() as u64, o.alive, o.constant)
        };
        if !alive {
            return Err(self.memerr(st, "use-after-free"));
        }
        let moff = a.wrapping_sub(base);
        if moff > size || moff + n > size {
            return Err(self.memerr(st, "out-of-bounds"));
        }
        if write && cst {
            return Err(self.memerr(st, "write-to-constant"));
        }
        let b = self.p.c(64, base as u128);
        let off = self.p.sub(ptr, b);
        if let Some(o) = self.p.cv(off) {
            return Ok((id, Ok(o as u64)));
        }
        let lim = self.p.c(64, (size - n) as u128);
        let inb = self.p.ule(off, lim);
        self.require_or_fork(st, inb)?;
        Ok((id, Err(off)))
    }
    /// `c` holds under the model; fork off the states where it does not, keep it here.
    fn require_or_fork(&mut self, st: &mut State, c: E) -> R<()> {
        match self.decide(st, c)? {
            Dec::True => Ok(()),
            Dec::False => Err(Stop::Unsupported("require_or_fork: model disagrees".into())),
            Dec::Both(v, m) => {
                assert!(v, "require_or_fork under model");
                let nc = self.p.not(c);
                let mut o = st.clone();
                self.assume(&mut o, nc);
                o.model = m;
                self.push(o);
                self.assume(st, c);
                Ok(())
            }
        }
    }
    fn push(&mut self, mut s: State) {
        s.depth += 1;
        self.rep.forks += 1;
        if self.lim.trace {
            let k = self.where_(&s);
            *self.sites.entry(k).or_insert(0) += 1;
        }
        self.work.push(s);
    }
    /// fork on the value of e; returns the value in this state
    fn concretize(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(v) = self.p.cv(e) {
            return Ok(v);
        }
        let v = st.model.eval(&self.p, e);
        let k = self.p.c(self.p.w(e), v);
        let c = self.p.eq(e, k);
        self.require_or_fork(st, c)?;
        Ok(v)
    }

    fn load_bytes(&mut self, st: &mut State, ptr: E, n: u64) -> R<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = self.resolve(st, ptr, n, false)?;
        match off {
            Ok(o) => {
                let ob = self.obj(st, id);
                Ok(ob.bytes[o as usize..(o + n) as usize].to_vec())
            }
            Err(off) => {
                let ob = self.obj(st, id).clone();
                let size = ob.bytes.len() as u64;
                let hi = size - n;
                let (rlo, rhi) = self.p.ranges[off as usize];
                let hi = (hi as u128).min(rhi) as u64;
                let lo = (rlo as u64).min(hi);
                let w = (64 - hi.leading_zeros()).max(1);
                let ones = self.p.maybe_ones(off) as u64;
                let tz = ones.trailing_zeros().min(w - 1);
                let iw = w - tz;
                if iw <= self.p.max_table_bits() {
                    // per byte: concrete -> table; else mux
                    let idx = self.p.ext(off, tz, iw);
                    let mut out = Vec::with_capacity(n as usize);
                    let mut allc = true;
                    let mut i = lo >> tz;
                    while (i << tz) <= hi {
                        let o = (i << tz) as usize;
                        if ob.bytes[o..o + n as usize].iter().any(|x| *x >= 256) {
                            allc = false;
                            break;
                        }
                        i += 1;
                    }
                    if allc {
                        for j in 0..n {
                            let mut vals = vec![0u128; 1 << iw];
                            for i in 0..(1u64 << iw) {
                                let o = (i << tz) + j;
                                if (i << tz) <= hi && o < size {
                                    vals[i as usize] = ob.bytes[o as usize] as u128;
                                }
                            }
                            out.push(self.p.table(idx, vals, 8));
                        }
                        return Ok(out);
                    }
                    let cands: Vec<u64> =
                        (0..(1u64 << iw)).map(|i| i << tz).filter(|o| *o <= hi && *o >= lo).collect();
                    if cands.len() <= 200 {
                        for j in 0..n {
                            let mut acc = ob.bytes[(cands[0] + j) as usize];
                            for &c in &cands[1..] {
                                let k = self.p.c(iw, (c >> tz) as u128);
                                let q = self.p.eq(idx, k);
                                acc = self.p.ite(q, ob.bytes[(c + j) as usize], acc);
                            }
                            out.push(acc);
                        }
                        return Ok(out);
                    }
                }
                let v = self.concretize(st, off)? as usize;
                Ok(ob.bytes[v..v + n as usize].to_vec())
            }
        }
    }
    fn store_bytes(&mut self, st: &mut State, ptr: E, b: &[E]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let n = b.len() as u64;
        let (id, off) = self.resolve(st, ptr, n, true)?;
        match off {
            Ok(o) => {
                let ob = self.obj_mut(st, id);
                ob.bytes[o as usize..(o + n) as usize].copy_from_slice(b);
            }
            Err(off) => {
                let size = self.obj(st, id).bytes.len() as u64;
                let hi = ((size - n) as u128).min(self.p.ranges[off as usize].1) as u64;
                let lo = (self.p.ranges[off as usize].0 as u64).min(hi);
                let ones = self.p.maybe_ones(off) as u64;
                let tz = ones.trailing_zeros().min(63);
                let step = 1u64 << tz;
                let cnt = (hi - lo) / step + 1;
                if cnt > 200 {
                    let v = self.concretize(st, off)? as usize;
                    let ob = self.obj_mut(st, id);
                    ob.bytes[v..v + n as usize].copy_from_slice(b);
                    return Ok(());
                }
                let mut bytes = self.obj(st, id).bytes.clone();
                let mut o = lo / step * step;
                while o <= hi {
                    let k = self.p.c(64, o as u128);
                    let q = self.p.eq(off, k);
                    for j in 0..b.len() {
                        let old = bytes[o as usize + j];
                        bytes[o as usize + j] = self.p.ite(q, b[j], old);
                    }
                    o += step;
                }
                self.obj_mut(st, id).bytes = bytes;
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ constraints
    fn assume(&mut self, st: &mut State, c: E) {
        if let Some(v) = self.p.cv(c) {
            debug_assert!(v == 1);
            return;
        }
        match self.p.op(c) {
            Op::And => {
                let (a, b) = (self.p.arg(c, 0), self.p.arg(c, 1));
                self.assume(st, a);
                self.assume(st, b);
                return;
            }
            Op::Not => {
                let x = self.p.arg(c, 0);
                if self.p.op(x) == Op::Or {
                    let (a, b) = (self.p.arg(x, 0), self.p.arg(x, 1));
                    let (na, nb) = (self.p.not(a), self.p.not(b));
                    self.assume(st, na);
                    self.assume(st, nb);
                    return;
                }
            }
            _ => {}
        }
        if st.pc.contains(&c) {
            return;
        }
        let s = self.p.support(c);
        if s.len() == 1 {
            let t = self.tt(c, s[0]);
            let d = Rc::make_mut(&mut st.dom);
            let e = d.entry(s[0]).or_insert([u64::MAX; 4]);
            for i in 0..4 {
                e[i] &= t[i];
            }
        } else {
            for v in s.iter() {
                let (i, b) = bitpos(*v);
                if st.multi.len() <= i {
                    st.multi.resize(i + 1, 0);
                }
                st.multi[i] |= b;
            }
        }
        st.pc.push(c);
    }
    /// truth table of a predicate over a single byte variable
    fn tt(&mut self, c: E, v: u32) -> [u64; 4] {
        if let Some(t) = self.tts.get(&c) {
            return *t;
        }
        let mut t = [0u64; 4];
        for x in 0..256usize {
            let mut vals = FxMap::default();
            vals.insert(v, x as u8);
            if Model::new(vals).eval(&self.p, c) == 1 {
                t[x / 64] |= 1 << (x % 64);
            }
        }
        self.tts.insert(c, t);
        t
    }
    fn slice(&mut self, st: &State, c: E) -> (Vec<E>, Vec<u32>) {
        let nw = (st.nvars as usize + 63) / 64 + 1;
        let mut bits = vec![0u64; nw];
        for v in self.p.support(c).iter() {
            let (i, b) = bitpos(*v);
            bits[i] |= b;
        }
        let mut rest: Vec<(E, Rc<Vec<u32>>)> = st.pc.iter().map(|e| (*e, self.p.support(*e))).collect();
        let mut out = vec![];
        loop {
            let mut changed = false;
            let mut keep = vec![];
            for (e, s) in rest {
                if s.iter().any(|v| {
                    let (i, b) = bitpos(*v);
                    bits[i] & b != 0
                }) {
                    for v in s.iter() {
                        let (i, b) = bitpos(*v);
                        if bits[i] & b == 0 {
                            bits[i] |= b;
                            changed = true;
                        }
                    }
                    out.push(e);
                } else {
                    keep.push((e, s));
                }
            }
            rest = keep;
            if !changed {
                break;
            }
        }
        let mut vars = vec![];
        for (i, w) in bits.iter().enumerate() {
            for b in 0..64 {
                if w >> b & 1 == 1 {
                    vars.push((i * 64 + b) as u32);
                }
            }
        }
        out.sort_unstable();
        (out, vars)
    }
    /// is pc && c satisfiable?  returns a full model if so
    fn query(&mut self, st: &State, c: E) -> R<Option<Rc<Model>>> {
        let (mut cs, vars) = self.slice(st, c);
        cs.push(c);
        let r = if let Some(r) = self.cache.get(&cs) {
            self.rep.cached += 1;
            r.clone()
        } else {
            let r = match self.z.solve(&mut self.p, &cs, &vars) {
                Res::Sat(m) => Some(Rc::new(m)),
                Res::Unsat => None,
                Res::Unknown => return Err(Stop::Unknown(format!("solver gave up in {}", self.where_(st)))),
            };
            self.cache.insert(cs, r.clone());
            r
        };
        Ok(r.map(|m| {
            let mut vals = st.model.vals.clone();
            for (k, v) in m.iter() {
                vals.insert(*k, *v);
            }
            Rc::new(Model::new(vals))
        }))
    }
    fn decide(&mut self, st: &State, c: E) -> R<Dec> {
        if let Some(v) = self.p.cv(c) {
            return Ok(if v == 1 { Dec::True } else { Dec::False });
        }
        if st.pc.contains(&c) {
            return Ok(Dec::True);
        }
        let nc = self.p.not(c);
        if st.pc.contains(&nc) {
            return Ok(Dec::False);
        }
        let s = self.p.support(c);
        if s.len() == 1 {
            let v = s[0];
            let t = self.tt(c, v);
            let d = st.dom.get(&v).copied().unwrap_or([u64::MAX; 4]);
            let yes: Vec<u64> = (0..4).map(|i| d[i] & t[i]).collect();
            let no: Vec<u64> = (0..4).map(|i| d[i] & !t[i]).collect();
            if yes.iter().all(|x| *x == 0) {
                self.rep.fast += 1;
                return Ok(Dec::False);
            }
            if no.iter().all(|x| *x == 0) {
                self.rep.fast += 1;
                return Ok(Dec::True);
            }
            let (i, b) = bitpos(v);
            if st.multi.get(i).map_or(true, |x| x & b == 0) {
                self.rep.fast += 1;
                let cur = st.model.eval(&self.p, c) == 1;
                let o = if cur { &no } else { &yes };
                let w = (0..4).find(|i| o[*i] != 0).unwrap();
                let val = w as u8 * 64 + o[w].trailing_zeros() as u8;
                let mut vals = st.model.vals.clone();
                vals.insert(v, val);
                return Ok(Dec::Both(cur, Rc::new(Model::new(vals))));
            }
        }
        let cur = st.model.eval(&self.p, c) == 1;
        let other = if cur { nc } else { c };
        match self.query(st, other)? {
            None => Ok(if cur { Dec::True } else { Dec::False }),
            Some(m) => Ok(Dec::Both(cur, m)),
        }
    }

    // ------------------------------------------------------------ running
    pub fn run(&mut self, entry: &str) {
        let f = match self.callee(&entry.into()) {
            Callee::Func(f) => f,
            _ => {
                self.rep.incomplete.push(format!("no such harness {entry}"));
                return;
            }
        };
        let mut st = State {
            frames: vec![],
            heap: vec![],
            nheap: 1,
            gover: Rc::new(HashMap::new()),
            pc: vec![],
            dom: Rc::new(FxMap::default()),
            multi: vec![],
            model: Rc::new(Model::new(FxMap::default())),
            inputs: vec![],
            ufout: vec![],
            obs: vec![],
            ufs: vec![],
            nvars: 0,
            steps: 0,
            depth: 0,
            nchoose: 0,
            reached: vec![],
        };
        self.enter(&mut st, f, vec![], None, None);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if std::time::Instant::now() > self.lim.deadline {
                self.rep.incomplete.push("time limit".into());
                break;
            }
            if self.rep.paths + self.rep.infeasible > self.lim.max_paths {
                self.rep.incomplete.push("path limit".into());
                break;
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| loop {
                if st.steps & 0xfffff == 0 && std::time::Instant::now() > self.lim.deadline {
                    break Stop::Unsupported("time limit".into());
                }
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(s) => break s,
                }
                st.steps += 1;
                self.rep.steps += 1;
                if st.frames.len() > self.lim.max_frames {
                    break Stop::Violation {
                        kind: "stack".into(),
                        id: "stack".into(),
                        msg: format!("call depth exceeds {}", self.lim.max_frames),
                    };
                }
                if st.steps > self.lim.max_steps_path {
                    break Stop::Violation {
                        kind: "hang".into(),
                        id: "termination".into(),
                        msg: format!("no end after {} steps", self.lim.max_steps_path),
                    };
                }
            }));
            let stop = r.unwrap_or_else(|e| {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                Stop::Unsupported(format!("engine: {m}"))
            });
            self.finish(st, stop);
            // a path that is merely too long does not end the search at once
            let long = self.rep.violations.iter().filter(|v| v.kind == "hang" || v.kind == "stack").count();
            if self.rep.violations.len() >= self.lim.max_violations + long.min(5) {
                break;
            }
            if self.rep.incomplete.len() > 20 {
                break;
            }
        }
    }
    fn finish(&mut self, st: State, stop: Stop) {
        self.rep.max_depth = self.rep.max_depth.max(st.depth);
        match stop {
            Stop::End => {
                self.rep.paths += 1;
                self.rep.max_inputs = self.rep.max_inputs.max(st.inputs.len());
                for r in &st.reached {
                    *self.rep.reached.entry(r.clone()).or_default() += 1;
                }
                let n = self.rep.paths;
                if self.rep.samples.len() < 24 && (n <= 2 || n.is_power_of_two() || n % 997 == 0) {
                    let inputs = st.inputs.iter().map(|e| st.model.eval(&self.p, *e) as u8).collect();
                    let ufs = st.ufout.iter().map(|e| st.model.eval(&self.p, *e) as u8).collect();
                    let obs = st
                        .obs
                        .iter()
                        .map(|o| o.iter().map(|e| st.model.eval(&self.p, *e) as u8).collect())
                        .collect();
                    self.rep.samples.push(Sample { inputs, ufs, obs });
                }
            }
            Stop::Infeasible => self.rep.infeasible += 1,
            Stop::Violation { kind, id, msg } => {
                self.rep.paths += 1;
                let m = st.model.clone();
                self.violate(&st, &m, kind, id, msg);
            }
            Stop::Unsupported(s) => self.rep.incomplete.push(s),
            Stop::Unknown(s) => self.rep.incomplete.push(s),
        }
    }
    fn violate(&mut self, st: &State, m: &Model, kind: String, id: String, msg: String) {
        if self.rep.violations.iter().any(|v| v.id == id && v.msg == msg) {
            return;
        }
        let inputs = st.inputs.iter().map(|e| m.eval(&self.p, *e) as u8).collect();
        let ufs = st.ufout.iter().map(|e| m.eval(&self.p, *e) as u8).collect();
        self.rep.violations.push(Violation { kind, id, msg, inputs, ufs });
    }
    fn enter(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>, dest: Option<u32>, normal: Option<u32>) {
        let mut regs = vec![None; f.nregs];
        for ((r, _), a) in f.params.iter().zip(args) {
            regs[*r as usize] = Some(a);
        }
        st.frames.push(Frame { f, regs, block: 0, ip: 0, dest, normal, allocas: vec![] });
    }
    fn callee(&mut self, name: &Rc<str>) -> Callee {
        if let Some(c) = self.callees.get(name) {
            return c.clone();
        }
        let mut target = name.clone();
        if let Some(Const::Global(g)) = self.m.aliases.get(name) {
            target = g.clone();
        }
        let c = if is_panic(&target) {
            Callee::Panic(target)
        } else if let Some(h) = redirect(&target).filter(|h| self.m.fn_text.contains_key(&Rc::from(*h))) {
            let f = self.m.parse_fn(h).unwrap();
            Callee::Func(Rc::new(f))
        } else if target.contains("hash_one") && target.contains("RandomState") {
            Callee::Builtin("__hash_one".into())
        } else if self.m.fn_text.contains_key(&target) {
            let f = self.m.parse_fn(&target).unwrap();
            self.rep.functions.insert(demangle(&target));
            Callee::Func(Rc::new(f))
        } else {
            Callee::Builtin(target)
        };
        self.callees.insert(name.clone(), c.clone());
        c
    }
    fn opd(&mut self, st: &State, o: &Opd, ty: &Ty) -> Val {
        match o {
            Opd::Reg(r) => match &st.frames.last().unwrap().regs[*r as usize] {
                Some(v) => v.clone(),
                None => panic!("undefined register in {}", st.frames.last().unwrap().f.name),
            },
            Opd::Const(Const::Int(w, v)) if *w > 128 => {
                let (lo, hi) = (self.p.c(128, *v), self.p.c(128, 0));
                Val::A(Rc::new(vec![Val::E(lo), Val::E(hi)]))
            }
            Opd::Const(Const::Int(w, v)) => Val::E(if *w == 8 { *v as u32 } else { self.p.c(*w, *v) }),
            Opd::Const(c) => {
                let key = c as *const Const as usize;
                if let Some(v) = self.consts.get(&key) {
                    return v.clone();
                }
                let v = self.const_val(c, ty);
                self.consts.insert(key, v.clone());
                v
            }
        }
    }
    fn oe(&mut self, st: &State, o: &Opd, ty: &Ty) -> E {
        let v = self.opd(st, o, ty);
        self.e(&v)
    }
    fn te(&mut self, st: &State, o: &TOpd) -> E {
        let v = self.opd(st, &o.v, &o.ty);
        self.e(&v)
    }
    fn set(&self, st: &mut State, d: Option<u32>, v: Val) {
        if let Some(d) = d {
            st.frames.last_mut().unwrap().regs[d as usize] = Some(v);
        }
    }
    fn next(&self, st: &mut State) {
        st.frames.last_mut().unwrap().ip += 1;
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let from = fr.block;
        let b = &f.blocks[to as usize];
        let mut vals = Vec::with_capacity(b.phis.len());
        for ph in &b.phis {
            let o = &ph.inc.iter().find(|(_, x)| *x == from).expect("phi edge").0;
            // type only needed for non-int constants (undef carries its own)
            vals.push((ph.dest, self.opd(st, o, &Ty::Ptr)));
        }
        let fr = st.frames.last_mut().unwrap();
        for (d, v) in vals {
            fr.regs[d as usize] = Some(v);
        }
        fr.block = to;
        fr.ip = 0;
    }
    fn map2(&mut self, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Pool, E, E) -> E) -> Val {
        match (a, b) {
            (Val::E(x), Val::E(y)) => Val::E(f(&mut self.p, *x, *y)),
            (Val::A(x), Val::A(y)) => {
                let v = x.iter().zip(y.iter()).map(|(p, q)| self.map2(p, q, f)).collect();
                Val::A(Rc::new(v))
            }
            _ => panic!("map2 shape"),
        }
    }
    /// Integers wider than 128 bits, as two halves; only what 128-bit division by
    /// a constant needs, on values made concrete.
    fn wide_bin(&mut self, st: &mut State, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        let mut h = [[0u128; 2]; 2];
        for (i, v) in [a, b].iter().enumerate() {
            if let Val::A(v) = v {
                for j in 0..2 {
                    let e = self.e(&v[j]);
                    h[i][j] = self.concretize(st, e)?;
                }
            }
        }
        let [x, y] = h;
        let r: [u128; 2] = match op {
            BinOp::Mul => {
                let m = mask(64);
                let limbs = |v: [u128; 2]| [v[0] & m, v[0] >> 64, v[1] & m, v[1] >> 64];
                let (p, q) = (limbs(x), limbs(y));
                let mut o = [0u128; 4];
                for i in 0..4 {
                    let mut c = 0u128;
                    for j in 0..4 - i {
                        let t = p[i] * q[j] + o[i + j] + c;
                        o[i + j] = t & m;
                        c = t >> 64;
                    }
                }
                [o[0] | (o[1] << 64), o[2] | (o[3] << 64)]
            }
            BinOp::LShr if y[1] == 0 && y[0] < 256 => {
                let s = y[0] as u32;
                if s >= 128 {
                    [x[1] >> (s - 128), 0]
                } else if s == 0 {
                    x
                } else {
                    [(x[0] >> s) | (x[1] << (128 - s)), x[1] >> s]
                }
            }
            _ => return Err(Stop::Unsupported(format!("i{w} {op:?}"))),
        };
        let (lo, hi) = (self.p.c(128, r[0]), self.p.c(128, r[1]));
        Ok(Val::A(Rc::new(vec![Val::E(lo), Val::E(hi)])))
    }
    fn map1(&mut self, a: &Val, f: &mut dyn FnMut(&mut Pool, E) -> E) -> Val {
        match a {
            Val::E(x) => Val::E(f(&mut self.p, *x)),
            Val::A(x) => {
                let v = x.iter().map(|p| self.map1(p, f)).collect();
                Val::A(Rc::new(v))
            }
        }
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val) -> Val {
        match (c, a, b) {
            (Val::E(c), Val::E(x), Val::E(y)) => Val::E(self.p.ite(*c, *x, *y)),
            (Val::E(_), Val::A(x), Val::A(y)) => {
                let v = x.iter().zip(y.iter()).map(|(p, q)| self.select(c, p, q)).collect();
                Val::A(Rc::new(v))
            }
            (Val::A(c), Val::A(x), Val::A(y)) => {
                let v = (0..x.len()).map(|i| self.select(&c[i], &x[i], &y[i])).collect();
                Val::A(Rc::new(v))
            }
            _ => panic!("select shape"),
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, block, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.block, fr.ip)
        };
        let (dest, ins) = &f.blocks[block as usize].ins[ip];
        let dest = *dest;
        match ins {
            Ins::Bin(op, ty, a, b) => {
                if let Ty::Int(w) = ty {
                    if *w > 128 {
                        let a = self.opd(st, a, ty);
                        let b = self.opd(st, b, ty);
                        let v = self.wide_bin(st, *op, *w, &a, &b)?;
                        self.set(st, dest, v);
                        self.next(st);
                        return Ok(());
                    }
                }
                let a = self.opd(st, a, ty);
                let b = self.opd(st, b, ty);
                let op = *op;
                let v = self.map2(&a, &b, &mut |p, x, y| match op {
                    BinOp::Add => p.add(x, y),
                    BinOp::Sub => p.sub(x, y),
                    BinOp::Mul => p.mul(x, y),
                    BinOp::UDiv => p.udiv(x, y),
                    BinOp::SDiv => p.sdiv(x, y),
                    BinOp::URem => p.urem(x, y),
                    BinOp::SRem => p.srem(x, y),
                    BinOp::Shl => p.shl(x, y),
                    BinOp::LShr => p.lshr(x, y),
                    BinOp::AShr => p.ashr(x, y),
                    BinOp::And => p.and(x, y),
                    BinOp::Or => p.or(x, y),
                    BinOp::Xor => p.xor(x, y),
                });
                self.set(st, dest, v);
                self.next(st);
            }
            Ins::ICmp(pr, ty, a, b) => {
                let a = self.opd(st, a, ty);
                let b = self.opd(st, b, ty);
                let pr = *pr;
                let v = self.map2(&a, &b, &mut |p, x, y| match pr {
                    Pred::Eq => p.eq(x, y),
                    Pred::Ne => p.ne(x, y),
                    Pred::Ult => p.ult(x, y),
                    Pred::Ule => p.ule(x, y),
                    Pred::Ugt => p.ult(y, x),
                    Pred::Uge => p.ule(y, x),
                    Pred::Slt => p.slt(x, y),
                    Pred::Sle => p.sle(x, y),
                    Pred::Sgt => p.slt(y, x),
                    Pred::Sge => p.sle(y, x),
                });
                self.set(st, dest, v);
                self.next(st);
            }
            Ins::Cast(op, from, v, to) => {
                let x = self.opd(st, v, from);
                let (is_fv, is_tv) = (matches!(from, Ty::Vector(..)), matches!(to, Ty::Vector(..)));
                let r = match op {
                    CastOp::BitCast if is_fv || is_tv => {
                        let e = match &x {
                            Val::A(a) => {
                                let w: u32 = a.iter().map(|v| self.p.w(self.e(v))).sum();
                                if w > 128 {
                                    // same-shape reinterpretation of wide vectors through bytes
                                    let mut out = vec![0; from.size() as usize];
                                    self.to_bytes(&x, from, &mut out, 0);
                                    let v = self.from_bytes(&out, to);
                                    self.set(st, dest, v);
                                    self.next(st);
                                    return Ok(());
                                }
                                self.vec_to_int(a)
                            }
                            Val::E(e) => *e,
                        };
                        match to {
                            Ty::Vector(n, t) => self.int_to_vec(e, *n as usize, t.bits()),
                            _ => Val::E(e),
                        }
                    }
                    _ => {
                        let tw = match to {
                            Ty::Vector(_, t) => t.bits(),
                            t => t.bits(),
                        };
                        if tw > 128 && *op == CastOp::ZExt && matches!(from, Ty::Int(w) if *w <= 128) {
                            let e = self.e(&x);
                            let (lo, hi) = (self.p.zext(e, 128), self.p.c(128, 0));
                            let v = Val::A(Rc::new(vec![Val::E(lo), Val::E(hi)]));
                            self.set(st, dest, v);
                            self.next(st);
                            return Ok(());
                        }
                        if tw > 128 {
                            return Err(Stop::Unsupported(format!("cast to i{tw}")));
                        }
                        if matches!(from, Ty::Int(w) if *w > 128) {
                            let lo = match &x {
                                Val::A(v) => self.e(&v[0]),
                                Val::E(e) => *e,
                            };
                            let v = Val::E(self.p.trunc(lo, tw));
                            self.set(st, dest, v);
                            self.next(st);
                            return Ok(());
                        }
                        let op = *op;
                        self.map1(&x, &mut |p, e| {
                            let w = p.w(e);
                            match op {
                                CastOp::Trunc => p.trunc(e, tw),
                                CastOp::ZExt => p.zext(e, tw),
                                CastOp::SExt => p.sext(e, tw),
                                _ => {
                                    if tw < w {
                                        p.trunc(e, tw)
                                    } else {
                                        p.zext(e, tw)
                                    }
                                }
                            }
                        })
                    }
                };
                let r = match op {
                    CastOp::FpToUi | CastOp::FpToSi | CastOp::UiToFp | CastOp::SiToFp | CastOp::FpTrunc | CastOp::FpExt => {
                        let e = self.e(&x);
                        match self.p.cv(e).and_then(|v| float_cast(*op, v, from.bits(), to.bits())) {
                            Some(v) => Val::E(self.p.c(to.bits(), v)),
                            None => return Err(Stop::Unsupported("float cast".into())),
                        }
                    }
                    _ => r,
                };
                self.set(st, dest, r);
                self.next(st);
            }
            Ins::Select(c, ty, a, b) => {
                let c = self.opd(st, &c.v, &c.ty);
                let a = self.opd(st, a, ty);
                let b = self.opd(st, b, ty);
                let v = self.select(&c, &a, &b);
                self.set(st, dest, v);
                self.next(st);
            }
            Ins::Freeze(v) => {
                let v = self.opd(st, &v.v, &v.ty);
                self.set(st, dest, v);
                self.next(st);
            }
            Ins::Load(ty, p) => {
                let p = self.oe(st, p, &Ty::Ptr);
                let n = store_size(ty);
                let b = self.load_bytes(st, p, n)?;
                if let Ty::Int(w) = ty {
                    if *w > 128 {
                        return Err(Stop::Unsupported(format!("load i{w}")));
                    }
                }
                let v = self.from_bytes(&b, ty);
                self.set(st, dest, v);
                self.next(st);
            }
            Ins::Store(v, p) => {
                let x = self.opd(st, &v.v, &v.ty);
                let p = self.oe(st, p, &Ty::Ptr);
                let n = store_size(&v.ty) as usize;
                if let (Ty::Int(w), Opd::Const(c)) = (&v.ty, &v.v) {
                    if *w > 128 {
                        // wide constant store (zero / undef)
                        if matches!(c, Const::Zero(_) | Const::Undef(_)) || matches!(c, Const::Int(_, 0)) {
                            let b = vec![0; n];
                            self.store_bytes(st, p, &b)?;
                            self.next(st);
                            return Ok(());
                        }
                        return Err(Stop::Unsupported(format!("store i{w}")));
                    }
                }
                let mut b = vec![0; n];
                self.to_bytes(&x, &v.ty, &mut b, 0);
                self.store_bytes(st, p, &b)?;
                self.next(st);
            }
            Ins::Alloca(ty, n) => {
                let cnt = match n {
                    Some(n) => {
                        let e = self.te(st, n);
                        self.concretize(st, e)? as u64
                    }
                    None => 1,
                };
                let size = ty.size() * cnt;
                let a = self.new_obj(st, vec![0; size as usize]);
                st.frames.last_mut().unwrap().allocas.push((a >> 32) as u32);
                let e = self.p.c(64, a as u128);
                self.set(st, dest, Val::E(e));
                self.next(st);
            }
            Ins::Gep(ty, b, idx) => {
                let b = self.te(st, b);
                let iv: Vec<E> = idx.iter().map(|i| self.te(st, i)).collect();
                let e = self.gep(ty, b, &iv);
                self.set(st, dest, Val::E(e));
                self.next(st);
            }
            Ins::ExtractValue(a, idx) => {
                let mut v = self.opd(st, &a.v, &a.ty);
                for i in idx {
                    v = match &v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, dest, v);
                self.next(st);
            }
            Ins::InsertValue(a, x, idx) => {
                let v = self.opd(st, &a.v, &a.ty);
                let x = self.opd(st, &x.v, &x.ty);
                let v = insert(&v, &x, idx);
                self.set(st, dest, v);
                self.next(st);
            }
            Ins::ExtractElement(a, i) => {
                let v = self.opd(st, &a.v, &a.ty);
                let i = self.te(st, i);
                let i = self.concretize(st, i)? as usize;
                let r = match &v {
                    Val::A(x) => x[i].clone(),
                    _ => panic!("extractelement"),
                };
                self.set(st, dest, r);
                self.next(st);
            }
            Ins::InsertElement(a, x, i) => {
                let v = self.opd(st, &a.v, &a.ty);
                let x = self.opd(st, &x.v, &x.ty);
                let i = self.te(st, i);
                let i = self.concretize(st, i)? as u32;
                let v = insert(&v, &x, &[i]);
                self.set(st, dest, v);
                self.next(st);
            }
            Ins::Shuffle(a, b, mask) => {
                let x = self.opd(st, &a.v, &a.ty);
                let y = self.opd(st, &b.v, &b.ty);
                let (x, y) = match (&x, &y) {
                    (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                    _ => panic!("shuffle"),
                };
                let v = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            x[0].clone()
                        } else if (*m as usize) < x.len() {
                            x[*m as usize].clone()
                        } else {
                            y[*m as usize - x.len()].clone()
                        }
                    })
                    .collect();
                self.set(st, dest, Val::A(Rc::new(v)));
                self.next(st);
            }
            Ins::AtomicRmw(op, p, v) => {
                let p = self.oe(st, p, &Ty::Ptr);
                let x = self.te(st, v);
                let n = store_size(&v.ty);
                let b = self.load_bytes(st, p, n)?;
                let old = self.from_bytes(&b, &v.ty);
                let o = self.e(&old);
                let nv = match op.as_str() {
                    "xchg" => x,
                    "add" => self.p.add(o, x),
                    "sub" => self.p.sub(o, x),
                    "and" => self.p.and(o, x),
                    "or" => self.p.or(o, x),
                    "xor" => self.p.xor(o, x),
                    _ => return Err(Stop::Unsupported(format!("atomicrmw {op}"))),
                };
                let mut out = vec![0; n as usize];
                self.to_bytes(&Val::E(nv), &v.ty, &mut out, 0);
                self.store_bytes(st, p, &out)?;
                self.set(st, dest, old);
                self.next(st);
            }
            Ins::CmpXchg(p, c, nv) => {
                let p = self.oe(st, p, &Ty::Ptr);
                let ce = self.te(st, c);
                let ne = self.te(st, nv);
                let n = store_size(&c.ty);
                let b = self.load_bytes(st, p, n)?;
                let old = self.from_bytes(&b, &c.ty);
                let o = self.e(&old);
                let eq = self.p.eq(o, ce);
                let w = self.p.ite(eq, ne, o);
                let mut out = vec![0; n as usize];
                self.to_bytes(&Val::E(w), &c.ty, &mut out, 0);
                self.store_bytes(st, p, &out)?;
                self.set(st, dest, Val::A(Rc::new(vec![old, Val::E(eq)])));
                self.next(st);
            }
            Ins::Fence => self.next(st),
            Ins::Br(b) => self.jump(st, *b),
            Ins::CondBr(c, a, b) => {
                let c = self.oe(st, c, &Ty::Int(1));
                match self.decide(st, c)? {
                    Dec::True => self.jump(st, *a),
                    Dec::False => self.jump(st, *b),
                    Dec::Both(v, m) => {
                        let nc = self.p.not(c);
                        let mut o = st.clone();
                        let (mine, theirs, mc, oc) = if v { (*a, *b, c, nc) } else { (*b, *a, nc, c) };
                        self.assume(&mut o, oc);
                        o.model = m;
                        self.jump(&mut o, theirs);
                        self.push(o);
                        self.assume(st, mc);
                        self.jump(st, mine);
                    }
                }
            }
            Ins::Switch(v, d, cases) => {
                let e = self.te(st, v);
                if let Some(x) = self.p.cv(e) {
                    let t = cases.iter().find(|(k, _)| *k == x).map(|(_, b)| *b).unwrap_or(*d);
                    self.jump(st, t);
                    return Ok(());
                }
                // group by target
                let w = self.p.w(e);
                let mut groups: Vec<(u32, E)> = vec![];
                let mut none = self.p.t();
                for (k, b) in cases {
                    let kc = self.p.c(w, *k);
                    let q = self.p.eq(e, kc);
                    let nq = self.p.not(q);
                    none = self.p.and(none, nq);
                    match groups.iter_mut().find(|(t, _)| t == b) {
                        Some(g) => g.1 = self.p.or(g.1, q),
                        None => groups.push((*b, q)),
                    }
                }
                match groups.iter_mut().find(|(t, _)| t == d) {
                    Some(g) => g.1 = self.p.or(g.1, none),
                    None => groups.push((*d, none)),
                }
                let mut mine = None;
                for (t, q) in groups {
                    if st.model.eval(&self.p, q) == 1 {
                        mine = Some((t, q));
                        continue;
                    }
                    match self.decide(st, q)? {
                        Dec::False => {}
                        Dec::True => return Err(Stop::Unsupported("switch: model disagrees".into())),
                        Dec::Both(_, m) => {
                            let mut o = st.clone();
                            self.assume(&mut o, q);
                            o.model = m;
                            self.jump(&mut o, t);
                            self.push(o);
                        }
                    }
                }
                let (t, q) = mine.expect("switch target");
                self.assume(st, q);
                self.jump(st, t);
            }
            Ins::Ret(v) => {
                let r = match v {
                    Some(v) => Some(self.opd(st, &v.v, &v.ty)),
                    None => None,
                };
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas {
                    let o = self.obj_mut(st, a);
                    o.alive = false;
                    o.bytes = vec![];
                }
                if st.frames.is_empty() {
                    return Err(Stop::End);
                }
                if let Some(r) = r {
                    self.set(st, fr.dest, r);
                }
                match fr.normal {
                    Some(b) => self.jump(st, b),
                    None => self.next(st),
                }
            }
            Ins::Unreachable => {
                return Err(Stop::Violation {
                    kind: "unreachable".into(),
                    id: "unreachable".into(),
                    msg: format!("unreachable code executed in {}", self.where_(st)),
                })
            }
            Ins::Call { ret, callee, args, normal } => {
                let c = match callee {
                    Opd::Const(Const::Global(n)) => self.callee(n),
                    o => {
                        let e = self.oe(st, o, &Ty::Ptr);
                        let a = self.concretize(st, e)? as u64;
                        if a < FN_BASE || a >= GLOB_BASE {
                            return Err(self.memerr(st, "call through a non-function pointer"));
                        }
                        let id = ((a - FN_BASE) >> 32) as usize - 1;
                        let n = self.fn_names[id].clone();
                        self.callee(&n)
                    }
                };
                match c {
                    Callee::Func(f) => {
                        if st.frames.len() > self.lim.max_frames + 10 {
                            return Err(Stop::Unsupported(format!("recursion depth in {}", self.where_(st))));
                        }
                        let a = args.iter().map(|x| self.opd(st, &x.v, &x.ty)).collect();
                        self.enter(st, f, a, dest, *normal);
                    }
                    Callee::Panic(n) => {
                        let a: Vec<Val> = args.iter().map(|x| self.opd(st, &x.v, &x.ty)).collect();
                        let (loc, msg) = self.panic_info(st, &n, &a);
                        return Err(Stop::Violation {
                            kind: "panic".into(),
                            id: format!("panic:{loc}"),
                            msg: format!("{msg} at {loc}; {}", self.where_(st)),
                        });
                    }
                    Callee::Builtin(n) => {
                        let a: Vec<Val> = args.iter().map(|x| self.opd(st, &x.v, &x.ty)).collect();
                        let r = self.builtin(st, &n, &a, ret)?;
                        if let Some(r) = r {
                            self.set(st, dest, r);
                        }
                        match normal {
                            Some(b) => self.jump(st, *b),
                            None => self.next(st),
                        }
                    }
                }
            }
            Ins::LandingPad | Ins::Resume => return Err(Stop::Unsupported("unwinding".into())),
            Ins::Float(op, ty, a) => {
                let v: Vec<Option<u128>> = a
                    .iter()
                    .map(|x| {
                        let x = self.opd(st, x, ty);
                        match x {
                            Val::E(e) => self.p.cv(e),
                            _ => None,
                        }
                    })
                    .collect();
                let w = ty.bits();
                let r = match (v[0], v.get(1).copied().unwrap_or(Some(0))) {
                    (Some(a), Some(b)) => float_op(op, a, b, w),
                    _ => None,
                };
                match r {
                    Some(v) => {
                        let v = Val::E(self.p.c(if op.starts_with('c') { 1 } else { w }, v));
                        self.set(st, dest, v);
                        self.next(st);
                    }
                    None => return Err(Stop::Unsupported(format!("floating point {op} on a symbolic value"))),
                }
            }
            Ins::Unsupported(s) => return Err(Stop::Unsupported(format!("instruction {s}"))),
        }
        Ok(())
    }

    fn peek(&mut self, st: &State, addr: u64, n: u64) -> Option<Vec<u8>> {
        let (id, base) = self.find(st, addr)?;
        let off = addr.wrapping_sub(base);
        let o = self.obj(st, id);
        if off + n > o.bytes.len() as u64 {
            return None;
        }
        let b = &o.bytes[off as usize..(off + n) as usize];
        if b.iter().all(|x| *x < 256) {
            Some(b.iter().map(|x| *x as u8).collect())
        } else {
            None
        }
    }
    fn panic_info(&mut self, st: &State, name: &str, args: &[Val]) -> (String, String) {
        let mut loc = String::from("?");
        let mut msg = demangle(name);
        for a in args.iter().rev() {
            if let Val::E(e) = a {
                if let Some(p) = self.p.cv(*e) {
                    if let Some(b) = self.peek(st, p as u64, 24) {
                        let ptr = u64::from_le_bytes(b[0..8].try_into().unwrap());
                        let len = u64::from_le_bytes(b[8..16].try_into().unwrap());
                        let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                        if len > 3 && len < 400 && line > 0 && line < 100_000 {
                            // the length may count a trailing NUL
                            if let Some(s) = self.peek(st, ptr, len) {
                                let s = String::from_utf8_lossy(&s).trim_end_matches('\0').to_string();
                                if s.contains(".rs") {
                                    loc = format!("{s}:{line}");
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
        if args.len() >= 2 {
            if let (Val::E(p), Val::E(l)) = (&args[0], &args[1]) {
                if let (Some(p), Some(l)) = (self.p.cv(*p), self.p.cv(*l)) {
                    if l < 300 {
                        if let Some(s) = self.peek(st, p as u64, l as u64) {
                            if s.iter().all(|c| *c >= 32 && *c < 127) && !s.is_empty() {
                                msg = format!("{msg}: {}", String::from_utf8_lossy(&s));
                            }
                        }
                    }
                }
            }
        }
        (loc, msg)
    }

    fn fresh(&mut self, st: &mut State, n: usize) -> Vec<E> {
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            let id = st.nvars;
            st.nvars += 1;
            while self.p.nvars <= id {
                self.p.var();
            }
            v.push(self.p.var_node(id));
        }
        v
    }
    fn alloc(&mut self, st: &mut State, size: E) -> R<Val> {
        let lim = self.p.c(64, HUGE as u128 + 1);
        let ok = self.p.ult(size, lim);
        match self.decide(st, ok)? {
            Dec::True => {}
            Dec::False => {
                return Err(Stop::Violation {
                    kind: "alloc".into(),
                    id: "huge-allocation".into(),
                    msg: format!("allocation of more than 64 MiB in {}", self.where_(st)),
                })
            }
            Dec::Both(cur, m) => {
                let (model, c) = if cur { (m, ok) } else { (st.model.clone(), ok) };
                let mut o = st.clone();
                let nok = self.p.not(ok);
                self.assume(&mut o, nok);
                let _ = c;
                o.model = model.clone();
                let msg = format!("allocation of more than 64 MiB in {}", self.where_(st));
                self.violate(&o, &model, "alloc".into(), "huge-allocation".into(), msg);
                if !cur {
                    // continue with the other model: the small allocation
                    if let Dec::Both(_, m2) = self.decide(st, ok)? {
                        st.model = m2;
                    }
                }
                self.assume(st, ok);
            }
        }
        let n = self.concretize(st, size)? as u64;
        let a = self.new_obj(st, vec![0; n as usize]);
        Ok(Val::E(self.p.c(64, a as u128)))
    }
    fn cstr(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let l = self.concretize(st, self.e(n))? as u64;
        let b = self.load_bytes(st, self.e(p), l)?;
        Ok(b.iter().map(|x| if *x < 256 { *x as u8 as char } else { '?' }).collect())
    }
    fn bytes_eq(&mut self, x: &[E], y: &[E]) -> E {
        let mut c = vec![];
        for i in 0..x.len() {
            if x[i] != y[i] {
                let q = self.p.eq(x[i], y[i]);
                if self.p.cv(q) == Some(0) {
                    return q;
                }
                c.push(q);
            }
        }
        self.p.conj(&c)
    }

    fn builtin(&mut self, st: &mut State, name: &Rc<str>, a: &[Val], ret: &Ty) -> R<Option<Val>> {
        let n: &str = name;
        if let Some(r) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, r, a, ret);
        }
        match n {
            "vsym_bytes" => {
                let l = self.concretize(st, self.e(&a[1]))? as usize;
                let v = self.fresh(st, l);
                st.inputs.extend_from_slice(&v);
                self.store_bytes(st, self.e(&a[0]), &v)?;
                Ok(None)
            }
            "vsym_assume" => {
                let c = self.e(&a[0]);
                match self.decide(st, c)? {
                    Dec::True => {}
                    Dec::False => return Err(Stop::Infeasible),
                    Dec::Both(cur, m) => {
                        if !cur {
                            st.model = m;
                        }
                        self.assume(st, c);
                    }
                }
                Ok(None)
            }
            "vsym_check" => {
                let c = self.e(&a[0]);
                let id = self.cstr(st, &a[1], &a[2])?;
                let ent = self.rep.checks.entry(id.clone()).or_default();
                if self.p.cv(c) == Some(1) {
                    ent.0 += 1;
                    return Ok(None);
                }
                ent.1 += 1;
                let nc = self.p.not(c);
                match self.query(st, nc)? {
                    None => {}
                    Some(m) => {
                        let msg = format!("check '{id}' fails");
                        self.violate(st, &m, "check".into(), id, msg);
                        // continue on the side where it holds, if any
                        match self.query(st, c)? {
                            None => return Err(Stop::Infeasible),
                            Some(m) => {
                                st.model = m;
                                self.assume(st, c);
                            }
                        }
                    }
                }
                Ok(None)
            }
            "vsym_reach" => {
                let id = self.cstr(st, &a[0], &a[1])?;
                st.reached.push(id);
                Ok(None)
            }
            "vsym_observe" => {
                let l = self.concretize(st, self.e(&a[1]))? as u64;
                let b = self.load_bytes(st, self.e(&a[0]), l)?;
                st.obs.push(Rc::new(b));
                Ok(None)
            }
            "vsym_concretize" => {
                let e = self.e(&a[0]);
                let v = self.concretize(st, e)?;
                if st.nchoose == 0 {
                    if let Some((i, n)) = self.lim.case {
                        if v as u64 % n != i {
                            return Err(Stop::Infeasible);
                        }
                    }
                }
                st.nchoose += 1;
                Ok(Some(Val::E(self.p.c(64, v))))
            }
            "vsym_tier" => Ok(Some(Val::E(self.p.c(32, u128::from(self.lim.tier))))),
            "vsym_eq" => {
                let l = self.concretize(st, self.e(&a[2]))? as u64;
                let x = self.load_bytes(st, self.e(&a[0]), l)?;
                let y = self.load_bytes(st, self.e(&a[1]), l)?;
                let r = self.bytes_eq(&x, &y);
                Ok(Some(Val::E(r)))
            }
            "vsym_uf" => {
                let alg = self.concretize(st, self.e(&a[0]))? as u32;
                let il = self.concretize(st, self.e(&a[2]))? as u64;
                let ol = self.concretize(st, self.e(&a[4]))? as usize;
                let inp = self.load_bytes(st, self.e(&a[1]), il)?;
                if let Some(r) =
                    st.ufs.iter().find(|r| r.alg == alg && r.out.len() == ol && *r.inp == inp).cloned()
                {
                    st.ufout.extend_from_slice(&r.out);
                    self.store_bytes(st, self.e(&a[3]), &r.out)?;
                    return Ok(None);
                }
                let out = self.fresh(st, ol);
                let rel: Vec<UfRec> = st
                    .ufs
                    .iter()
                    .filter(|r| r.alg == alg && r.out.len() == ol && r.inp.len() == inp.len())
                    .cloned()
                    .collect();
                // extend the model consistently: an equal input gets the equal output,
                // otherwise a value that depends on the input
                let iv: Vec<u8> = inp.iter().map(|e| st.model.eval(&self.p, *e) as u8).collect();
                let mut vals = st.model.vals.clone();
                let mut same = None;
                for r in &rel {
                    if r.inp.iter().zip(&iv).all(|(e, v)| st.model.eval(&self.p, *e) as u8 == *v) {
                        same = Some(r.clone());
                        break;
                    }
                }
                let mut h: u64 = 0xcbf29ce484222325 ^ alg as u64;
                for x in &iv {
                    h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
                }
                for (i, o) in out.iter().enumerate() {
                    let v = match &same {
                        Some(r) => st.model.eval(&self.p, r.out[i]) as u8,
                        None => {
                            h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            (h >> 33) as u8
                        }
                    };
                    let id = self.p.nodes[*o as usize].aux;
                    vals.insert(id, v);
                }
                st.model = Rc::new(Model::new(vals));
                for r in &rel {
                    let ie = self.bytes_eq(&r.inp, &inp);
                    if self.p.cv(ie) == Some(0) {
                        continue;
                    }
                    let oe = self.bytes_eq(&r.out, &out);
                    let ni = self.p.not(ie);
                    let ax = self.p.or(ni, oe);
                    self.assume(st, ax);
                }
                st.ufout.extend_from_slice(&out);
                self.store_bytes(st, self.e(&a[3]), &out)?;
                st.ufs.push(UfRec { alg, inp: Rc::new(inp), out: Rc::new(out) });
                Ok(None)
            }
            "malloc" => Ok(Some(self.alloc(st, self.e(&a[0]))?)),
            "calloc" => {
                let s = self.p.mul(self.e(&a[0]), self.e(&a[1]));
                Ok(Some(self.alloc(st, s)?))
            }
            "posix_memalign" => {
                let v = self.alloc(st, self.e(&a[2]))?;
                let mut b = vec![0; 8];
                self.to_bytes(&v, &Ty::Ptr, &mut b, 0);
                self.store_bytes(st, self.e(&a[0]), &b)?;
                Ok(Some(Val::E(self.p.c(32, 0))))
            }
            "aligned_alloc" | "memalign" => Ok(Some(self.alloc(st, self.e(&a[1]))?)),
            "realloc" => {
                let p = self.concretize(st, self.e(&a[0]))? as u64;
                let n = self.concretize_size(st, self.e(&a[1]))?;
                let mut bytes = vec![0; n as usize];
                if p != 0 {
                    let (id, _) = self.heap_obj(st, p)?;
                    let old = self.obj(st, id).bytes.clone();
                    let k = old.len().min(bytes.len());
                    bytes[..k].copy_from_slice(&old[..k]);
                    let o = self.obj_mut(st, id);
                    o.alive = false;
                    o.bytes = vec![];
                }
                let q = self.new_obj(st, bytes);
                Ok(Some(Val::E(self.p.c(64, q as u128))))
            }
            "free" => {
                let p = self.concretize(st, self.e(&a[0]))? as u64;
                if p != 0 {
                    let (id, _) = self.heap_obj(st, p)?;
                    let o = self.obj_mut(st, id);
                    o.alive = false;
                    o.bytes = vec![];
                }
                Ok(None)
            }
            "bcmp" | "memcmp" => {
                let l = self.concretize(st, self.e(&a[2]))? as u64;
                let x = self.load_bytes(st, self.e(&a[0]), l)?;
                let y = self.load_bytes(st, self.e(&a[1]), l)?;
                let z = self.p.c(32, 0);
                let one = self.p.c(32, 1);
                if n == "bcmp" {
                    let q = self.bytes_eq(&x, &y);
                    return Ok(Some(Val::E(self.p.ite(q, z, one))));
                }
                let m1 = self.p.c(32, u32::MAX as u128);
                let mut r = z;
                for i in (0..x.len()).rev() {
                    if x[i] == y[i] {
                        continue;
                    }
                    let q = self.p.eq(x[i], y[i]);
                    let lt = self.p.ult(x[i], y[i]);
                    let s = self.p.ite(lt, m1, one);
                    r = self.p.ite(q, r, s);
                }
                Ok(Some(Val::E(r)))
            }
            "memcpy" | "memmove" => {
                let l = self.concretize(st, self.e(&a[2]))? as u64;
                let b = self.load_bytes(st, self.e(&a[1]), l)?;
                self.store_bytes(st, self.e(&a[0]), &b)?;
                Ok(Some(a[0].clone()))
            }
            "strlen" => {
                let p = self.concretize(st, self.e(&a[0]))? as u64;
                let mut k = 0u64;
                loop {
                    let q = self.p.c(64, (p + k) as u128);
                    let b = self.load_bytes(st, q, 1)?;
                    let v = self.concretize(st, b[0])?;
                    if v == 0 {
                        break;
                    }
                    k += 1;
                }
                Ok(Some(Val::E(self.p.c(64, k as u128))))
            }
            "memchr" => {
                let l = self.concretize(st, self.e(&a[2]))? as u64;
                let p = self.concretize(st, self.e(&a[0]))? as u64;
                let ch = self.p.trunc(self.e(&a[1]), 8);
                let b = self.load_bytes(st, self.e(&a[0]), l)?;
                let mut r = self.p.c(64, 0);
                for i in (0..b.len()).rev() {
                    let q = self.p.eq(b[i], ch);
                    let pa = self.p.c(64, (p + i as u64) as u128);
                    r = self.p.ite(q, pa, r);
                }
                Ok(Some(Val::E(r)))
            }
            "__hash_one" => Ok(Some(Val::E(self.p.c(64, 0x5bd1e995_12345678)))),
            "syscall" => {
                // getrandom(buf, len, flags): fixed bytes
                let nr = self.concretize(st, self.e(&a[0]))? as u64;
                if nr == 318 {
                    let l = self.concretize(st, self.e(&a[2]))? as u64;
                    let b = vec![7u32; l as usize];
                    self.store_bytes(st, self.e(&a[1]), &b)?;
                    return Ok(Some(Val::E(self.p.c(64, l as u128))));
                }
                Err(Stop::Unsupported(format!("syscall {nr}")))
            }
            "getrandom" => {
                let l = self.concretize(st, self.e(&a[1]))? as u64;
                let b = vec![7u32; l as usize];
                self.store_bytes(st, self.e(&a[0]), &b)?;
                Ok(Some(Val::E(self.p.c(64, l as u128))))
            }
            _ => Err(Stop::Unsupported(format!("external function {n} in {}", self.where_(st)))),
        }
    }
    fn concretize_size(&mut self, st: &mut State, e: E) -> R<u64> {
        if self.p.cv(e).is_none() || self.p.cv(e).unwrap() > HUGE as u128 {
            // same treatment as alloc
            let v = self.alloc(st, e)?;
            let id = (self.p.cv(self.e(&v)).unwrap() >> 32) as u32;
            let n = self.obj(st, id).bytes.len() as u64;
            return Ok(n);
        }
        Ok(self.p.cv(e).unwrap() as u64)
    }
    fn heap_obj(&mut self, st: &State, p: u64) -> R<(u32, u64)> {
        match self.find(st, p) {
            Some((id, base)) if base == p && id < (1 << 31) => {
                if !self.obj(st, id).alive {
                    return Err(self.memerr(st, "double-free"));
                }
                Ok((id, base))
            }
            _ => Err(self.memerr(st, "invalid-free")),
        }
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, a: &[Val], ret: &Ty) -> R<Option<Val>> {
        let key: Vec<&str> = n.split('.').collect();
        match key[0] {
            "lifetime" | "assume" | "dbg" | "prefetch" | "donothing" | "va_start" | "va_end" => return Ok(None),
            "experimental" if n.starts_with("experimental.noalias") => return Ok(None),
            "x86" if n.starts_with("x86.sse2.pause") => return Ok(None),
            "trap" | "debugtrap" | "ubsantrap" => {
                return Err(Stop::Violation {
                    kind: "panic".into(),
                    id: "trap".into(),
                    msg: format!("trap in {}", self.where_(st)),
                })
            }
            "threadlocal" => return Ok(Some(a[0].clone())),
            "is" => {
                let z = self.p.f();
                return Ok(Some(Val::E(z)));
            }
            "expect" => return Ok(Some(a[0].clone())),
            "fabs" if matches!(ret, Ty::Float(_)) => {
                let e = self.e(&a[0]);
                let w = self.p.w(e);
                let m = self.p.c(w, crate::expr::mask(w - 1));
                return Ok(Some(Val::E(self.p.and(e, m))));
            }
            "memcpy" | "memmove" => {
                let l = self.concretize(st, self.e(&a[2]))? as u64;
                let b = self.load_bytes(st, self.e(&a[1]), l)?;
                self.store_bytes(st, self.e(&a[0]), &b)?;
                return Ok(None);
            }
            "memset" => {
                let l = self.concretize(st, self.e(&a[2]))? as u64;
                let b = vec![self.e(&a[1]); l as usize];
                self.store_bytes(st, self.e(&a[0]), &b)?;
                return Ok(None);
            }
            "load" => {
                // load.relative
                let p = self.e(&a[0]);
                let o = self.sx64(self.e(&a[1]));
                let q = self.p.add(p, o);
                let b = self.load_bytes(st, q, 4)?;
                let v = self.from_bytes(&b, &Ty::Int(32));
                let d = self.p.sext(self.e(&v), 64);
                return Ok(Some(Val::E(self.p.add(p, d))));
            }
            "vector" => {
                // vector.reduce.op
                let v = match &a[a.len() - 1] {
                    Val::A(v) => v.clone(),
                    _ => panic!(),
                };
                let mut r = self.e(&v[0]);
                for x in v.iter().skip(1) {
                    let y = self.e(x);
                    r = match key[2] {
                        "add" => self.p.add(r, y),
                        "mul" => self.p.mul(r, y),
                        "and" => self.p.and(r, y),
                        "or" => self.p.or(r, y),
                        "xor" => self.p.xor(r, y),
                        "umax" => {
                            let c = self.p.ult(r, y);
                            self.p.ite(c, y, r)
                        }
                        "umin" => {
                            let c = self.p.ult(r, y);
                            self.p.ite(c, r, y)
                        }
                        "smax" => {
                            let c = self.p.slt(r, y);
                            self.p.ite(c, y, r)
                        }
                        "smin" => {
                            let c = self.p.slt(r, y);
                            self.p.ite(c, r, y)
                        }
                        _ => return Err(Stop::Unsupported(format!("intrinsic {n}"))),
                    };
                }
                return Ok(Some(Val::E(r)));
            }
            _ => {}
        }
        // elementwise over vectors
        if let Ty::Vector(k, t) = ret {
            let mut out = vec![];
            for i in 0..*k as usize {
                let ai: Vec<Val> = a
                    .iter()
                    .map(|v| match v {
                        Val::A(x) => x[i].clone(),
                        v => v.clone(),
                    })
                    .collect();
                match self.scalar(n, &ai, t)? {
                    Some(v) => out.push(v),
                    None => return Err(Stop::Unsupported(format!("intrinsic {n}"))),
                }
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        match self.scalar(n, a, ret)? {
            Some(v) => Ok(Some(v)),
            None => Err(Stop::Unsupported(format!("intrinsic {n}"))),
        }
    }
    fn scalar(&mut self, n: &str, a: &[Val], ret: &Ty) -> R<Option<Val>> {
        let key: Vec<&str> = n.split('.').collect();
        if a.is_empty() {
            return Ok(None);
        }
        let x = match &a[0] {
            Val::E(e) => *e,
            _ => return Ok(None),
        };
        let w = self.p.w(x);
        let y = if a.len() > 1 {
            match &a[1] {
                Val::E(e) => *e,
                _ => return Ok(None),
            }
        } else {
            x
        };
        let p = &mut self.p;
        let r = match (key[0], key.get(1).copied().unwrap_or("")) {
            ("umax", _) => {
                let c = p.ult(x, y);
                p.ite(c, y, x)
            }
            ("umin", _) => {
                let c = p.ult(x, y);
                p.ite(c, x, y)
            }
            ("smax", _) => {
                let c = p.slt(x, y);
                p.ite(c, y, x)
            }
            ("smin", _) => {
                let c = p.slt(x, y);
                p.ite(c, x, y)
            }
            ("abs", _) => {
                let z = p.c(w, 0);
                let c = p.slt(x, z);
                let n = p.neg(x);
                p.ite(c, n, x)
            }
            ("usub", "sat") => {
                let c = p.ult(x, y);
                let d = p.sub(x, y);
                let z = p.c(w, 0);
                p.ite(c, z, d)
            }
            ("uadd", "sat") => {
                let s = p.add(x, y);
                let c = p.ult(s, x);
                let m = p.c(w, mask(w));
                p.ite(c, m, s)
            }
            ("ucmp", _) | ("scmp", _) => {
                let rw = ret.bits();
                let (lt, gt) = if key[0] == "ucmp" { (p.ult(x, y), p.ult(y, x)) } else { (p.slt(x, y), p.slt(y, x)) };
                let m1 = p.c(rw, mask(rw));
                let z = p.c(rw, 0);
                let one = p.c(rw, 1);
                let t = p.ite(gt, one, z);
                p.ite(lt, m1, t)
            }
            ("bswap", _) => {
                let parts: Vec<E> = (0..w / 8).map(|i| p.ext(x, 8 * i, 8)).collect();
                p.cat(&parts)
            }
            ("bitreverse", _) => {
                let parts: Vec<E> = (0..w).map(|i| p.ext(x, i, 1)).collect();
                p.cat(&parts)
            }
            ("ctpop", _) => {
                let mut s = p.c(w, 0);
                for i in 0..w {
                    let b = p.ext(x, i, 1);
                    let b = if w > 1 { p.zext(b, w) } else { b };
                    s = p.add(s, b);
                }
                s
            }
            ("ctlz", _) | ("cttz", _) => {
                let mut r = p.c(w, w as u128);
                for k in 0..w {
                    // highest priority last
                    let i = if key[0] == "ctlz" { k } else { w - 1 - k };
                    let b = p.ext(x, i, 1);
                    let v = if key[0] == "ctlz" { w - 1 - i } else { i };
                    let c = p.c(w, v as u128);
                    r = p.ite(b, c, r);
                }
                r
            }
            ("fshl", _) | ("fshr", _) => {
                let z = match &a[2] {
                    Val::E(e) => *e,
                    _ => return Ok(None),
                };
                let wc = p.c(w, w as u128);
                let s = p.urem(z, wc);
                if key[0] == "fshl" {
                    let hi = p.shl(x, s);
                    let inv = p.sub(wc, s);
                    let lo = p.lshr(y, inv);
                    p.or(hi, lo)
                } else {
                    let lo = p.lshr(y, s);
                    let inv = p.sub(wc, s);
                    let hi = p.shl(x, inv);
                    p.or(hi, lo)
                }
            }
            (o @ ("uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul"), "with") => {
                let (v, ov) = match o {
                    "uadd" => {
                        let s = p.add(x, y);
                        let (rx, ry) = (p.ranges[x as usize].1, p.ranges[y as usize].1);
                        let o = match rx.checked_add(ry) {
                            Some(h) if h <= mask(w) => p.f(),
                            _ => p.ult(s, x),
                        };
                        (s, o)
                    }
                    "usub" => {
                        let s = p.sub(x, y);
                        (s, p.ult(x, y))
                    }
                    "umul" => {
                        let s = p.mul(x, y);
                        let (rx, ry) = (p.ranges[x as usize].1, p.ranges[y as usize].1);
                        let o = match rx.checked_mul(ry) {
                            Some(h) if h <= mask(w) => p.f(),
                            _ if w <= 64 => {
                                let (xe, ye) = (p.zext(x, 2 * w), p.zext(y, 2 * w));
                                let f = p.mul(xe, ye);
                                let h = p.ext(f, w, w);
                                let z = p.c(w, 0);
                                p.ne(h, z)
                            }
                            _ => {
                                let z = p.c(w, 0);
                                let nz = p.ne(x, z);
                                let q = p.udiv(s, x);
                                let d = p.ne(q, y);
                                p.and(nz, d)
                            }
                        };
                        (s, o)
                    }
                    "sadd" | "ssub" => {
                        let s = if o == "sadd" { p.add(x, y) } else { p.sub(x, y) };
                        let sx = p.ext(x, w - 1, 1);
                        let sy = p.ext(y, w - 1, 1);
                        let ss = p.ext(s, w - 1, 1);
                        let same = if o == "sadd" { p.eq(sx, sy) } else { p.ne(sx, sy) };
                        let diff = p.ne(sx, ss);
                        (s, p.and(same, diff))
                    }
                    _ => {
                        if w > 64 {
                            return Ok(None);
                        }
                        let s = p.mul(x, y);
                        let (xe, ye) = (p.sext(x, 2 * w), p.sext(y, 2 * w));
                        let f = p.mul(xe, ye);
                        let se = p.sext(s, 2 * w);
                        (s, p.ne(f, se))
                    }
                };
                return Ok(Some(Val::A(Rc::new(vec![Val::E(v), Val::E(ov)]))));
            }
            _ => return Ok(None),
        };
        Ok(Some(Val::E(r)))
    }
}

fn insert(v: &Val, x: &Val, idx: &[u32]) -> Val {
    if idx.is_empty() {
        return x.clone();
    }
    match v {
        Val::A(a) => {
            let mut b = (**a).clone();
            b[idx[0] as usize] = insert(&b[idx[0] as usize], x, &idx[1..]);
            Val::A(Rc::new(b))
        }
        _ => panic!("insertvalue"),
    }
}
fn store_size(ty: &Ty) -> u64 {
    match ty {
        Ty::Int(w) => ((*w as u64) + 7) / 8,
        t => t.size(),
    }
}
fn is_panic(n: &str) -> bool {
    if n.contains("panic_count") {
        return false;
    }
    if n.contains("4core9panicking") || n.contains("3std9panicking") {
        return !n.contains("drop_glue") && !n.contains("NCNv");
    }
    n.contains("17capacity_overflow")
        || n.contains("raw_vec12handle_error")
        || n.contains("18handle_alloc_error")
        || n.contains("17rust_begin_unwind")
        || n.contains("13unwrap_failed")
        || n.contains("13expect_failed")
        || n.contains("16slice_index_fail")
        || n.contains("16slice_error_fail")
        || n.contains("17len_mismatch_fail")
        || n.contains("20panic_already_borrowed")
        || n == "abort"
        || n.contains("3std7process5abort")
        || n.contains("12___rust_abort")
}
/// functions replaced by branch-free equivalents written in the harness crate
fn redirect(n: &str) -> Option<&'static str> {
    if n.contains("4core3fmt3numhNt") && n.contains("8LowerHex3fmt") {
        return Some("vmodel_lower_hex_u8");
    }
    if n.contains("4core3fmtRhNt") && n.contains("8LowerHex3fmt") {
        return Some("vmodel_lower_hex_ref_u8");
    }
    // `{:?}` of a byte slice or array: only ever part of an error message
    if n.contains("Debug3fmt") {
        if let Some(i) = n.find("4core3fmt") {
            let t = n[i + 9..].trim_start_matches(|c| c == 'R' || c == 'Q');
            if t.starts_with("ShNt") || t.starts_with("Ahj") {
                return Some("vmodel_debug_bytes");
            }
        }
    }
    None
}
pub fn demangle(n: &str) -> String {
    // keep the identifiers of a v0 mangled name
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut out = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b's' {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                k = k * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if b.get(j) == Some(&b'_') {
                j += 1;
            }
            if j + k <= b.len() && k < 200 {
                out.push(n[j..j + k].to_string());
                i = j + k;
                continue;
            }
        }
        i += 1;
    }
    out.join("::")
}

/// Floating point on concrete values only.
fn float_op(op: &str, a: u128, b: u128, w: u32) -> Option<u128> {
    if w != 32 && w != 64 {
        return None;
    }
    let get = |x: u128| if w == 32 { f64::from(f32::from_bits(x as u32)) } else { f64::from_bits(x as u64) };
    let (x, y) = (get(a), get(b));
    if let Some(p) = op.strip_prefix('c') {
        let un = x.is_nan() || y.is_nan();
        let r = match p {
            "oeq" => x == y,
            "one" => !un && x != y,
            "olt" => x < y,
            "ole" => x <= y,
            "ogt" => x > y,
            "oge" => x >= y,
            "ueq" => un || x == y,
            "une" => x != y,
            "ult" => un || x < y,
            "ule" => un || x <= y,
            "ugt" => un || x > y,
            "uge" => un || x >= y,
            "ord" => !un,
            "uno" => un,
            "true" => true,
            "false" => false,
            _ => return None,
        };
        return Some(u128::from(r));
    }
    if op == "fneg" {
        return Some(a ^ (1 << (w - 1)));
    }
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op {
            "fadd" => x + y,
            "fsub" => x - y,
            "fmul" => x * y,
            "fdiv" => x / y,
            "frem" => x % y,
            _ => return None,
        };
        return Some(u128::from(r.to_bits()));
    }
    let r = match op {
        "fadd" => x + y,
        "fsub" => x - y,
        "fmul" => x * y,
        "fdiv" => x / y,
        "frem" => x % y,
        _ => return None,
    };
    Some(u128::from(r.to_bits()))
}
fn float_cast(op: CastOp, v: u128, from: u32, to: u32) -> Option<u128> {
    let get = |x: u128, w: u32| match w {
        32 => Some(f64::from(f32::from_bits(x as u32))),
        64 => Some(f64::from_bits(x as u64)),
        _ => None,
    };
    let m = |w: u32| if w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
    Some(match op {
        CastOp::FpToUi => (get(v, from)? as u128) & m(to),
        CastOp::FpToSi => (get(v, from)? as i128 as u128) & m(to),
        CastOp::UiToFp | CastOp::SiToFp => {
            let i = if op == CastOp::SiToFp { crate::expr::sext(v, from) } else { v as i128 };
            match to {
                64 => u128::from(if op == CastOp::SiToFp { i as f64 } else { v as f64 }.to_bits()),
                32 => u128::from(if op == CastOp::SiToFp { i as f32 } else { v as f32 }.to_bits()),
                _ => return None,
            }
        }
        CastOp::FpTrunc if from == 64 && to == 32 => u128::from((get(v, 64)? as f32).to_bits()),
        CastOp::FpExt if from == 32 && to == 64 => u128::from(get(v, 32)?.to_bits()),
        _ => return None,
    })
}
