//! Hash-consed bit-vector expression DAG with structural normalisation.
//!
//! Width of every expression is 1..=128.  Booleans are 1-bit vectors.
//! `Cat` (concatenation, most significant part first) together with `Ext`
//! (slice) form the structural normal form: shifts by constants, masks,
//! zero-extensions and disjoint ors all become `Cat`s, so bytes written to and
//! read back from memory recombine into the original expressions.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,   // aux = var id
    Cat,   // args high..low
    Ext,   // aux = lo
    SExt,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Not,
    Shl,
    LShr,
    AShr,
    Ite,
    Eq,
    Ult,
    Slt,
    Table, // aux = table id; arg = index
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub aux: u32,
    pub args: Args,
    pub val: u128,
}

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Args {
    N0,
    N1([E; 1]),
    N2([E; 2]),
    N3([E; 3]),
    Many(Rc<[E]>),
}
impl Args {
    pub fn s(&self) -> &[E] {
        match self {
            Args::N0 => &[],
            Args::N1(a) => a,
            Args::N2(a) => a,
            Args::N3(a) => a,
            Args::Many(a) => a,
        }
    }
    fn from(v: &[E]) -> Self {
        match v.len() {
            0 => Args::N0,
            1 => Args::N1([v[0]]),
            2 => Args::N2([v[0], v[1]]),
            3 => Args::N3([v[0], v[1], v[2]]),
            _ => Args::Many(v.into()),
        }
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: FxMap<Node, E>,
    pub ranges: Vec<(u128, u128)>,
    pub tables: Vec<Rc<Vec<u128>>>,
    table_map: HashMap<Rc<Vec<u128>>, u32>,
    table_inj: Vec<bool>,
    supports: FxMap<E, Rc<Vec<u32>>>,
    pub nvars: u32,
}

pub fn eval_op(n: &Node, a: &[u128], aw: &[u32], tables: &[Rc<Vec<u128>>]) -> u128 {
    let w = n.w as u32;
    let m = mask(w);
    match n.op {
        Op::Const => n.val,
        Op::Var => unreachable!(),
        Op::Cat => {
            let mut r = 0u128;
            for (x, xw) in a.iter().zip(aw) {
                r = if *xw >= 128 { *x } else { (r << xw) | x };
            }
            r
        }
        Op::Ext => (a[0] >> n.aux) & m,
        Op::SExt => (sext(a[0], aw[0]) as u128) & m,
        Op::Add => a[0].wrapping_add(a[1]) & m,
        Op::Sub => a[0].wrapping_sub(a[1]) & m,
        Op::Mul => a[0].wrapping_mul(a[1]) & m,
        Op::UDiv => {
            if a[1] == 0 {
                m
            } else {
                a[0] / a[1]
            }
        }
        Op::URem => {
            if a[1] == 0 {
                a[0]
            } else {
                a[0] % a[1]
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a[0], w), sext(a[1], w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a[0], w), sext(a[1], w));
            if y == 0 {
                a[0]
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a[0] & a[1],
        Op::Or => a[0] | a[1],
        Op::Xor => a[0] ^ a[1],
        Op::Not => !a[0] & m,
        Op::Shl => {
            if a[1] >= w as u128 {
                0
            } else {
                (a[0] << a[1]) & m
            }
        }
        Op::LShr => {
            if a[1] >= w as u128 {
                0
            } else {
                a[0] >> a[1]
            }
        }
        Op::AShr => {
            let s = sext(a[0], w);
            let k = if a[1] >= w as u128 { w - 1 } else { a[1] as u32 };
            ((s >> k) as u128) & m
        }
        Op::Ite => {
            if a[0] == 1 {
                a[1]
            } else {
                a[2]
            }
        }
        Op::Eq => (a[0] == a[1]) as u128,
        Op::Ult => (a[0] < a[1]) as u128,
        Op::Slt => (sext(a[0], aw[0]) < sext(a[1], aw[1])) as u128,
        Op::Table => tables[n.aux as usize][a[0] as usize],
    }
}

const MAX_TABLE_BITS: u32 = 10;

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            nodes: vec![],
            map: FxMap::default(),
            ranges: vec![],
            tables: vec![],
            table_map: HashMap::new(),
            table_inj: vec![],
            supports: FxMap::default(),
            nvars: 0,
        };
        // ids 0..=255 are the byte constants
        for i in 0..256 {
            let e = p.c(8, i);
            assert_eq!(e, i as u32);
        }
        p
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    pub fn op(&self, e: E) -> Op {
        self.nodes[e as usize].op
    }
    pub fn arg(&self, e: E, i: usize) -> E {
        self.nodes[e as usize].args.s()[i]
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.val)
        } else {
            None
        }
    }
    fn raw(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let r = self.range_of(&n);
        if r.0 == r.1 && n.op != Op::Const {
            let c = self.c(n.w as u32, r.0);
            self.map.insert(n, c);
            return c;
        }
        let e = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.ranges.push(r);
        self.map.insert(n, e);
        e
    }
    fn node(&mut self, op: Op, w: u32, aux: u32, args: &[E]) -> E {
        // table lifting: an operation on functions of one small index is again one
        if op != Op::Table && op != Op::Var && args.iter().any(|a| self.op(*a) == Op::Table) {
            if let Some(e) = self.lift(op, w, aux, args) {
                return e;
            }
        }
        self.raw(Node { op, w: w as u8, aux, args: Args::from(args), val: 0 })
    }
    /// If all symbolic args are functions of one small index, return the values.
    fn lift(&mut self, op: Op, w: u32, aux: u32, args: &[E]) -> Option<E> {
        let mut idx: Option<E> = None;
        for &a in args {
            if self.op(a) == Op::Table {
                let i = self.arg(a, 0);
                match idx {
                    None => idx = Some(i),
                    Some(j) if i == j => {}
                    _ => return None,
                }
            }
        }
        let idx = idx?;
        let iw = self.w(idx);
        // every other arg must be const, idx, or Cat of consts and idx
        for &a in args {
            if !self.fn_of(a, idx) {
                return None;
            }
        }
        let n = Node { op, w: w as u8, aux, args: Args::from(args), val: 0 };
        let aw: Vec<u32> = args.iter().map(|a| self.w(*a)).collect();
        let mut vals = Vec::with_capacity(1 << iw);
        for i in 0..(1u128 << iw) {
            let av: Vec<u128> = args.iter().map(|a| self.eval_at(*a, idx, i)).collect();
            vals.push(eval_op(&n, &av, &aw, &self.tables));
        }
        Some(self.table(idx, vals, w))
    }
    fn fn_of(&self, a: E, idx: E) -> bool {
        if a == idx {
            return true;
        }
        match self.op(a) {
            Op::Const => true,
            Op::Table => self.arg(a, 0) == idx,
            Op::Cat | Op::Not | Op::Eq => {
                self.nodes[a as usize].args.s().iter().all(|x| self.fn_of(*x, idx))
            }
            _ => false,
        }
    }
    fn eval_at(&self, a: E, idx: E, v: u128) -> u128 {
        if a == idx {
            return v;
        }
        let n = &self.nodes[a as usize];
        match n.op {
            Op::Const => n.val,
            _ => {
                let s = n.args.s();
                let av: Vec<u128> = s.iter().map(|x| self.eval_at(*x, idx, v)).collect();
                let aw: Vec<u32> = s.iter().map(|x| self.w(*x)).collect();
                eval_op(n, &av, &aw, &self.tables)
            }
        }
    }
    fn range_of(&self, n: &Node) -> (u128, u128) {
        let w = n.w as u32;
        let full = (0, mask(w));
        let r = |i: usize| self.ranges[n.args.s()[i] as usize];
        match n.op {
            Op::Const => (n.val, n.val),
            Op::Cat => {
                let (mut lo, mut hi) = (0u128, 0u128);
                for &a in n.args.s() {
                    let aw = self.w(a);
                    let (l, h) = self.ranges[a as usize];
                    lo = (lo << aw) | l;
                    hi = (hi << aw) | h;
                }
                (lo, hi)
            }
            Op::Table => {
                let t = &self.tables[n.aux as usize];
                let (lo, hi) = r(0);
                let s = &t[lo as usize..=hi as usize];
                (*s.iter().min().unwrap(), *s.iter().max().unwrap())
            }
            Op::Ite => {
                let (a, b) = (r(1), r(2));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Op::Add => {
                let (a, b) = (r(0), r(1));
                match (a.1.checked_add(b.1), w) {
                    (Some(h), _) if h <= mask(w) => (a.0 + b.0, h),
                    _ => {
                        // both ends wrap: e.g. x + (-c) with x >= c
                        if let (Some(l), Some(h)) = (a.0.checked_add(b.0), a.1.checked_add(b.1)) {
                            if w < 128 && l > mask(w) && h > mask(w) {
                                return (l & mask(w), h & mask(w));
                            }
                        }
                        full
                    }
                }
            }
            Op::Sub => {
                let (a, b) = (r(0), r(1));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    full
                }
            }
            Op::Mul => {
                let (a, b) = (r(0), r(1));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= mask(w) => (a.0 * b.0, h),
                    _ => full,
                }
            }
            Op::UDiv => {
                let (a, b) = (r(0), r(1));
                if b.0 > 0 {
                    (a.0 / b.1, a.1 / b.0)
                } else {
                    full
                }
            }
            Op::URem => {
                let (a, b) = (r(0), r(1));
                if b.0 > 0 {
                    if a.1 < b.0 {
                        a
                    } else {
                        (0, a.1.min(b.1 - 1))
                    }
                } else {
                    full
                }
            }
            Op::And => {
                let (a, b) = (r(0), r(1));
                (0, a.1.min(b.1))
            }
            Op::Or => {
                let (a, b) = (r(0), r(1));
                let m = a.1 | b.1;
                let k = 128 - m.leading_zeros();
                (a.0.max(b.0), mask(k).min(mask(w)))
            }
            Op::Xor => {
                let (a, b) = (r(0), r(1));
                let m = a.1 | b.1;
                (0, mask(128 - m.leading_zeros()))
            }
            Op::Not => {
                let a = r(0);
                (mask(w) - a.1, mask(w) - a.0)
            }
            Op::LShr => (0, r(0).1),
            Op::Ult => {
                let (a, b) = (r(0), r(1));
                if a.1 < b.0 {
                    (1, 1)
                } else if a.0 >= b.1 {
                    (0, 0)
                } else {
                    full
                }
            }
            Op::Eq => {
                let (a, b) = (r(0), r(1));
                if a.1 < b.0 || b.1 < a.0 {
                    (0, 0)
                } else {
                    full
                }
            }
            Op::Slt => {
                let aw = self.w(n.args.s()[0]);
                let (a, b) = (r(0), r(1));
                let half = 1u128 << (aw - 1);
                // ranges not crossing the sign boundary
                let conv = |x: (u128, u128)| {
                    if x.1 < half || x.0 >= half {
                        Some((sext(x.0, aw), sext(x.1, aw)))
                    } else {
                        None
                    }
                };
                match (conv(a), conv(b)) {
                    (Some(a), Some(b)) => {
                        if a.1 < b.0 {
                            (1, 1)
                        } else if a.0 >= b.1 {
                            (0, 0)
                        } else {
                            full
                        }
                    }
                    _ => full,
                }
            }
            Op::Ext => {
                let a = r(0);
                if n.aux == 0 && a.1 <= mask(w) {
                    a
                } else {
                    let h = a.1 >> n.aux;
                    if h <= mask(w) {
                        (a.0 >> n.aux, h)
                    } else {
                        full
                    }
                }
            }
            _ => full,
        }
    }
    pub fn c(&mut self, w: u32, v: u128) -> E {
        assert!(w >= 1 && w <= 128, "width {w}");
        let n = Node { op: Op::Const, w: w as u8, aux: 0, args: Args::N0, val: v & mask(w) };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as u32;
        self.ranges.push((n.val, n.val));
        self.nodes.push(n.clone());
        self.map.insert(n, e);
        e
    }
    pub fn t(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.c(1, 0)
    }
    /// fresh 8-bit variable
    pub fn var(&mut self) -> E {
        let id = self.nvars;
        self.nvars += 1;
        let n = Node { op: Op::Var, w: 8, aux: id, args: Args::N0, val: 0 };
        let e = self.nodes.len() as u32;
        self.nodes.push(n.clone());
        self.ranges.push((0, 255));
        self.map.insert(n, e);
        e
    }
    /// Look up (or create) the node of variable `id`.
    pub fn var_node(&mut self, id: u32) -> E {
        let n = Node { op: Op::Var, w: 8, aux: id, args: Args::N0, val: 0 };
        self.map[&n]
    }

    // ---- structure -------------------------------------------------------
    fn push_part(&mut self, out: &mut Vec<E>, p: E) {
        // `out` is high..low; merge p (lower) with last
        if self.op(p) == Op::Cat {
            let args: Vec<E> = self.nodes[p as usize].args.s().to_vec();
            for a in args {
                self.push_part(out, a);
            }
            return;
        }
        if let Some(&l) = out.last() {
            if let (Some(a), Some(b)) = (self.cv(l), self.cv(p)) {
                let (wa, wb) = (self.w(l), self.w(p));
                if wa + wb <= 128 {
                    let v = if wb >= 128 { b } else { (a << wb) | b };
                    let m = self.c(wa + wb, v);
                    *out.last_mut().unwrap() = m;
                    return;
                }
            }
            // adjacent slices of the same base
            let (bl, lol) = self.slice(l);
            let (bp, lop) = self.slice(p);
            if bl == bp && lol == lop + self.w(p) {
                let w = self.w(l) + self.w(p);
                let m = if lop == 0 && w == self.w(bp) {
                    bp
                } else {
                    self.node_ext(bp, lop, w)
                };
                *out.last_mut().unwrap() = m;
                return;
            }
        }
        out.push(p);
    }
    fn slice(&self, e: E) -> (E, u32) {
        let n = &self.nodes[e as usize];
        if n.op == Op::Ext {
            (n.args.s()[0], n.aux)
        } else {
            (e, 0)
        }
    }
    pub fn cat(&mut self, parts: &[E]) -> E {
        let mut out = Vec::with_capacity(parts.len());
        for &p in parts {
            self.push_part(&mut out, p);
        }
        if out.len() == 1 {
            return out[0];
        }
        let w: u32 = out.iter().map(|x| self.w(*x)).sum();
        self.node(Op::Cat, w, 0, &out)
    }
    fn node_ext(&mut self, base: E, lo: u32, w: u32) -> E {
        self.node(Op::Ext, w, lo, &[base])
    }
    pub fn ext(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        assert!(lo + w <= ew, "ext {lo}+{w} of {ew}");
        if lo == 0 && w == ew {
            return e;
        }
        let n = self.nodes[e as usize].clone();
        match n.op {
            Op::Const => self.c(w, n.val >> lo),
            Op::Ext => self.ext(n.args.s()[0], n.aux + lo, w),
            Op::Cat => {
                let mut parts = vec![];
                let mut pos = ew;
                for &p in n.args.s() {
                    let pw = self.w(p);
                    pos -= pw;
                    // p covers [pos, pos+pw)
                    let a = lo.max(pos);
                    let b = (lo + w).min(pos + pw);
                    if a < b {
                        let x = self.ext(p, a - pos, b - a);
                        parts.push(x);
                    }
                }
                self.cat(&parts)
            }
            Op::SExt => {
                let x = n.args.s()[0];
                let xw = self.w(x);
                if lo + w <= xw {
                    self.ext(x, lo, w)
                } else if lo == 0 {
                    self.sext(x, w)
                } else if lo >= xw - 1 {
                    let s = self.ext(x, xw - 1, 1);
                    self.sext(s, w)
                } else {
                    let y = self.ext(x, lo, xw - lo);
                    self.sext(y, w)
                }
            }
            Op::Ite => {
                let (c, a, b) = (n.args.s()[0], n.args.s()[1], n.args.s()[2]);
                let a2 = self.ext(a, lo, w);
                let b2 = self.ext(b, lo, w);
                self.ite(c, a2, b2)
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.ext(n.args.s()[0], lo, w);
                let b = self.ext(n.args.s()[1], lo, w);
                match n.op {
                    Op::And => self.and(a, b),
                    Op::Or => self.or(a, b),
                    _ => self.xor(a, b),
                }
            }
            Op::Not => {
                let a = self.ext(n.args.s()[0], lo, w);
                self.not(a)
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.ext(n.args.s()[0], 0, w);
                let b = self.ext(n.args.s()[1], 0, w);
                match n.op {
                    Op::Add => self.add(a, b),
                    Op::Sub => self.sub(a, b),
                    _ => self.mul(a, b),
                }
            }
            _ => {
                // high bits known zero by range?
                let (_, hi) = self.ranges[e as usize];
                if lo < 128 && hi >> lo == 0 {
                    return self.c(w, 0);
                }
                let need = 128 - hi.leading_zeros();
                if need < lo + w && need > lo {
                    let x = self.node_ext(e, lo, need - lo);
                    let z = self.c(lo + w - need, 0);
                    return self.cat(&[z, x]);
                }
                self.node_ext(e, lo, w)
            }
        }
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if w == ew {
            return e;
        }
        let z = self.c(w - ew, 0);
        self.cat(&[z, e])
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if w == ew {
            return e;
        }
        if let Some(v) = self.cv(e) {
            return self.c(w, sext(v, ew) as u128);
        }
        if self.ranges[e as usize].1 < (1u128 << (ew - 1)) {
            return self.zext(e, w);
        }
        self.node(Op::SExt, w, 0, &[e])
    }
    pub fn trunc(&mut self, e: E, w: u32) -> E {
        self.ext(e, 0, w)
    }

    /// cut points (bit positions) of the structural parts of e, low to high
    fn cuts(&self, e: E, out: &mut Vec<u32>) {
        if self.op(e) == Op::Cat {
            let mut pos = self.w(e);
            for &p in self.nodes[e as usize].args.s() {
                pos -= self.w(p);
                if pos > 0 {
                    out.push(pos);
                }
            }
        }
    }
    fn const_cuts(v: u128, w: u32, out: &mut Vec<u32>) {
        for i in 1..w {
            if (v >> i) & 1 != (v >> (i - 1)) & 1 {
                out.push(i);
            }
        }
    }
    fn has_const_part(&self, e: E) -> bool {
        self.op(e) == Op::Cat && self.nodes[e as usize].args.s().iter().any(|x| self.cv(*x).is_some())
    }
    fn bitwise(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b));
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => {
                return self.c(
                    w,
                    match op {
                        Op::And => x & y,
                        Op::Or => x | y,
                        _ => x ^ y,
                    },
                )
            }
            (Some(k), None) | (None, Some(k)) => {
                let x = if self.cv(a).is_some() { b } else { a };
                if k == 0 {
                    return if op == Op::And { self.c(w, 0) } else { x };
                }
                if k == mask(w) {
                    return match op {
                        Op::And => x,
                        Op::Or => self.c(w, k),
                        _ => self.not(x),
                    };
                }
            }
            _ => {}
        }
        if a == b {
            return match op {
                Op::Xor => self.c(w, 0),
                _ => a,
            };
        }
        if w == 1 {
            // complement
            let na = self.not(a);
            if na == b {
                return match op {
                    Op::And => self.f(),
                    _ => self.t(),
                };
            }
        }
        // split at structural boundaries
        let mut cuts = vec![];
        self.cuts(a, &mut cuts);
        self.cuts(b, &mut cuts);
        let mut useful = self.has_const_part(a) || self.has_const_part(b);
        for x in [a, b] {
            if let Some(v) = self.cv(x) {
                Self::const_cuts(v, w, &mut cuts);
                useful = true;
            }
        }
        if useful && !cuts.is_empty() {
            cuts.sort_unstable();
            cuts.dedup();
            cuts.push(w);
            let mut parts = vec![];
            let mut lo = 0;
            for &h in &cuts {
                let x = self.ext(a, lo, h - lo);
                let y = self.ext(b, lo, h - lo);
                let z = self.bitwise(op, x, y);
                parts.push(z);
                lo = h;
            }
            parts.reverse();
            return self.cat(&parts);
        }
        self.node(op, w, 0, &[a, b])
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        self.bitwise(Op::And, a, b)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        self.bitwise(Op::Or, a, b)
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        if self.w(a) == 1 {
            if let Some(v) = self.cv(a) {
                return if v == 1 { self.not(b) } else { b };
            }
            if let Some(v) = self.cv(b) {
                return if v == 1 { self.not(a) } else { a };
            }
        }
        self.bitwise(Op::Xor, a, b)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let n = &self.nodes[a as usize];
        match n.op {
            Op::Const => {
                let v = !n.val;
                self.c(w, v)
            }
            Op::Not => n.args.s()[0],
            Op::Cat => {
                let args = n.args.s().to_vec();
                let parts: Vec<E> = args.iter().map(|x| self.not(*x)).collect();
                self.cat(&parts)
            }
            _ => self.node(Op::Not, w, 0, &[a]),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        assert_eq!(w, self.w(b), "ite widths");
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(_), None) => {
                    let nc = self.not(c);
                    return self.and(nc, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(_)) => {
                    let nc = self.not(c);
                    return self.or(nc, a);
                }
                _ => {}
            }
        }
        if self.op(c) == Op::Not {
            let c2 = self.arg(c, 0);
            return self.ite(c2, b, a);
        }
        // nested with same condition
        if self.op(a) == Op::Ite && self.arg(a, 0) == c {
            let x = self.arg(a, 1);
            return self.ite(c, x, b);
        }
        if self.op(b) == Op::Ite && self.arg(b, 0) == c {
            let y = self.arg(b, 2);
            return self.ite(c, a, y);
        }
        // common parts of two concatenations / constants
        if w > 8 || self.op(a) == Op::Cat || self.op(b) == Op::Cat {
            let mut cuts = vec![];
            self.cuts(a, &mut cuts);
            self.cuts(b, &mut cuts);
            if !cuts.is_empty() {
                cuts.sort_unstable();
                cuts.dedup();
                cuts.push(w);
                let mut same = false;
                let mut lo = 0;
                let mut prs = vec![];
                for &h in &cuts {
                    let x = self.ext(a, lo, h - lo);
                    let y = self.ext(b, lo, h - lo);
                    if x == y {
                        same = true;
                    }
                    prs.push((x, y));
                    lo = h;
                }
                if same {
                    let mut parts: Vec<E> = vec![];
                    for (x, y) in prs {
                        let z = self.ite(c, x, y);
                        parts.push(z);
                    }
                    parts.reverse();
                    return self.cat(&parts);
                }
            }
        }
        self.node(Op::Ite, w, 0, &[c, a, b])
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "add widths");
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if k == 0 {
                return a;
            }
            if let Some(x) = self.cv(a) {
                return self.c(w, x.wrapping_add(k));
            }
            if self.op(a) == Op::Add {
                let (x, y) = (self.arg(a, 0), self.arg(a, 1));
                if let Some(k2) = self.cv(y) {
                    let s = self.c(w, k.wrapping_add(k2));
                    return self.add(x, s);
                }
            }
            // low zero bits of the constant: no carry into the low part
            let tz = k.trailing_zeros().min(w);
            if tz > 0 && self.op(a) == Op::Cat && tz < w {
                // only if a has a cut at or below tz: keep low bits separate
                let mut cuts = vec![];
                self.cuts(a, &mut cuts);
                if let Some(cut) = cuts.iter().copied().filter(|c| *c <= tz).max() {
                    let hi = self.ext(a, cut, w - cut);
                    let lo = self.ext(a, 0, cut);
                    let kh = self.c(w - cut, k >> cut);
                    let s = self.add(hi, kh);
                    return self.cat(&[s, lo]);
                }
            }
        } else {
            // x + ~y.. leave;  (p - q) + q = p
            if self.op(a) == Op::Sub && self.arg(a, 1) == b {
                return self.arg(a, 0);
            }
            if self.op(b) == Op::Sub && self.arg(b, 1) == a {
                return self.arg(b, 0);
            }
        }
        if self.cv(b).is_none() {
            // float constants outward: (x + k) + y = (x + y) + k
            if self.op(a) == Op::Add {
                let (x, k) = (self.arg(a, 0), self.arg(a, 1));
                if self.cv(k).is_some() {
                    let s = self.add(x, b);
                    return self.add(s, k);
                }
            }
            if self.op(b) == Op::Add {
                let (x, k) = (self.arg(b, 0), self.arg(b, 1));
                if self.cv(k).is_some() {
                    let s = self.add(a, x);
                    return self.add(s, k);
                }
            }
            // disjoint bits -> or
            if self.disjoint(a, b) {
                return self.or(a, b);
            }
        } else if self.disjoint(a, b) {
            return self.or(a, b);
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.node(Op::Add, w, 0, &[a, b])
    }
    /// bits possibly one
    pub fn maybe_ones(&self, e: E) -> u128 {
        match self.op(e) {
            Op::Const => self.nodes[e as usize].val,
            Op::Cat => {
                let mut r = 0u128;
                for &a in self.nodes[e as usize].args.s() {
                    r = (r << self.w(a)) | self.maybe_ones(a);
                }
                r
            }
            Op::Table => {
                self.tables[self.nodes[e as usize].aux as usize].iter().fold(0, |x, y| x | y)
            }
            _ => {
                let h = self.ranges[e as usize].1;
                mask(128 - h.leading_zeros())
            }
        }
    }
    fn disjoint(&self, a: E, b: E) -> bool {
        self.maybe_ones(a) & self.maybe_ones(b) == 0
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        if let Some(k) = self.cv(b) {
            let nk = self.c(w, 0u128.wrapping_sub(k));
            return self.add(a, nk);
        }
        // (x + k) - x = k ; (x + k) - (x + j) = k - j ; (x + k) - y = (x - y) + k
        let (ax, ak) = self.split_add(a);
        let (bx, bk) = self.split_add(b);
        if ax == bx {
            return self.c(w, ak.wrapping_sub(bk));
        }
        if ak != 0 || bk != 0 {
            let d = self.sub(ax, bx);
            let k = self.c(w, ak.wrapping_sub(bk));
            return self.add(d, k);
        }
        if self.op(a) == Op::Add {
            if self.arg(a, 0) == b {
                return self.arg(a, 1);
            }
            if self.arg(a, 1) == b {
                return self.arg(a, 0);
            }
        }
        self.node(Op::Sub, w, 0, &[a, b])
    }
    fn split_add(&mut self, a: E) -> (E, u128) {
        if self.op(a) == Op::Add {
            let (x, k) = (self.arg(a, 0), self.arg(a, 1));
            if let Some(k) = self.cv(k) {
                return (x, k);
            }
        }
        (a, 0)
    }
    pub fn neg(&mut self, a: E) -> E {
        let z = self.c(self.w(a), 0);
        self.sub(z, a)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let Some(k) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(w, x.wrapping_mul(k));
            }
            if k == 0 {
                return b;
            }
            if k == 1 {
                return a;
            }
            if k.is_power_of_two() {
                let s = self.c(w, k.trailing_zeros() as u128);
                return self.shl(a, s);
            }
        }
        // narrow multiplication when the product fits
        let h = self.ranges[a as usize].1.checked_mul(self.ranges[b as usize].1);
        if let Some(h) = h {
            let need = (128 - h.leading_zeros()).max(1);
            if need < w {
                let x = self.trunc(a, need);
                let y = self.trunc(b, need);
                let m = self.node(Op::Mul, need, 0, &[x.min(y), x.max(y)]);
                let m = self.mul_canon(m);
                return self.zext(m, w);
            }
        }
        let m = self.node(Op::Mul, w, 0, &[a.min(b), a.max(b)]);
        self.mul_canon(m)
    }
    fn mul_canon(&mut self, m: E) -> E {
        m
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k != 0 {
                if let Some(x) = self.cv(a) {
                    return self.c(w, x / k);
                }
                if k.is_power_of_two() {
                    let s = self.c(w, k.trailing_zeros() as u128);
                    return self.lshr(a, s);
                }
            }
        }
        self.narrow2(Op::UDiv, a, b)
    }
    fn narrow2(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        let h = self.ranges[a as usize].1.max(self.ranges[b as usize].1);
        let need = (128 - h.leading_zeros()).max(1);
        if need < w && self.ranges[b as usize].0 > 0 {
            let x = self.trunc(a, need);
            let y = self.trunc(b, need);
            let d = self.node(op, need, 0, &[x, y]);
            return self.zext(d, w);
        }
        self.node(op, w, 0, &[a, b])
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k != 0 {
                if let Some(x) = self.cv(a) {
                    return self.c(w, x % k);
                }
                if k == 1 {
                    return self.c(w, 0);
                }
                if k.is_power_of_two() {
                    let t = k.trailing_zeros();
                    let x = self.ext(a, 0, t);
                    return self.zext(x, w);
                }
                if self.ranges[a as usize].1 < k {
                    return a;
                }
            }
        }
        self.narrow2(Op::URem, a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let half = 1u128 << (w - 1);
        if self.ranges[a as usize].1 < half && self.ranges[b as usize].1 < half {
            return self.udiv(a, b);
        }
        self.fold2(Op::SDiv, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let half = 1u128 << (w - 1);
        if self.ranges[a as usize].1 < half && self.ranges[b as usize].1 < half {
            return self.urem(a, b);
        }
        self.fold2(Op::SRem, a, b)
    }
    fn fold2(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let n = Node { op, w: w as u8, aux: 0, args: Args::N0, val: 0 };
            let v = eval_op(&n, &[x, y], &[w, w], &[]);
            return self.c(w, v);
        }
        self.node(op, w, 0, &[a, b])
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 {
                return self.c(w, 0);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            let x = self.ext(a, 0, w - k);
            let z = self.c(k, 0);
            return self.cat(&[x, z]);
        }
        self.fold2(Op::Shl, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            if k >= w as u128 {
                return self.c(w, 0);
            }
            let k = k as u32;
            if k == 0 {
                return a;
            }
            let x = self.ext(a, k, w - k);
            return self.zext(x, w);
        }
        self.fold2(Op::LShr, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.cv(b) {
            let k = (k.min(w as u128 - 1)) as u32;
            if k == 0 {
                return a;
            }
            let x = self.ext(a, k, w - k);
            return self.sext(x, w);
        }
        self.fold2(Op::AShr, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "eq widths");
        if a == b {
            return self.t();
        }
        let (a, b) = if self.cv(a).is_some() { (b, a) } else { (a, b) };
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(1, (x == y) as u128);
        }
        if w == 1 {
            if let Some(k) = self.cv(b) {
                return if k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        let (ra, rb) = (self.ranges[a as usize], self.ranges[b as usize]);
        if ra.1 < rb.0 || rb.1 < ra.0 {
            return self.f();
        }
        // piecewise
        let mut cuts = vec![];
        self.cuts(a, &mut cuts);
        self.cuts(b, &mut cuts);
        if !cuts.is_empty() {
            cuts.sort_unstable();
            cuts.dedup();
            cuts.push(w);
            let mut lo = 0;
            let mut conj = vec![];
            for &h in &cuts {
                let x = self.ext(a, lo, h - lo);
                let y = self.ext(b, lo, h - lo);
                let q = self.eq(x, y);
                match self.cv(q) {
                    Some(0) => return self.f(),
                    Some(_) => {}
                    None => conj.push(q),
                }
                lo = h;
            }
            return self.conj(&conj);
        }
        if let Some(k) = self.cv(b) {
            let n = self.nodes[a as usize].clone();
            match n.op {
                Op::Ite => {
                    let s = n.args.s();
                    if self.cv(s[1]).is_some() || self.cv(s[2]).is_some() {
                        let x = self.eq(s[1], b);
                        let y = self.eq(s[2], b);
                        return self.ite(s[0], x, y);
                    }
                }
                Op::Add => {
                    if let Some(k2) = self.cv(n.args.s()[1]) {
                        let d = self.c(w, k.wrapping_sub(k2));
                        return self.eq(n.args.s()[0], d);
                    }
                }
                Op::Not => {
                    let d = self.c(w, !k);
                    return self.eq(n.args.s()[0], d);
                }
                Op::Sub => {
                    if k == 0 {
                        return self.eq(n.args.s()[0], n.args.s()[1]);
                    }
                }
                Op::Xor => {
                    if k == 0 {
                        return self.eq(n.args.s()[0], n.args.s()[1]);
                    }
                }
                Op::Or => {
                    if k == 0 {
                        let x = self.eq(n.args.s()[0], b);
                        let y = self.eq(n.args.s()[1], b);
                        return self.and(x, y);
                    }
                }
                Op::SExt => {
                    let x = n.args.s()[0];
                    let xw = self.w(x);
                    let kk = self.c(xw, k);
                    let v = sext(k & mask(xw), xw) as u128 & mask(w);
                    return if v == k { self.eq(x, kk) } else { self.f() };
                }
                _ => {}
            }
        } else {
            let (oa, ob) = (self.op(a), self.op(b));
            if oa == Op::Table && ob == Op::Table {
                let (na, nb) = (self.nodes[a as usize].aux, self.nodes[b as usize].aux);
                if na == nb && self.table_inj[na as usize] {
                    let (x, y) = (self.arg(a, 0), self.arg(b, 0));
                    return self.eq(x, y);
                }
            }
            if oa == Op::SExt && ob == Op::SExt {
                let (x, y) = (self.arg(a, 0), self.arg(b, 0));
                if self.w(x) == self.w(y) {
                    return self.eq(x, y);
                }
            }
            if oa == Op::Not && ob == Op::Not {
                let (x, y) = (self.arg(a, 0), self.arg(b, 0));
                return self.eq(x, y);
            }
            let (ax, ak) = self.split_add(a);
            let (bx, bk) = self.split_add(b);
            if ax == bx {
                return self.c(1, (ak == bk) as u128);
            }
        }
        let (a, b) = if self.cv(b).is_none() && a > b { (b, a) } else { (a, b) };
        self.node(Op::Eq, 1, 0, &[a, b])
    }
    pub fn conj(&mut self, v: &[E]) -> E {
        // balanced conjunction
        match v.len() {
            0 => self.t(),
            1 => v[0],
            n => {
                let a = self.conj(&v[..n / 2]);
                let b = self.conj(&v[n / 2..]);
                self.and(a, b)
            }
        }
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        self.not(e)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        assert_eq!(w, self.w(b), "ult widths");
        if a == b {
            return self.f();
        }
        let (ra, rb) = (self.ranges[a as usize], self.ranges[b as usize]);
        if ra.1 < rb.0 {
            return self.t();
        }
        if ra.0 >= rb.1 {
            return self.f();
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        // common high part
        if self.op(a) == Op::Cat || self.op(b) == Op::Cat {
            let ha = if self.op(a) == Op::Cat { self.w(self.arg(a, 0)) } else { 0 };
            let hb = if self.op(b) == Op::Cat { self.w(self.arg(b, 0)) } else { 0 };
            for h in [ha, hb] {
                if h > 0 && h < w {
                    let xa = self.ext(a, w - h, h);
                    let xb = self.ext(b, w - h, h);
                    if xa == xb {
                        let la = self.ext(a, 0, w - h);
                        let lb = self.ext(b, 0, w - h);
                        return self.ult(la, lb);
                    }
                }
            }
            // x < k where k has zero low bits: only the high part matters
            if let Some(k) = self.cv(b) {
                let mut cuts = vec![];
                self.cuts(a, &mut cuts);
                if let Some(&lo) = cuts.iter().max() {
                    if k & mask(lo) == 0 {
                        let xa = self.ext(a, lo, w - lo);
                        let kb = self.c(w - lo, k >> lo);
                        return self.ult(xa, kb);
                    }
                }
            }
        }
        if let Some(1) = self.cv(b) {
            let z = self.c(w, 0);
            return self.eq(a, z);
        }
        if let Some(0) = self.cv(a) {
            return self.ne(b, a);
        }
        if let Some(k) = self.cv(a) {
            if k == mask(w) - 1 {
                let m = self.c(w, mask(w));
                return self.eq(b, m);
            }
        }
        // ite with constant branches against constant
        for (x, y, left) in [(a, b, true), (b, a, false)] {
            if self.op(x) == Op::Ite && self.cv(y).is_some() {
                let (c, p, q) = (self.arg(x, 0), self.arg(x, 1), self.arg(x, 2));
                if self.cv(p).is_some() || self.cv(q).is_some() {
                    let (r, s) = if left {
                        (self.ult(p, y), self.ult(q, y))
                    } else {
                        (self.ult(y, p), self.ult(y, q))
                    };
                    return self.ite(c, r, s);
                }
            }
        }
        self.node(Op::Ult, 1, 0, &[a, b])
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.f();
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(1, (sext(x, w) < sext(y, w)) as u128);
        }
        let half = 1u128 << (w - 1);
        let (ra, rb) = (self.ranges[a as usize], self.ranges[b as usize]);
        let (pa, pb) = (ra.1 < half, rb.1 < half);
        if pa && pb {
            return self.ult(a, b);
        }
        let (na, nb) = (ra.0 >= half, rb.0 >= half);
        if na && nb {
            return self.ult(a, b);
        }
        if na && pb {
            return self.t();
        }
        if pa && nb {
            return self.f();
        }
        // sign test
        if let Some(0) = self.cv(b) {
            return self.ext(a, w - 1, 1);
        }
        if self.cv(a) == Some(mask(w)) {
            let s = self.ext(b, w - 1, 1);
            return self.not(s);
        }
        self.node(Op::Slt, 1, 0, &[a, b])
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }

    // ---- tables ----------------------------------------------------------
    pub fn table(&mut self, idx: E, vals: Vec<u128>, w: u32) -> E {
        let iw = self.w(idx);
        assert!(iw <= MAX_TABLE_BITS && vals.len() == 1usize << iw);
        if let Some(i) = self.cv(idx) {
            return self.c(w, vals[i as usize]);
        }
        let (rlo, rhi) = self.ranges[idx as usize];
        let mut vals = vals;
        // normalise unreachable entries
        for (i, v) in vals.iter_mut().enumerate() {
            if (i as u128) < rlo || (i as u128) > rhi {
                *v = 0;
            }
        }
        let (lo, hi) = (rlo as usize, rhi as usize);
        let first = vals[lo];
        if vals[lo..=hi].iter().all(|v| *v == first) {
            return self.c(w, first);
        }
        if self.op(idx) == Op::Table {
            let inner = self.tables[self.nodes[idx as usize].aux as usize].clone();
            let x = self.arg(idx, 0);
            let comp: Vec<u128> = inner.iter().map(|i| vals[*i as usize]).collect();
            return self.table(x, comp, w);
        }
        if self.op(idx) == Op::Cat {
            // drop constant parts of the index
            let parts = self.nodes[idx as usize].args.s().to_vec();
            if parts.iter().any(|p| self.cv(*p).is_some()) {
                let sym: Vec<E> = parts.iter().copied().filter(|p| self.cv(*p).is_none()).collect();
                let sw: u32 = sym.iter().map(|p| self.w(*p)).sum();
                let mut nv = Vec::with_capacity(1 << sw);
                for s in 0..(1u128 << sw) {
                    let mut full = 0u128;
                    let mut pos = sw;
                    for p in &parts {
                        let pw = self.w(*p);
                        let v = match self.cv(*p) {
                            Some(v) => v,
                            None => {
                                pos -= pw;
                                (s >> pos) & mask(pw)
                            }
                        };
                        full = (full << pw) | v;
                    }
                    nv.push(vals[full as usize]);
                }
                let ni = self.cat(&sym);
                return self.table(ni, nv, w);
            }
        }
        // identity (zero extended)
        if w >= iw && (lo..=hi).all(|i| vals[i] == i as u128) {
            return self.zext(idx, w);
        }
        if w == 1 {
            let ones: Vec<usize> = (lo..=hi).filter(|i| vals[*i] == 1).collect();
            if ones.len() == 1 {
                let k = self.c(iw, ones[0] as u128);
                return self.eq(idx, k);
            }
            if ones.len() == hi - lo {
                let z = (lo..=hi).find(|i| vals[*i] == 0).unwrap();
                let k = self.c(iw, z as u128);
                return self.ne(idx, k);
            }
        }
        let t = Rc::new(vals);
        let id = match self.table_map.get(&t) {
            Some(i) => *i,
            None => {
                let i = self.tables.len() as u32;
                let mut s: Vec<u128> = t.to_vec();
                s.sort_unstable();
                let inj = s.windows(2).all(|p| p[0] != p[1]);
                self.tables.push(t.clone());
                self.table_inj.push(inj);
                self.table_map.insert(t, i);
                i
            }
        };
        // injectivity only over reachable indices would need care; keep full
        self.raw(Node { op: Op::Table, w: w as u8, aux: id, args: Args::N1([idx]), val: 0 })
    }
    pub fn max_table_bits(&self) -> u32 {
        MAX_TABLE_BITS
    }

    // ---- misc ------------------------------------------------------------
    /// sorted variable ids occurring in e
    pub fn support(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(s) = self.supports.get(&e) {
            return s.clone();
        }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.supports.contains_key(&x) {
                continue;
            }
            let n = &self.nodes[x as usize];
            if n.op == Op::Var {
                self.supports.insert(x, Rc::new(vec![n.aux]));
                continue;
            }
            let args = n.args.s();
            if args.is_empty() {
                self.supports.insert(x, Rc::new(vec![]));
                continue;
            }
            if !done {
                stack.push((x, true));
                for a in args {
                    if !self.supports.contains_key(a) {
                        stack.push((*a, false));
                    }
                }
            } else {
                let mut v: Vec<u32> = vec![];
                for a in args {
                    v.extend_from_slice(&self.supports[a]);
                }
                v.sort_unstable();
                v.dedup();
                self.supports.insert(x, Rc::new(v));
            }
        }
        self.supports[&e].clone()
    }

    pub fn show(&self, e: E) -> String {
        self.show_d(e, 0)
    }
    fn show_d(&self, e: E, d: u32) -> String {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}:{}", n.val, n.w),
            Op::Var => format!("v{}", n.aux),
            _ if d > 6 => "..".into(),
            _ => {
                let a: Vec<String> = n.args.s().iter().map(|x| self.show_d(*x, d + 1)).collect();
                format!("{:?}{}[{}]({})", n.op, n.w, n.aux, a.join(","))
            }
        }
    }
}

/// An assignment of the byte variables, with a memo table for evaluation.
pub struct Model {
    pub vals: FxMap<u32, u8>,
    memo: std::cell::RefCell<FxMap<E, u128>>,
}
impl Model {
    pub fn new(vals: FxMap<u32, u8>) -> Self {
        Model { vals, memo: Default::default() }
    }
    pub fn eval(&self, p: &Pool, e: E) -> u128 {
        let n = &p.nodes[e as usize];
        if n.op == Op::Const {
            return n.val;
        }
        let mut memo = self.memo.borrow_mut();
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let mut stack = vec![e];
        let mut av: Vec<u128> = vec![];
        let mut aw: Vec<u32> = vec![];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = &p.nodes[x as usize];
            match n.op {
                Op::Const => {
                    memo.insert(x, n.val);
                    stack.pop();
                }
                Op::Var => {
                    memo.insert(x, *self.vals.get(&n.aux).unwrap_or(&0) as u128);
                    stack.pop();
                }
                _ => {
                    let mut ready = true;
                    for a in n.args.s() {
                        if !memo.contains_key(a) {
                            stack.push(*a);
                            ready = false;
                        }
                    }
                    if ready {
                        av.clear();
                        aw.clear();
                        for a in n.args.s() {
                            av.push(memo[a]);
                            aw.push(p.w(*a));
                        }
                        let v = eval_op(n, &av, &aw, &p.tables);
                        memo.insert(x, v);
                        stack.pop();
                    }
                }
            }
        }
        memo[&e]
    }
}
