//! Minimal FFI to libz3 and translation of expressions to SMT terms.
use crate::expr::*;
use std::os::raw::{c_char, c_int, c_uint};

type P = *mut std::ffi::c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

pub struct Z3 {
    c: P,
    logic: P,
    params: P,
    bv: FxMap<E, P>,
    bo: FxMap<E, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<String>,
}

pub enum Res {
    Sat(FxMap<u32, u8>),
    Unsat,
    Unknown,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, b"model\0".as_ptr() as _, b"true\0".as_ptr() as _);
            let c = Z3_mk_context_rc(cfg);
            let logic = Z3_mk_string_symbol(c, b"QF_BV\0".as_ptr() as _);
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = Z3_mk_string_symbol(c, b"timeout\0".as_ptr() as _);
            Z3_params_set_uint(c, params, k, timeout_ms);
            Z3 {
                c,
                logic,
                params,
                bv: FxMap::default(),
                bo: FxMap::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                dump: None,
            }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe {
            let e = Z3_get_error_code(self.c);
            assert!(e == 0 && !a.is_null(), "z3 error {e}");
            Z3_inc_ref(self.c, a);
        }
        a
    }
    fn num(&self, w: u32, v: u128) -> P {
        unsafe {
            if w <= 64 {
                let s = Z3_mk_bv_sort(self.c, w);
                self.keep(Z3_mk_unsigned_int64(self.c, v as u64, s))
            } else {
                let hi = self.num(w - 64, v >> 64);
                let lo = self.num(64, v & mask(64));
                self.keep(Z3_mk_concat(self.c, hi, lo))
            }
        }
    }
    pub fn boolean(&mut self, p: &Pool, e: E) -> P {
        if let Some(x) = self.bo.get(&e) {
            return *x;
        }
        let n = &p.nodes[e as usize];
        let s = n.args.s();
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.val == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::And | Op::Or | Op::Xor => {
                    let a = self.boolean(p, s[0]);
                    let b = self.boolean(p, s[1]);
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, [a, b].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [a, b].as_ptr()),
                        _ => Z3_mk_xor(c, a, b),
                    }
                }
                Op::Not => {
                    let a = self.boolean(p, s[0]);
                    Z3_mk_not(c, a)
                }
                Op::Ite => {
                    let a = self.boolean(p, s[0]);
                    let x = self.boolean(p, s[1]);
                    let y = self.boolean(p, s[2]);
                    Z3_mk_ite(c, a, x, y)
                }
                Op::Eq => {
                    if p.w(s[0]) == 1 {
                        let a = self.boolean(p, s[0]);
                        let b = self.boolean(p, s[1]);
                        Z3_mk_eq(c, a, b)
                    } else {
                        let a = self.bv(p, s[0]);
                        let b = self.bv(p, s[1]);
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult => {
                    let a = self.bv(p, s[0]);
                    let b = self.bv(p, s[1]);
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let a = self.bv(p, s[0]);
                    let b = self.bv(p, s[1]);
                    Z3_mk_bvslt(c, a, b)
                }
                _ => {
                    let a = self.bv(p, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        let r = self.keep(r);
        self.bo.insert(e, r);
        r
    }
    fn table(&mut self, idx: P, vals: &[u128], bit: u32, w: u32) -> P {
        // vals covers the sub-cube where bits > bit are fixed
        if vals.iter().all(|v| *v == vals[0]) {
            return self.num(w, vals[0]);
        }
        let h = vals.len() / 2;
        let a = self.table(idx, &vals[..h], bit.wrapping_sub(1), w);
        let b = self.table(idx, &vals[h..], bit.wrapping_sub(1), w);
        unsafe {
            let x = self.keep(Z3_mk_extract(self.c, bit, bit, idx));
            let one = self.num(1, 1);
            let cond = self.keep(Z3_mk_eq(self.c, x, one));
            self.keep(Z3_mk_ite(self.c, cond, b, a))
        }
    }
    pub fn bv(&mut self, p: &Pool, e: E) -> P {
        if let Some(x) = self.bv.get(&e) {
            return *x;
        }
        let n = &p.nodes[e as usize];
        let w = n.w as u32;
        let s = n.args.s();
        let c = self.c;
        let bool_op = w == 1
            && matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Not | Op::Ite | Op::Eq | Op::Ult | Op::Slt);
        let r = if bool_op {
            let b = self.boolean(p, e);
            let one = self.num(1, 1);
            let zero = self.num(1, 0);
            unsafe { Z3_mk_ite(c, b, one, zero) }
        } else {
            unsafe {
                match n.op {
                    Op::Const => self.num(w, n.val),
                    Op::Var => {
                        let sym = Z3_mk_int_symbol(c, n.aux as c_int);
                        Z3_mk_const(c, sym, Z3_mk_bv_sort(c, w))
                    }
                    Op::Cat => {
                        let mut r = self.bv(p, s[0]);
                        for x in &s[1..] {
                            let y = self.bv(p, *x);
                            r = self.keep(Z3_mk_concat(c, r, y));
                        }
                        r
                    }
                    Op::Ext => {
                        let a = self.bv(p, s[0]);
                        Z3_mk_extract(c, n.aux + w - 1, n.aux, a)
                    }
                    Op::SExt => {
                        let a = self.bv(p, s[0]);
                        Z3_mk_sign_ext(c, w - p.w(s[0]), a)
                    }
                    Op::Not => {
                        let a = self.bv(p, s[0]);
                        Z3_mk_bvnot(c, a)
                    }
                    Op::Ite => {
                        let a = self.boolean(p, s[0]);
                        let x = self.bv(p, s[1]);
                        let y = self.bv(p, s[2]);
                        Z3_mk_ite(c, a, x, y)
                    }
                    Op::Table => {
                        let i = self.bv(p, s[0]);
                        let t = p.tables[n.aux as usize].clone();
                        self.table(i, &t, p.w(s[0]) - 1, w)
                    }
                    _ => {
                        let a = self.bv(p, s[0]);
                        let b = self.bv(p, s[1]);
                        match n.op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            _ => unreachable!("{:?}", n.op),
                        }
                    }
                }
            }
        };
        let r = self.keep(r);
        self.bv.insert(e, r);
        r
    }
    /// Is the conjunction satisfiable?  On sat, values for `vars`.
    pub fn solve(&mut self, p: &mut Pool, cs: &[E], vars: &[u32]) -> Res {
        let t0 = std::time::Instant::now();
        let r = unsafe {
            let s = Z3_mk_solver_for_logic(self.c, self.logic);
            Z3_solver_inc_ref(self.c, s);
            Z3_solver_set_params(self.c, s, self.params);
            for e in cs {
                let b = self.boolean(p, *e);
                Z3_solver_assert(self.c, s, b);
            }
            let r = match Z3_solver_check(self.c, s) {
                1 => {
                    let m = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = FxMap::default();
                    for v in vars {
                        let e = p.var_node(*v);
                        let t = self.bv(p, e);
                        let mut o: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, t, true, &mut o) {
                            Z3_inc_ref(self.c, o);
                            let mut u = 0u64;
                            assert!(Z3_get_numeral_uint64(self.c, o, &mut u));
                            out.insert(*v, u as u8);
                        } else {
                            panic!("model eval");
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Res::Sat(out)
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            let dt = t0.elapsed().as_secs_f64();
            if let Some(d) = &self.dump {
                if dt > 2.0 {
                    let st = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                    let _ = std::fs::write(format!("{d}/q{}_{:.1}s.smt2", self.queries, dt), st + "\n(check-sat)\n");
                }
            }
            Z3_solver_dec_ref(self.c, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        r
    }
}
#[allow(dead_code)]
fn _unused() {
    let _ = Z3_mk_bool_sort as *const ();
}
