//! Minimal binding to libz3 and the translation of expressions to SMT bit-vectors.
#![allow(non_camel_case_types)]
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {:?}", m);
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub struct Z3 {
    c: P,
    s: P,
    ast: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: std::time::Duration,
}

impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            Z3 { c, s, ast: Vec::new(), queries: 0, sat: 0, unsat: 0, time: Default::default() }
        }
    }

    fn num(&self, w: u16, v: u128) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.c, w as c_uint);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, t.as_ptr(), s)
            }
        }
    }

    fn tr(&mut self, e: E) -> P {
        if self.ast.len() <= e as usize {
            self.ast.resize(e as usize + 256, std::ptr::null_mut());
        }
        if !self.ast[e as usize].is_null() {
            return self.ast[e as usize];
        }
        let key = k(e);
        let c = self.c;
        let r = unsafe {
            match key.op {
                Op::Const => self.num(key.w, key.k),
                Op::Var => {
                    let nm = CString::new(format!("b{}", key.k)).unwrap();
                    let sy = Z3_mk_string_symbol(c, nm.as_ptr());
                    Z3_mk_const(c, sy, Z3_mk_bv_sort(c, 8))
                }
                Op::Ite => {
                    let i = self.truth(key.a);
                    let t = self.tr(key.b);
                    let f = self.tr(key.c);
                    Z3_mk_ite(c, i, t, f)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.truth(e);
                    let one = self.num(1, 1);
                    let zero = self.num(1, 0);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::ZExt => {
                    let a = self.tr(key.a);
                    Z3_mk_zero_ext(c, (key.w - width(key.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.tr(key.a);
                    Z3_mk_sign_ext(c, (key.w - width(key.a)) as c_uint, a)
                }
                Op::Ext => {
                    let a = self.tr(key.a);
                    Z3_mk_extract(c, (key.k as u16 + key.w - 1) as c_uint, key.k as c_uint, a)
                }
                Op::Concat => {
                    let a = self.tr(key.a);
                    let b = self.tr(key.b);
                    Z3_mk_concat(c, a, b)
                }
                Op::Tab => {
                    let idx = self.tr(key.a);
                    let t = ar().tabs[key.k as usize].clone();
                    // runs of equal values, as a chain of upper bounds
                    let mut runs: Vec<(u8, u64)> = vec![];
                    for i in 0..256 {
                        if i == 255 || t[i] != t[i + 1] {
                            runs.push((i as u8, t[i]));
                        }
                    }
                    let mut acc = self.num(key.w, runs.last().unwrap().1 as u128);
                    for &(hi, v) in runs.iter().rev().skip(1) {
                        let h = self.num(8, hi as u128);
                        let cnd = Z3_mk_bvule(c, idx, h);
                        let val = self.num(key.w, v as u128);
                        acc = Z3_mk_ite(c, cnd, val, acc);
                    }
                    acc
                }
                _ => {
                    let a = self.tr(key.a);
                    let b = self.tr(key.b);
                    match key.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.ast[e as usize] = r;
        r
    }

    /// Boolean-sorted translation of a width-1 expression.
    fn truth(&mut self, e: E) -> P {
        let key = k(e);
        let c = self.c;
        unsafe {
            match key.op {
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.tr(key.a);
                    let b = self.tr(key.b);
                    match key.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                _ => {
                    let a = self.tr(e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        }
    }

    /// Is the conjunction satisfiable? On sat returns values for `vars` (bitmask of byte variables).
    /// `None` in the outer option: the solver gave up.
    pub fn check(&mut self, cs: &[E], vars: u128) -> Option<Option<Vec<(u8, u8)>>> {
        let t0 = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs {
                let b = self.truth(e);
                Z3_solver_assert(self.c, self.s, b);
            }
            let r = Z3_solver_check(self.c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut o = vec![];
                    for i in 0..128u32 {
                        if vars >> i & 1 != 0 {
                            let v = var(i);
                            let a = self.tr(v);
                            let mut val: P = std::ptr::null_mut();
                            let mut x = 0u64;
                            if Z3_model_eval(self.c, m, a, true, &mut val) && Z3_get_numeral_uint64(self.c, val, &mut x) {
                                o.push((i as u8, x as u8));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    self.sat += 1;
                    Some(Some(o))
                }
                -1 => {
                    self.unsat += 1;
                    Some(None)
                }
                _ => None,
            };
            Z3_solver_pop(self.c, self.s, 1);
            out
        };
        self.queries += 1;
        self.time += t0.elapsed();
        r
    }
}
