//! Thin binding of the Z3 C API: conversion of expressions and sat checks.
use crate::expr::{Arena, E};
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, r: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let s = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error {}", s.to_string_lossy());
        std::process::exit(70);
    }
}

pub struct Z {
    c: P,
    s: P,
    ast: Vec<P>,
    sorts: Vec<P>,
    one: P,
    zero: P,
    pub queries: u64,
    pub nanos: u64,
}

pub enum R {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

impl Z {
    pub fn new() -> Z {
        unsafe {
            let k = CString::new("rlimit").unwrap();
            let v = CString::new("200000000").unwrap();
            Z3_global_param_set(k.as_ptr(), v.as_ptr());
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, on_err);
            let l = CString::new("QF_BV").unwrap();
            let sy = Z3_mk_string_symbol(c, l.as_ptr());
            let s = if std::env::args().any(|x| x == "--simple") { Z3_mk_simple_solver(c) } else { Z3_mk_solver_for_logic(c, sy) };
            Z3_solver_inc_ref(c, s);
            let mut z = Z { c, s, ast: vec![], sorts: vec![std::ptr::null_mut(); 130], one: std::ptr::null_mut(), zero: std::ptr::null_mut(), queries: 0, nanos: 0 };
            let b = z.sort(1);
            z.one = Z3_mk_unsigned_int64(c, 1, b);
            z.zero = Z3_mk_unsigned_int64(c, 0, b);
            z
        }
    }
    fn sort(&mut self, w: u32) -> P {
        if self.sorts[w as usize].is_null() {
            self.sorts[w as usize] = unsafe { Z3_mk_bv_sort(self.c, w) };
        }
        self.sorts[w as usize]
    }
    fn ast(&mut self, ar: &Arena, e: u32) -> P {
        let i = e as usize;
        if self.ast.len() <= i {
            self.ast.resize(ar.n.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.ast[i].is_null() {
            return self.ast[i];
        }
        let n = ar.n[i];
        let w = n.w as u32;
        let c = self.c;
        let r = unsafe {
            match n.op {
                E::Const => {
                    let v = ar.cval(e).unwrap();
                    let s = self.sort(w);
                    if v <= u64::MAX as u128 {
                        Z3_mk_unsigned_int64(c, v as u64, s)
                    } else {
                        let t = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                E::Var => {
                    let t = CString::new(format!("v{}_{}", n.a, w)).unwrap();
                    let sy = Z3_mk_string_symbol(c, t.as_ptr());
                    let s = self.sort(w);
                    Z3_mk_const(c, sy, s)
                }
                E::Extract => {
                    let a = self.ast(ar, n.a);
                    Z3_mk_extract(c, n.b + w - 1, n.b, a)
                }
                E::ZExt => {
                    let a = self.ast(ar, n.a);
                    Z3_mk_zero_ext(c, w - ar.w(n.a), a)
                }
                E::SExt => {
                    let a = self.ast(ar, n.a);
                    Z3_mk_sign_ext(c, w - ar.w(n.a), a)
                }
                E::Ite => {
                    let p = self.bool(ar, n.a);
                    let x = self.ast(ar, n.b);
                    let y = self.ast(ar, n.c);
                    Z3_mk_ite(c, p, x, y)
                }
                E::Eq | E::Ult | E::Ule | E::Slt | E::Sle => {
                    let p = self.bool(ar, e);
                    Z3_mk_ite(c, p, self.one, self.zero)
                }
                op => {
                    let a = self.ast(ar, n.a);
                    let b = self.ast(ar, n.b);
                    match op {
                        E::Add => Z3_mk_bvadd(c, a, b),
                        E::Sub => Z3_mk_bvsub(c, a, b),
                        E::Mul => Z3_mk_bvmul(c, a, b),
                        E::UDiv => Z3_mk_bvudiv(c, a, b),
                        E::URem => Z3_mk_bvurem(c, a, b),
                        E::SDiv => Z3_mk_bvsdiv(c, a, b),
                        E::SRem => Z3_mk_bvsrem(c, a, b),
                        E::And => Z3_mk_bvand(c, a, b),
                        E::Or => Z3_mk_bvor(c, a, b),
                        E::Xor => Z3_mk_bvxor(c, a, b),
                        E::Shl => Z3_mk_bvshl(c, a, b),
                        E::LShr => Z3_mk_bvlshr(c, a, b),
                        E::AShr => Z3_mk_bvashr(c, a, b),
                        E::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.ast[i] = r;
        r
    }
    fn bool(&mut self, ar: &Arena, e: u32) -> P {
        let n = ar.n[e as usize];
        let c = self.c;
        unsafe {
            match n.op {
                E::Eq | E::Ult | E::Ule | E::Slt | E::Sle => {
                    let a = self.ast(ar, n.a);
                    let b = self.ast(ar, n.b);
                    match n.op {
                        E::Eq => Z3_mk_eq(c, a, b),
                        E::Ult => Z3_mk_bvult(c, a, b),
                        E::Ule => Z3_mk_bvule(c, a, b),
                        E::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                _ => {
                    let a = self.ast(ar, e);
                    Z3_mk_eq(c, a, self.one)
                }
            }
        }
    }
    /// Is the conjunction satisfiable?  On sat returns values of all the
    /// variables occurring in it (indexed by variable number).
    pub fn check(&mut self, ar: &mut Arena, cs: &[u32]) -> R {
        let t0 = std::time::Instant::now();
        self.queries += 1;
        let mut vs = [0u64; 4];
        unsafe {
            Z3_solver_push(self.c, self.s);
            for &e in cs {
                let o = ar.vars(e);
                for i in 0..4 {
                    vs[i] |= o[i];
                }
                let b = self.bool(ar, e);
                Z3_solver_assert(self.c, self.s, b);
            }
            let r = Z3_solver_check(self.c, self.s);
            let res = if r == 1 {
                let m = Z3_solver_get_model(self.c, self.s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for i in 0..256usize {
                    if vs[i >> 6] >> (i & 63) & 1 == 1 {
                        out.resize(i + 1, 0u64);
                        let v = ar.var(i as u32, 64);
                        let a = self.ast(ar, v);
                        let mut r: P = std::ptr::null_mut();
                        if Z3_model_eval(self.c, m, a, true, &mut r) {
                            let mut x = 0u64;
                            if Z3_get_numeral_uint64(self.c, r, &mut x) {
                                out[i] = x;
                            }
                        }
                    }
                }
                Z3_model_dec_ref(self.c, m);
                R::Sat(out)
            } else if r == -1 {
                R::Unsat
            } else {
                R::Unknown
            };
            Z3_solver_pop(self.c, self.s, 1);
            self.nanos += t0.elapsed().as_nanos() as u64;
            res
        }
    }
}

