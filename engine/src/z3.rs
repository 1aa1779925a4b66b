//! Minimal binding to the Z3 C API and translation of expressions to bit-vector terms.
#![allow(non_camel_case_types, non_snake_case)]

use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_full_version() -> *const c_char;
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("irsym: Z3 reported error code {code}");
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub crosschecked: u64,
    pub time_s: f64,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}

pub struct Z3 {
    c: P,
    s: P,
    cache: HashMap<E, P, BuildFx>,
    doms: HashMap<(usize, Dom), P>,
    pub st: Stats,
}

impl Drop for Z3 {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let t = CString::new("timeout").unwrap();
            let sy = Z3_mk_string_symbol(c, t.as_ptr());
            Z3_params_set_uint(c, p, sy, timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3 { c, s, cache: HashMap::default(), doms: HashMap::default(), st: Stats::default() }
        }
    }
    unsafe fn keep(&self, a: P) -> P {
        Z3_inc_ref(self.c, a);
        a
    }
    unsafe fn num(&self, w: u8, k: u128) -> P {
        let so = Z3_mk_bv_sort(self.c, w as c_uint);
        let s = CString::new(k.to_string()).unwrap();
        Z3_mk_numeral(self.c, s.as_ptr(), so)
    }
    unsafe fn b2bv(&self, b: P) -> P {
        Z3_mk_ite(self.c, b, self.num(1, 1), self.num(1, 0))
    }
    pub fn term(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&p) = self.cache.get(&e) {
            return p;
        }
        let n = ar.node(e);
        let c = self.c;
        let p = unsafe {
            let r = match n.op {
                Op::Const => self.num(n.w, n.k),
                Op::Var => {
                    let so = Z3_mk_bv_sort(c, 8);
                    let s = CString::new(format!("b{}", n.k)).unwrap();
                    let sy = Z3_mk_string_symbol(c, s.as_ptr());
                    Z3_mk_const(c, sy, so)
                }
                Op::Tab => {
                    let v = self.term(ar, n.a);
                    let t = ar.tables[n.k as usize].clone();
                    // runs of equal values, as nested ites on upper bounds
                    let mut runs: Vec<(usize, u64)> = vec![];
                    for x in 0..256 {
                        match runs.last_mut() {
                            Some(l) if l.1 == t[x] => l.0 = x,
                            _ => runs.push((x, t[x])),
                        }
                    }
                    let mut acc = self.num(n.w, runs.last().unwrap().1 as u128);
                    for &(hi, val) in runs.iter().rev().skip(1) {
                        let cnd = Z3_mk_bvule(c, v, self.num(8, hi as u128));
                        acc = Z3_mk_ite(c, cnd, self.num(n.w, val as u128), acc);
                    }
                    acc
                }
                Op::Ite => {
                    let a = self.term(ar, n.a);
                    let b = self.term(ar, n.b);
                    let d = self.term(ar, n.c);
                    let cnd = Z3_mk_eq(c, a, self.num(1, 1));
                    Z3_mk_ite(c, cnd, b, d)
                }
                Op::ZExt => {
                    let a = self.term(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.term(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::Ext => {
                    let a = self.term(ar, n.a);
                    let lo = n.k as c_uint;
                    Z3_mk_extract(c, lo + n.w as c_uint - 1, lo, a)
                }
                Op::Cat => {
                    let a = self.term(ar, n.a);
                    let b = self.term(ar, n.b);
                    Z3_mk_concat(c, a, b)
                }
                op => {
                    let a = self.term(ar, n.a);
                    let b = self.term(ar, n.b);
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Eq => self.b2bv(Z3_mk_eq(c, a, b)),
                        Op::Ult => self.b2bv(Z3_mk_bvult(c, a, b)),
                        Op::Ule => self.b2bv(Z3_mk_bvule(c, a, b)),
                        Op::Slt => self.b2bv(Z3_mk_bvslt(c, a, b)),
                        Op::Sle => self.b2bv(Z3_mk_bvsle(c, a, b)),
                        _ => unreachable!(),
                    }
                }
            };
            self.keep(r)
        };
        self.cache.insert(e, p);
        p
    }
    fn dom_term(&mut self, ar: &Arena, v: usize, d: &Dom) -> P {
        if let Some(&p) = self.doms.get(&(v, *d)) {
            return p;
        }
        let x = self.term(ar, ar.vars[v]);
        let c = self.c;
        let p = unsafe {
            let mut alts: Vec<P> = vec![];
            let mut i = 0usize;
            while i < 256 {
                if dom_has(d, i) {
                    let mut j = i;
                    while j + 1 < 256 && dom_has(d, j + 1) {
                        j += 1;
                    }
                    if i == j {
                        alts.push(Z3_mk_eq(c, x, self.num(8, i as u128)));
                    } else {
                        let l = Z3_mk_bvule(c, self.num(8, i as u128), x);
                        let h = Z3_mk_bvule(c, x, self.num(8, j as u128));
                        let lh = [l, h];
                        alts.push(Z3_mk_and(c, 2, lh.as_ptr()));
                    }
                    i = j + 1;
                } else {
                    i += 1;
                }
            }
            let r = if alts.is_empty() {
                Z3_mk_not(c, Z3_mk_true(c))
            } else {
                Z3_mk_or(c, alts.len() as c_uint, alts.as_ptr())
            };
            self.keep(r)
        };
        self.doms.insert((v, *d), p);
        p
    }
    /// satisfiability of domains ∧ constraints ∧ (query == val); on Sat optionally a model for `vars`
    pub fn check(
        &mut self,
        ar: &Arena,
        doms: &[(usize, Dom)],
        cons: &[(E, bool)],
        model: Option<&mut Vec<(usize, u8)>>,
    ) -> Res {
        let t0 = Instant::now();
        let c = self.c;
        let r = unsafe {
            Z3_solver_push(c, self.s);
            for (v, d) in doms {
                let p = self.dom_term(ar, *v, d);
                Z3_solver_assert(c, self.s, p);
            }
            for (e, val) in cons {
                let t = self.term(ar, *e);
                let q = Z3_mk_eq(c, t, self.num(1, *val as u128));
                Z3_solver_assert(c, self.s, q);
            }
            let r = Z3_solver_check(c, self.s);
            let r = match r {
                1 => {
                    if let Some(m) = model {
                        let mo = Z3_solver_get_model(c, self.s);
                        Z3_model_inc_ref(c, mo);
                        m.clear();
                        for (v, _) in doms {
                            let x = self.term(ar, ar.vars[*v]);
                            let mut out: P = std::ptr::null_mut();
                            let mut val = 0u64;
                            if Z3_model_eval(c, mo, x, true, &mut out) {
                                Z3_inc_ref(c, out);
                                Z3_get_numeral_uint64(c, out, &mut val);
                            }
                            m.push((*v, val as u8));
                        }
                        Z3_model_dec_ref(c, mo);
                    }
                    Res::Sat
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(c, self.s, 1);
            if Z3_get_error_code(c) != 0 {
                eprintln!("irsym: Z3 error");
                std::process::exit(3);
            }
            r
        };
        self.st.queries += 1;
        match r {
            Res::Sat => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            _ => {}
        }
        self.st.time_s += t0.elapsed().as_secs_f64();
        r
    }
}
