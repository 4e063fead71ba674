//! Z3 (C API) back end: one incremental QF_BV solver, terms cached per expression id.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_sort_to_ast(c: P, s: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
}

pub struct Solver {
    c: P,
    s: P,
    bv: Vec<P>,
    bl: Vec<P>,
    sorts: HashMap<u32, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub cache: HashMap<Vec<Id>, Option<Vec<(u32, u8)>>>,
    pub cache_hits: u64,
    pub dump: bool,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context_rc(cfg);
            let l = CString::new("QF_BV").unwrap();
            let ls = Z3_mk_string_symbol(c, l.as_ptr());
            let s = Z3_mk_solver_for_logic(c, ls);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let tk = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, tk.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                bv: vec![],
                bl: vec![],
                sorts: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                cache: HashMap::new(),
                cache_hits: 0,
                dump: std::env::var("RSYM_SLOW").is_ok(),
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, Z3_sort_to_ast(c, s));
            s
        })
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        let s = CString::new(v.to_string()).unwrap();
        let so = self.sort(w);
        unsafe {
            let n = Z3_mk_numeral(self.c, s.as_ptr(), so);
            Z3_inc_ref(self.c, n);
            n
        }
    }
    fn grow(&mut self, n: usize) {
        if self.bv.len() < n {
            self.bv.resize(n + 1024, std::ptr::null_mut());
            self.bl.resize(n + 1024, std::ptr::null_mut());
        }
    }
    /// width-1 expression as a Bool
    fn tb(&mut self, e: &Ex, id: Id) -> P {
        self.grow(e.n.len());
        if !self.bl[id as usize].is_null() {
            return self.bl[id as usize];
        }
        let n = e.n[id as usize];
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if e.cv(id) == Some(1) {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.tb(e, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And | Op::Mul | Op::Or => {
                    let a = [self.tb(e, n.a), self.tb(e, n.b)];
                    if n.op == Op::Or {
                        Z3_mk_or(c, 2, a.as_ptr())
                    } else {
                        Z3_mk_and(c, 2, a.as_ptr())
                    }
                }
                Op::Xor | Op::Add | Op::Sub => {
                    let (a, b) = (self.tb(e, n.a), self.tb(e, n.b));
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let (a, b, d) = (self.tb(e, n.a), self.tb(e, n.b), self.tb(e, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq => {
                    if e.w(n.a) == 1 {
                        let (a, b) = (self.tb(e, n.a), self.tb(e, n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.t(e, n.a), self.t(e, n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult => {
                    let (a, b) = (self.t(e, n.a), self.t(e, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.t(e, n.a), self.t(e, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                _ => {
                    let a = self.t(e, id);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bl[id as usize] = r;
        r
    }
    fn t(&mut self, e: &Ex, id: Id) -> P {
        self.grow(e.n.len());
        if !self.bv[id as usize].is_null() {
            return self.bv[id as usize];
        }
        let n = e.n[id as usize];
        let c = self.c;
        let boolish = n.w == 1 && !matches!(n.op, Op::Const | Op::Extract | Op::SExt | Op::Concat | Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::SDiv | Op::URem | Op::SRem);
        let r = if boolish {
            let b = self.tb(e, id);
            let (o, z) = (self.num(1, 1), self.num(0, 1));
            unsafe { Z3_mk_ite(c, b, o, z) }
        } else {
            self.t_raw(e, id)
        };
        unsafe { Z3_inc_ref(c, r) };
        self.bv[id as usize] = r;
        r
    }
    fn t_raw(&mut self, e: &Ex, id: Id) -> P {
        let n = e.n[id as usize];
        let c = self.c;
        unsafe {
            match n.op {
                Op::Const => self.num(e.cv(id).unwrap(), n.w as u32),
                Op::Var => {
                    let s = CString::new(format!("b{}", n.a)).unwrap();
                    let so = self.sort(8);
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), so)
                }
                Op::Ite => {
                    let g = self.tb(e, n.a);
                    let (a, b) = (self.t(e, n.b), self.t(e, n.c));
                    Z3_mk_ite(c, g, a, b)
                }
                Op::Extract => {
                    let a = self.t(e, n.a);
                    Z3_mk_extract(c, n.b + n.w as u32 - 1, n.b, a)
                }
                Op::SExt => {
                    let a = self.t(e, n.a);
                    Z3_mk_sign_ext(c, n.w as u32 - e.w(n.a), a)
                }
                op => {
                    let (a, b) = (self.t(e, n.a), self.t(e, n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => panic!("t_raw {:?}", op),
                    }
                }
            }
        }
    }
    /// Does every assignment that satisfies `root` satisfy one of `leaves` (conjunctions)?
    /// Some(true) if the solver shows it, Some(false) if it refutes it, None if it gives up.
    pub fn covered(&mut self, e: &Ex, root: &[Id], leaves: &[Vec<Id>], timeout_ms: u32) -> Option<bool> {
        let t0 = Instant::now();
        self.queries += 1;
        let c = self.c;
        let r = unsafe {
            let l = CString::new("QF_BV").unwrap();
            let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let tk = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, tk.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            Z3_params_dec_ref(c, p);
            for &x in root {
                let t = self.tb(e, x);
                Z3_solver_assert(c, s, t);
            }
            for l in leaves {
                let ts: Vec<P> = l.iter().map(|&x| self.tb(e, x)).collect();
                let a = Z3_mk_and(c, ts.len() as c_uint, ts.as_ptr());
                Z3_inc_ref(c, a);
                let n = Z3_mk_not(c, a);
                Z3_inc_ref(c, n);
                Z3_solver_assert(c, s, n);
                Z3_dec_ref(c, n);
                Z3_dec_ref(c, a);
            }
            let r = Z3_solver_check(c, s);
            Z3_solver_dec_ref(c, s);
            r
        };
        self.time += t0.elapsed().as_secs_f64();
        match r {
            1 => {
                self.sat += 1;
                Some(false)
            }
            -1 => {
                self.unsat += 1;
                Some(true)
            }
            _ => None,
        }
    }
    /// Is the conjunction satisfiable? Some(assignment of the support) / None; Err on unknown.
    pub fn check(&mut self, e: &Ex, conj: &[Id]) -> Result<Option<Vec<(u32, u8)>>, String> {
        let mut key = conj.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return Ok(r.clone());
        }
        let t0 = Instant::now();
        self.queries += 1;
        let c = self.c;
        let r = unsafe {
            let ts: Vec<P> = key.iter().map(|&x| self.tb(e, x)).collect();
            Z3_solver_push(c, self.s);
            for t in ts {
                Z3_solver_assert(c, self.s, t);
            }
            if let Ok(f) = std::env::var("RSYM_LASTQ") {
                let mut o = String::new();
                for &k in &key {
                    o += &format!("{}\n", e.show(k));
                }
                let _ = std::fs::write(f, o);
            }
            let r = Z3_solver_check(c, self.s);
            let res = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut vars: Vec<u32> = key.iter().flat_map(|&x| e.support(x).iter().copied()).collect();
                    vars.sort();
                    vars.dedup();
                    let mut out = vec![];
                    for v in vars {
                        let s = CString::new(format!("b{}", v)).unwrap();
                        let so = self.sort(8);
                        let a = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), so);
                        Z3_inc_ref(c, a);
                        let mut val: P = std::ptr::null_mut();
                        Z3_model_eval(c, m, a, true, &mut val);
                        let mut u = 0u64;
                        Z3_get_numeral_uint64(c, val, &mut u);
                        out.push((v, u as u8));
                    }
                    Z3_model_dec_ref(c, m);
                    Ok(Some(out))
                }
                -1 => {
                    self.unsat += 1;
                    Ok(None)
                }
                _ => {
                    self.unknown += 1;
                    Err("solver returned unknown (timeout)".to_string())
                }
            };
            Z3_solver_pop(c, self.s, 1);
            if self.queries % 20000 == 0 {
                Z3_solver_reset(c, self.s);
            }
            res
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if self.dump && dt > 0.003 {
            eprintln!("SLOW {:.1}ms {}", dt * 1e3, r.as_ref().map(|x| x.is_some()).unwrap_or(false));
            for &k in &key {
                eprintln!("   {}", e.show(k).chars().take(600).collect::<String>());
            }
        }
        if let Ok(x) = &r {
            if self.cache.len() > 400_000 {
                self.cache.clear();
            }
            self.cache.insert(key, x.clone());
        }
        r
    }
}
