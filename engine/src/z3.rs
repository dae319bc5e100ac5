//! Thin FFI to libz3 plus an exact-query cache over independent slices.
use crate::expr::*;
use std::ffi::c_void;
use std::os::raw::{c_char, c_int, c_uint};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_del_context(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_iff(c: P, a: P, b: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, compl: bool, out: *mut P) -> bool;
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_get_numeral_uint64(c: P, a: P, v: *mut u64) -> bool;
}

pub type Model = Rc<Vec<(u32, u8)>>;

#[derive(Default, Clone)]
pub struct SolverStats {
    pub queries: u64,
    pub z3_calls: u64,
    pub sat: u64,
    pub unsat: u64,
    pub solver_ns: u64,
    pub unknown: u64,
    pub max_ns: u64,
}

pub struct Solver {
    ctx: P,
    solver: P,
    solver2: P,
    ast: Vec<P>,  // as bit-vector
    bast: Vec<P>, // as bool (width 1)
    cache: FxMap<Vec<E>, Option<Model>>,
    pub st: SolverStats,
    /// print queries that take longer (milliseconds, STARRY_SLOW)
    slow: Option<u64>,
}

impl Solver {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            // a query that takes longer is reported as undecided
            Z3_set_param_value(cfg, b"timeout\0".as_ptr() as *const c_char, b"120000\0".as_ptr() as *const c_char);
            let ctx = Z3_mk_context(cfg);
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let sy = Z3_mk_string_symbol(ctx, b"QF_BV\0".as_ptr() as *const c_char);
            let solver2 = Z3_mk_solver_for_logic(ctx, sy);
            Z3_solver_inc_ref(ctx, solver2);
            Solver { ctx, solver, solver2, ast: vec![], bast: vec![], cache: Default::default(), st: Default::default(), slow: std::env::var("STARRY_SLOW").ok().and_then(|x| x.parse().ok()) }
        }
    }
    pub fn reset(&mut self) {
        let st = std::mem::take(&mut self.st);
        unsafe { Z3_del_context(self.ctx) };
        *self = Solver::new();
        self.st = st;
    }

    fn keep(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, p) };
        p
    }

    fn bv(&mut self, ar: &Arena, e: E) -> P {
        if self.ast.len() <= e as usize {
            self.ast.resize(ar.nodes.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.ast[e as usize].is_null() {
            return self.ast[e as usize];
        }
        let n = ar.n(e);
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    let ty = Z3_mk_bv_sort(c, n.w as c_uint);
                    if n.k >> 64 == 0 {
                        Z3_mk_unsigned_int64(c, n.k as u64, ty)
                    } else {
                        let s = format!("{}\0", n.k);
                        Z3_mk_numeral(c, s.as_ptr() as *const c_char, ty)
                    }
                }
                Op::Var => {
                    let ty = Z3_mk_bv_sort(c, 8);
                    let s = Z3_mk_int_symbol(c, n.k as c_int);
                    Z3_mk_const(c, s, ty)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(ar, e);
                    let ty = Z3_mk_bv_sort(c, 1);
                    let one = Z3_mk_unsigned_int64(c, 1, ty);
                    let zero = Z3_mk_unsigned_int64(c, 0, ty);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Not => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Ite => {
                    let a = self.boolean(ar, n.a);
                    let b = self.bv(ar, n.b);
                    let d = self.bv(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::ZExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_zero_ext(c, n.w as u32 - ar.w(n.a), a)
                }
                Op::SExt => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_sign_ext(c, n.w as u32 - ar.w(n.a), a)
                }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    Z3_mk_extract(c, n.k as u32 + n.w as u32 - 1, n.k as u32, a)
                }
                Op::Concat => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    Z3_mk_concat(c, a, b)
                }
                _ => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        let p = self.keep(p);
        self.ast[e as usize] = p;
        p
    }

    fn boolean(&mut self, ar: &Arena, e: E) -> P {
        if self.bast.len() <= e as usize {
            self.bast.resize(ar.nodes.len().max(e as usize + 1), std::ptr::null_mut());
        }
        if !self.bast[e as usize].is_null() {
            return self.bast[e as usize];
        }
        let n = ar.n(e);
        assert!(n.w == 1, "boolean of width {}", n.w);
        let c = self.ctx;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.boolean(ar, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And | Op::Or => {
                    let v = [self.boolean(ar, n.a), self.boolean(ar, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let a = self.boolean(ar, n.a);
                    let b = self.boolean(ar, n.b);
                    Z3_mk_xor(c, a, b)
                }
                Op::Ite => {
                    let a = self.boolean(ar, n.a);
                    let b = self.boolean(ar, n.b);
                    let d = self.boolean(ar, n.c);
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Eq if ar.w(n.a) == 1 => {
                    let a = self.boolean(ar, n.a);
                    let b = self.boolean(ar, n.b);
                    Z3_mk_iff(c, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.bv(ar, n.a);
                    let b = self.bv(ar, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                _ => {
                    let a = self.bv(ar, e);
                    let ty = Z3_mk_bv_sort(c, 1);
                    let one = Z3_mk_unsigned_int64(c, 1, ty);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        let p = self.keep(p);
        self.bast[e as usize] = p;
        p
    }

    /// Is `slice ∧ goal` satisfiable?  Returns values for the variables involved.
    /// Err = solver answered unknown.
    pub fn check(&mut self, ar: &mut Arena, slice: &[E], goal: E) -> Result<Option<Model>, ()> {
        self.st.queries += 1;
        if let Some(k) = ar.as_const(goal) {
            if k == 0 {
                self.st.unsat += 1;
                return Ok(None);
            }
        }
        let mut key: Vec<E> = slice.to_vec();
        key.sort();
        key.dedup();
        key.push(goal);
        if let Some(r) = self.cache.get(&key) {
            if r.is_some() {
                self.st.sat += 1
            } else {
                self.st.unsat += 1
            }
            return Ok(r.clone());
        }
        let t = Instant::now();
        let mut vars: Vec<u32> = vec![];
        for &e in &key {
            vars.extend(ar.vars_of(e).iter());
        }
        vars.sort();
        vars.dedup();
        let asts: Vec<P> = key.iter().map(|&e| self.boolean(ar, e)).collect();
        let s = self.solver2;
        let c = self.ctx;
        let res;
        unsafe {
            Z3_solver_push(c, s);
            for a in asts {
                Z3_solver_assert(c, s, a);
            }
            let r = Z3_solver_check(c, s);
            self.st.z3_calls += 1;
            res = if r == 1 {
                let m = Z3_solver_get_model(c, s);
                Z3_model_inc_ref(c, m);
                let mut out = vec![];
                for v in &vars {
                    let ve = ar.var(*v);
                    let va = self.bv(ar, ve);
                    let mut o: P = std::ptr::null_mut();
                    let ok = Z3_model_eval(c, m, va, true, &mut o);
                    assert!(ok);
                    Z3_inc_ref(c, o);
                    let mut x: u64 = 0;
                    assert!(Z3_get_numeral_uint64(c, o, &mut x));
                    Z3_dec_ref(c, o);
                    out.push((*v, x as u8));
                }
                Z3_model_dec_ref(c, m);
                self.st.sat += 1;
                Ok(Some(Rc::new(out)))
            } else if r == -1 {
                self.st.unsat += 1;
                Ok(None)
            } else {
                self.st.unknown += 1;
                Err(())
            };
            Z3_solver_pop(c, s, 1);
        }
        let ns = t.elapsed().as_nanos() as u64;
        self.st.solver_ns += ns;
        self.st.max_ns = self.st.max_ns.max(ns);
        if let Some(ms) = self.slow {
            if ns > ms * 1_000_000 {
                eprintln!("slow query: {} ms {}", ns / 1_000_000, if matches!(res, Ok(None)) { "unsat" } else { "sat" });
                for &e in &key {
                    eprintln!("  {}", ar.show(e, 14));
                }
            }
        }
        if let Ok(Some(m)) = &res {
            // the model must satisfy the query under our own evaluator
            let mut memo = Default::default();
            let f = |v: u32| m.iter().find(|x| x.0 == v).map_or(0, |x| x.1);
            for &e in &key {
                assert!(ar.eval(e, &f, &mut memo) == 1, "solver model rejected by evaluator");
            }
        }
        if let Ok(r) = &res {
            self.cache.insert(key, r.clone());
        }
        res
    }
}
