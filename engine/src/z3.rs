//! Minimal binding to the system libz3 (C API) and translation of expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};

type P = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_dec_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_error(_c: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::abort();
}

pub enum Res {
    Sat(Vec<(VarId, u64)>),
    Unsat,
    Unknown,
}

pub struct Z3 {
    ctx: P,
    solver: P,
    sorts: HashMap<u8, P>,
    nums: HashMap<(u128, u8), P>,
    /// bit-vector translation, and boolean translation of width-1 expressions
    bv: HashMap<E, P>,
    bl: HashMap<E, P>,
    params: P,
    since_reset: u32,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let params = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, params);
            let k = CString::new("timeout").unwrap();
            let k = Z3_mk_string_symbol(ctx, k.as_ptr());
            Z3_params_set_uint(ctx, params, k, timeout_ms);
            let mut z = Z3 {
                ctx,
                solver: std::ptr::null_mut(),
                sorts: HashMap::new(),
                nums: HashMap::new(),
                bv: HashMap::new(),
                bl: HashMap::new(),
                params,
                since_reset: 0,
            };
            z.reset();
            z
        }
    }

    fn reset(&mut self) {
        unsafe {
            if !self.solver.is_null() {
                Z3_solver_dec_ref(self.ctx, self.solver);
            }
            let l = CString::new("QF_BV").unwrap();
            let l = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.solver = Z3_mk_solver_for_logic(self.ctx, l);
            Z3_solver_inc_ref(self.ctx, self.solver);
            Z3_solver_set_params(self.ctx, self.solver, self.params);
            // an empty push makes the solver use its incremental core from the start
            Z3_solver_push(self.ctx, self.solver);
            self.since_reset = 0;
        }
    }

    fn sort(&mut self, w: u8) -> P {
        let ctx = self.ctx;
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = Z3_mk_bv_sort(ctx, w as c_uint);
            Z3_inc_ref(ctx, s);
            s
        })
    }

    fn num(&mut self, v: u128, w: u8) -> P {
        if let Some(&p) = self.nums.get(&(v, w)) {
            return p;
        }
        let s = self.sort(w);
        // in a reference-counted context only the latest result stays alive by itself
        let p = unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        };
        unsafe { Z3_inc_ref(self.ctx, p) };
        self.nums.insert((v, w), p);
        p
    }

    fn is_boolish(a: &Arena, e: E) -> bool {
        a.w(e) == 1
            && match a.n(e) {
                N::Cmp(..) | N::Const(_) => true,
                N::Bin(B::And | B::Or | B::Xor, ..) | N::Ite(..) => true,
                _ => false,
            }
    }

    pub fn bool(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.bl.get(&e) {
            return p;
        }
        debug_assert_eq!(a.w(e), 1);
        let c = self.ctx;
        let p = unsafe {
            match a.n(e) {
                N::Const(0) => Z3_mk_false(c),
                N::Const(_) => Z3_mk_true(c),
                N::Cmp(op, x, y) => {
                    if op == C::Eq && a.w(x) == 1 {
                        let (x, y) = (self.bool(a, x), self.bool(a, y));
                        Z3_mk_eq(c, x, y)
                    } else {
                        let (x, y) = (self.bv(a, x), self.bv(a, y));
                        match op {
                            C::Eq => Z3_mk_eq(c, x, y),
                            C::Ult => Z3_mk_bvult(c, x, y),
                            C::Ule => Z3_mk_bvule(c, x, y),
                            C::Slt => Z3_mk_bvslt(c, x, y),
                            C::Sle => Z3_mk_bvsle(c, x, y),
                        }
                    }
                }
                N::Bin(B::And, x, y) => {
                    let v = [self.bool(a, x), self.bool(a, y)];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                N::Bin(B::Or, x, y) => {
                    let v = [self.bool(a, x), self.bool(a, y)];
                    Z3_mk_or(c, 2, v.as_ptr())
                }
                N::Bin(B::Xor, x, y) => {
                    if a.k(y) == Some(1) {
                        let v = self.bool(a, x);
                        Z3_mk_not(c, v)
                    } else {
                        let (x, y) = (self.bool(a, x), self.bool(a, y));
                        Z3_mk_xor(c, x, y)
                    }
                }
                N::Ite(q, x, y) => {
                    let (q, x, y) = (self.bool(a, q), self.bool(a, x), self.bool(a, y));
                    Z3_mk_ite(c, q, x, y)
                }
                _ => {
                    let x = self.bv(a, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.bl.insert(e, p);
        p
    }

    pub fn bv(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.bv.get(&e) {
            return p;
        }
        let c = self.ctx;
        let w = a.w(e);
        let p = unsafe {
            if Self::is_boolish(a, e) && a.k(e).is_none() {
                let b = self.bool(a, e);
                let (o, z) = (self.num(1, 1), self.num(0, 1));
                Z3_mk_ite(c, b, o, z)
            } else {
                match a.n(e) {
                    N::Cmp(..) => unreachable!(),
                    N::Const(k) => self.num(k, w),
                    N::Var(v) => {
                        let s = self.sort(w);
                        let n = Z3_mk_int_symbol(c, v as c_int);
                        Z3_mk_const(c, n, s)
                    }
                    N::Bin(op, x, y) => {
                        let (x, y) = (self.bv(a, x), self.bv(a, y));
                        (match op {
                            B::Add => Z3_mk_bvadd,
                            B::Mul => Z3_mk_bvmul,
                            B::UDiv => Z3_mk_bvudiv,
                            B::SDiv => Z3_mk_bvsdiv,
                            B::URem => Z3_mk_bvurem,
                            B::SRem => Z3_mk_bvsrem,
                            B::And => Z3_mk_bvand,
                            B::Or => Z3_mk_bvor,
                            B::Xor => Z3_mk_bvxor,
                            B::Shl => Z3_mk_bvshl,
                            B::LShr => Z3_mk_bvlshr,
                            B::AShr => Z3_mk_bvashr,
                        })(c, x, y)
                    }
                    N::Ite(q, x, y) => {
                        let q = self.bool(a, q);
                        let (x, y) = (self.bv(a, x), self.bv(a, y));
                        Z3_mk_ite(c, q, x, y)
                    }
                    N::ZExt(x) => {
                        let d = w - a.w(x);
                        let x = self.bv(a, x);
                        Z3_mk_zero_ext(c, d as c_uint, x)
                    }
                    N::SExt(x) => {
                        let d = w - a.w(x);
                        let x = self.bv(a, x);
                        Z3_mk_sign_ext(c, d as c_uint, x)
                    }
                    N::Extract(x, lo) => {
                        let x = self.bv(a, x);
                        Z3_mk_extract(c, (lo + w - 1) as c_uint, lo as c_uint, x)
                    }
                    N::Concat(x, y) => {
                        let (x, y) = (self.bv(a, x), self.bv(a, y));
                        Z3_mk_concat(c, x, y)
                    }
                    N::Tab(t, x) => {
                        // ite chain grouped by value
                        let iw = a.w(x);
                        let px = self.bv(a, x);
                        let vals = a.tables[t as usize].vals.clone();
                        let mut groups: std::collections::BTreeMap<u64, Vec<u64>> = Default::default();
                        for (i, v) in vals.iter().enumerate() {
                            if *v != 0 {
                                groups.entry(*v).or_default().push(i as u64);
                            }
                        }
                        let mut r = self.num(0, w);
                        for (v, idx) in groups {
                            let mut ds = vec![];
                            // ranges
                            let mut i = 0;
                            while i < idx.len() {
                                let mut j = i;
                                while j + 1 < idx.len() && idx[j + 1] == idx[j] + 1 {
                                    j += 1;
                                }
                                let lo = self.num(idx[i] as u128, iw);
                                if i == j {
                                    let q = Z3_mk_eq(c, px, lo);
                                    Z3_inc_ref(c, q);
                                    ds.push(q);
                                } else {
                                    let hi = self.num(idx[j] as u128, iw);
                                    let l = Z3_mk_bvule(c, lo, px);
                                    Z3_inc_ref(c, l);
                                    let h = Z3_mk_bvule(c, px, hi);
                                    Z3_inc_ref(c, h);
                                    let v = [l, h];
                                    let q = Z3_mk_and(c, 2, v.as_ptr());
                                    Z3_inc_ref(c, q);
                                    ds.push(q);
                                }
                                i = j + 1;
                            }
                            let d = Z3_mk_or(c, ds.len() as c_uint, ds.as_ptr());
                            Z3_inc_ref(c, d);
                            let nv = self.num(v as u128, w);
                            r = Z3_mk_ite(c, d, nv, r);
                            Z3_inc_ref(c, r);
                        }
                        r
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(c, p) };
        self.bv.insert(e, p);
        p
    }

    /// Is the conjunction satisfiable?
    pub fn check(&mut self, a: &mut Arena, conj: &[E]) -> Res {
        self.since_reset += 1;
        if self.since_reset > 3000 {
            self.reset();
        }
        let mut vs: Vec<VarId> = vec![];
        let ps: Vec<P> = conj
            .iter()
            .map(|&e| {
                vs.extend(a.vars(e).iter());
                self.bool(a, e)
            })
            .collect();
        vs.sort();
        vs.dedup();
        unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for p in ps {
                Z3_solver_assert(self.ctx, self.solver, p);
            }
            let r = Z3_solver_check(self.ctx, self.solver);
            let res = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for v in vs {
                        let i = &a.varinfo[v as usize];
                        let (pos, w, name) = (i.pos, i.w, i.name.clone());
                        let (_, e) = a.var(pos, w, &name);
                        let t = self.bv(a, e);
                        let mut q: P = std::ptr::null_mut();
                        let ok = Z3_model_eval(self.ctx, m, t, true, &mut q);
                        assert!(ok);
                        Z3_inc_ref(self.ctx, q);
                        let mut val = 0u64;
                        assert!(Z3_get_numeral_uint64(self.ctx, q, &mut val));
                        Z3_dec_ref(self.ctx, q);
                        out.push((v, val));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            res
        }
    }
}
