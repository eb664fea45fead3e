//! Minimal FFI binding to libz3 and the translation of expressions to z3 terms.
use crate::expr::*;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_ast_to_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
}

pub struct Z3 {
    ctx: P,
    solver: P,
    cache: Vec<P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub var_widths: Vec<u32>,
    params: P,
    tmo: u32,
}

extern "C" fn on_err(_c: P, e: c_int) { eprintln!("(error z3 code {e})"); std::process::abort(); }

pub enum Res { Sat(Vec<(u32, u64)>), Unsat, Unknown }

impl Z3 {
    pub fn new(rlimit: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), rlimit);
            Z3_solver_set_params(ctx, solver, p);
            Z3 { ctx, solver, cache: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, var_widths: vec![], params: p, tmo: 0 }
        }
    }
    fn b2v(&self, b: P) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, 1);
            Z3_mk_ite(self.ctx, b, Z3_mk_unsigned_int64(self.ctx, 1, s), Z3_mk_unsigned_int64(self.ctx, 0, s))
        }
    }
    /// as bit-vector (width-1 nodes are Bool in z3)
    fn bv(&mut self, ar: &Arena, e: E) -> P { let t = self.tr(ar, e); if ar.w(e) == 1 { self.b2v(t) } else { t } }
    fn fs(&self, w: u32) -> P { unsafe { if w == 64 { Z3_mk_fpa_sort_64(self.ctx) } else { Z3_mk_fpa_sort_32(self.ctx) } } }
    fn fp(&mut self, ar: &Arena, e: E) -> P { let w = ar.w(e); let b = self.bv(ar, e); unsafe { Z3_mk_fpa_to_fp_bv(self.ctx, b, self.fs(w)) } }
    pub fn tr(&mut self, ar: &Arena, e: E) -> P {
        if self.cache.len() < ar.nodes.len() { self.cache.resize(ar.nodes.len(), std::ptr::null_mut()); }
        if !self.cache[e as usize].is_null() { return self.cache[e as usize]; }
        let c = self.ctx;
        let n = ar.n(e);
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.w == 1 { if n.imm == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } }
                    else {
                        let s = Z3_mk_bv_sort(c, n.w);
                        if n.w <= 64 { Z3_mk_unsigned_int64(c, n.imm as u64, s) } else { let t = CString::new(n.imm.to_string()).unwrap(); Z3_mk_numeral(c, t.as_ptr(), s) }
                    }
                }
                Op::Var => {
                    let i = n.a as usize;
                    if self.var_widths.len() <= i { self.var_widths.resize(i + 1, 0); }
                    self.var_widths[i] = n.w;
                    Z3_mk_const(c, Z3_mk_int_symbol(c, (n.a * 256 + n.w) as c_int), Z3_mk_bv_sort(c, n.w))
                }
                Op::And | Op::Or if n.w == 1 => { let v = [self.tr(ar, n.a), self.tr(ar, n.b)]; if n.op == Op::And { Z3_mk_and(c, 2, v.as_ptr()) } else { Z3_mk_or(c, 2, v.as_ptr()) } }
                Op::Xor if n.w == 1 => { if ar.cval(n.b) == Some(1) { let a = self.tr(ar, n.a); Z3_mk_not(c, a) } else { let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b)); Z3_mk_xor(c, a, b) } }
                Op::Eq => { let (a, b) = (self.tr(ar, n.a), self.tr(ar, n.b)); Z3_mk_eq(c, a, b) }
                Op::Ult => { let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b)); Z3_mk_bvult(c, a, b) }
                Op::Ule => { let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b)); let t = Z3_mk_bvult(c, b, a); Z3_mk_not(c, t) }
                Op::Slt => { let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b)); Z3_mk_bvslt(c, a, b) }
                Op::Sle => { let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b)); let t = Z3_mk_bvslt(c, b, a); Z3_mk_not(c, t) }
                Op::Ite => { let (x, a, b) = (self.tr(ar, n.a), self.tr(ar, n.b), self.tr(ar, n.c)); Z3_mk_ite(c, x, a, b) }
                Op::Concat => { let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b)); Z3_mk_concat(c, a, b) }
                Op::Extract => {
                    let a = self.bv(ar, n.a);
                    let x = Z3_mk_extract(c, n.imm as u32 + n.w - 1, n.imm as u32, a);
                    if n.w == 1 { let s = Z3_mk_bv_sort(c, 1); Z3_mk_eq(c, x, Z3_mk_unsigned_int64(c, 1, s)) } else { x }
                }
                Op::ZExt => { let a = self.bv(ar, n.a); Z3_mk_zero_ext(c, n.w - ar.w(n.a), a) }
                Op::SExt => { let a = self.bv(ar, n.a); Z3_mk_sign_ext(c, n.w - ar.w(n.a), a) }
                Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
                    let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b));
                    let rm = Z3_mk_fpa_rne(c);
                    let r = match n.op { Op::FAdd => Z3_mk_fpa_add(c, rm, a, b), Op::FSub => Z3_mk_fpa_sub(c, rm, a, b), Op::FMul => Z3_mk_fpa_mul(c, rm, a, b), _ => Z3_mk_fpa_div(c, rm, a, b) };
                    Z3_mk_fpa_to_ieee_bv(c, r)
                }
                Op::FEq => { let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b)); Z3_mk_fpa_eq(c, a, b) }
                Op::FLt => { let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b)); Z3_mk_fpa_lt(c, a, b) }
                Op::FLe => { let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b)); Z3_mk_fpa_leq(c, a, b) }
                Op::FUno => { let (a, b) = (self.fp(ar, n.a), self.fp(ar, n.b)); let v = [Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                Op::FNeg => { let a = self.bv(ar, n.a); let s = Z3_mk_bv_sort(c, n.w); Z3_mk_bvxor(c, a, Z3_mk_unsigned_int64(c, 1u64 << (n.w - 1), s)) }
                Op::FAbs => { let a = self.bv(ar, n.a); let s = Z3_mk_bv_sort(c, n.w); Z3_mk_bvand(c, a, Z3_mk_unsigned_int64(c, mask(n.w - 1) as u64, s)) }
                Op::UiToFp => { let a = self.bv(ar, n.a); let f = Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), a, self.fs(n.w)); Z3_mk_fpa_to_ieee_bv(c, f) }
                Op::SiToFp => { let a = self.bv(ar, n.a); let f = Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), a, self.fs(n.w)); Z3_mk_fpa_to_ieee_bv(c, f) }
                Op::FpToUi => { let a = self.fp(ar, n.a); Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), a, n.w) }
                Op::FpToSi => { let a = self.fp(ar, n.a); Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), a, n.w) }
                Op::FpExt | Op::FpTrunc => { let a = self.fp(ar, n.a); let f = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), a, self.fs(n.w)); Z3_mk_fpa_to_ieee_bv(c, f) }
                op => {
                    let (a, b) = (self.bv(ar, n.a), self.bv(ar, n.b));
                    let t = match op {
                        Op::Add => Z3_mk_bvadd(c, a, b), Op::Sub => Z3_mk_bvsub(c, a, b), Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b), Op::SDiv => Z3_mk_bvsdiv(c, a, b), Op::URem => Z3_mk_bvurem(c, a, b), Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b), Op::Or => Z3_mk_bvor(c, a, b), Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b), Op::LShr => Z3_mk_bvlshr(c, a, b), Op::AShr => Z3_mk_bvashr(c, a, b),
                        _ => unreachable!(),
                    };
                    if n.w == 1 { let s = Z3_mk_bv_sort(c, 1); Z3_mk_eq(c, t, Z3_mk_unsigned_int64(c, 1, s)) } else { t }
                }
            }
        };
        if self.cache.len() < ar.nodes.len() { self.cache.resize(ar.nodes.len(), std::ptr::null_mut()); }
        self.cache[e as usize] = r;
        r
    }
    /// Check satisfiability of a conjunction.
    pub fn check(&mut self, ar: &Arena, cs: &[E], ms: u32) -> Res {
        let t0 = std::time::Instant::now();
        // only the last queries before the deadline need a time-out of their own
        if ms < 60_000 && (self.tmo == 0 || ms + 2000 < self.tmo) {
            self.tmo = ms;
            unsafe { Z3_params_set_uint(self.ctx, self.params, Z3_mk_string_symbol(self.ctx, c"timeout".as_ptr()), ms); Z3_solver_set_params(self.ctx, self.solver, self.params); }
        }
        self.queries += 1;
        let mut sup = 0u128;
        let terms: Vec<P> = cs.iter().map(|&e| { sup |= ar.sup[e as usize]; self.tr(ar, e) }).collect();
        let r = unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for t in terms { Z3_solver_assert(self.ctx, self.solver, t); }
            let r = Z3_solver_check(self.ctx, self.solver);
            assert_eq!(Z3_get_error_code(self.ctx), 0);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, self.solver);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut v = vec![];
                    for i in 0..self.var_widths.len() {
                        if sup >> (i.min(127)) & 1 == 0 || self.var_widths[i] == 0 { continue; }
                        let w = self.var_widths[i];
                        let x = Z3_mk_const(self.ctx, Z3_mk_int_symbol(self.ctx, (i as u32 * 256 + w) as c_int), Z3_mk_bv_sort(self.ctx, w));
                        let mut o: P = std::ptr::null_mut();
                        assert!(Z3_model_eval(self.ctx, m, x, true, &mut o));
                        let mut u = 0u64;
                        assert!(Z3_get_numeral_uint64(self.ctx, o, &mut u));
                        v.push((i as u32, u));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    self.sat += 1;
                    Res::Sat(v)
                }
                -1 => { self.unsat += 1; Res::Unsat }
                _ => { self.unknown += 1; Res::Unknown }
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            out
        };
        self.time += t0.elapsed().as_secs_f64();
        r
    }
    #[allow(dead_code)]
    pub fn to_string(&mut self, ar: &Arena, e: E) -> String {
        let t = self.tr(ar, e);
        unsafe { std::ffi::CStr::from_ptr(Z3_ast_to_string(self.ctx, t)).to_string_lossy().into_owned() }
    }
}
