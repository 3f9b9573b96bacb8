//! Minimal FFI to libz3 and translation of expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
type P = *mut c_void;
type ErrH = extern "C" fn(P, c_int);
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: ErrH);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_rem(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, t: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, t: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_geq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_numeral_double(c: P, v: f64, t: P) -> P;
    fn Z3_get_full_version() -> *const c_char;
}
extern "C" fn onerr(_c: P, e: c_int) { eprintln!("z3 error {}", e); }

pub enum Res { Sat(Vec<(u32, u128)>), Unsat, Unknown }

pub struct Z3 {
    c: P,
    solver: P,
    solver_fp: P,
    ast: Vec<P>, // memo by node, bool sort for width 1
    pub vars: Vec<P>,
    isfp: Vec<bool>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_q: f64,
}
pub fn version() -> String { unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into() } }

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, onerr);
            let mks = |l: &str| {
                let s = CString::new(l).unwrap();
                let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, s.as_ptr()));
                Z3_solver_inc_ref(c, s);
                let p = Z3_mk_params(c);
                Z3_params_inc_ref(c, p);
                let k = CString::new("timeout").unwrap();
                Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
                Z3_solver_set_params(c, s, p);
                s
            };
            let solver = mks("QF_BV");
            let solver_fp = mks("QF_FPBV");
            Z3 { c, solver, solver_fp, ast: vec![], vars: vec![], isfp: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, max_q: 0.0 }
        }
    }
    unsafe fn sort(&self, w: u32) -> P { Z3_mk_bv_sort(self.c, w) }
    unsafe fn as_bv(&mut self, ar: &Arena, e: E) -> P {
        let a = self.tr(ar, e);
        if ar.w(e) == 1 {
            let s = self.sort(1);
            let one = Z3_mk_unsigned_int64(self.c, 1, s);
            let zero = Z3_mk_unsigned_int64(self.c, 0, s);
            Z3_mk_ite(self.c, a, one, zero)
        } else { a }
    }
    unsafe fn fp(&mut self, ar: &Arena, e: E) -> P {
        let b = self.as_bv(ar, e);
        let s = if ar.w(e) == 32 { Z3_mk_fpa_sort_single(self.c) } else { Z3_mk_fpa_sort_double(self.c) };
        Z3_mk_fpa_to_fp_bv(self.c, b, s)
    }
    unsafe fn knum(&self, v: u128, w: u32) -> P {
        let s = self.sort(w);
        if w <= 64 { Z3_mk_unsigned_int64(self.c, v as u64, s) } else { let t = CString::new(format!("{}", v)).unwrap(); Z3_mk_numeral(self.c, t.as_ptr(), s) }
    }
    fn setast(&mut self, e: E, a: P, fp: bool) {
        if self.ast.len() <= e as usize { self.ast.resize(e as usize + 1024, std::ptr::null_mut()); self.isfp.resize(e as usize + 1024, false); }
        self.ast[e as usize] = a;
        self.isfp[e as usize] = fp;
    }
    unsafe fn tr(&mut self, ar: &Arena, e: E) -> P {
        if let Some(&a) = self.ast.get(e as usize) { if !a.is_null() { return a; } }
        let n = ar.nodes[e as usize];
        let w = n.w as u32;
        let c = self.c;
        let mut isfp = false;
        let r = match n.op {
            Op::Const => { let v = ar.consts[n.a as usize]; if w == 1 { if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.knum(v, w) } }
            Op::Var => {
                let nm = CString::new(format!("v{}", n.a)).unwrap();
                let s = self.sort(w);
                let a = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s);
                while self.vars.len() <= n.a as usize { self.vars.push(std::ptr::null_mut()); }
                self.vars[n.a as usize] = a;
                if w == 1 { let one = self.knum(1, 1); Z3_mk_eq(c, a, one) } else { a }
            }
            Op::Eq => { let x = self.tr(ar, n.a); let y = self.tr(ar, n.b); Z3_mk_eq(c, x, y) }
            Op::Ite => { let k = self.tr(ar, n.a); let x = self.tr(ar, n.b); let y = self.tr(ar, n.c); Z3_mk_ite(c, k, x, y) }
            Op::Not => { let x = self.tr(ar, n.a); if w == 1 { Z3_mk_not(c, x) } else { Z3_mk_bvnot(c, x) } }
            Op::And | Op::Or | Op::Xor if w == 1 => {
                let x = self.tr(ar, n.a);
                let y = self.tr(ar, n.b);
                let v = [x, y];
                match n.op { Op::And => Z3_mk_and(c, 2, v.as_ptr()), Op::Or => Z3_mk_or(c, 2, v.as_ptr()), _ => Z3_mk_xor(c, x, y) }
            }
            Op::ZExt => { let x = self.as_bv(ar, n.a); Z3_mk_zero_ext(c, w - ar.w(n.a), x) }
            Op::SExt => { let x = self.as_bv(ar, n.a); Z3_mk_sign_ext(c, w - ar.w(n.a), x) }
            Op::Extract => { let x = self.as_bv(ar, n.a); let r = Z3_mk_extract(c, n.b, n.c, x); if w == 1 { let one = self.knum(1, 1); Z3_mk_eq(c, r, one) } else { r } }
            Op::Concat => { let x = self.as_bv(ar, n.a); let y = self.as_bv(ar, n.b); Z3_mk_concat(c, x, y) }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
                isfp = true;
                let x = self.fp(ar, n.a);
                let y = self.fp(ar, n.b);
                let rm = Z3_mk_fpa_rne(c);
                let r = match n.op { Op::FAdd => Z3_mk_fpa_add(c, rm, x, y), Op::FSub => Z3_mk_fpa_sub(c, rm, x, y), Op::FMul => Z3_mk_fpa_mul(c, rm, x, y), Op::FDiv => Z3_mk_fpa_div(c, rm, x, y), _ => Z3_mk_fpa_rem(c, x, y) };
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FToSi | Op::FToUi => {
                isfp = true;
                // saturating: NaN -> 0, below -> min, above -> max
                let x = self.fp(ar, n.a);
                let s = if ar.w(n.a) == 32 { Z3_mk_fpa_sort_single(c) } else { Z3_mk_fpa_sort_double(c) };
                let signed = n.op == Op::FToSi;
                let rm = Z3_mk_fpa_rtz(c);
                let conv = if signed { Z3_mk_fpa_to_sbv(c, rm, x, w) } else { Z3_mk_fpa_to_ubv(c, rm, x, w) };
                let (lo, hi): (f64, f64) = if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                let fl = Z3_mk_fpa_numeral_double(c, lo, s);
                let fh = Z3_mk_fpa_numeral_double(c, hi, s);
                let (kl, kh) = if signed { (1u128 << (w - 1), mask(w) >> 1) } else { (0, mask(w)) };
                let (kl, kh, z) = (self.knum(kl, w), self.knum(kh, w), self.knum(0, w));
                let r = Z3_mk_ite(c, Z3_mk_fpa_geq(c, x, fh), kh, conv);
                let r = Z3_mk_ite(c, Z3_mk_fpa_lt(c, x, fl), kl, r);
                Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, x), z, r)
            }
            Op::UiToF | Op::SiToF => {
                isfp = true;
                let x = self.as_bv(ar, n.a);
                let s = if w == 32 { Z3_mk_fpa_sort_single(c) } else { Z3_mk_fpa_sort_double(c) };
                let rm = Z3_mk_fpa_rne(c);
                let r = if n.op == Op::SiToF { Z3_mk_fpa_to_fp_signed(c, rm, x, s) } else { Z3_mk_fpa_to_fp_unsigned(c, rm, x, s) };
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FExt | Op::FTrunc => {
                isfp = true;
                let x = self.fp(ar, n.a);
                let s = if w == 32 { Z3_mk_fpa_sort_single(c) } else { Z3_mk_fpa_sort_double(c) };
                let r = Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), x, s);
                Z3_mk_fpa_to_ieee_bv(c, r)
            }
            Op::FRound => {
                isfp = true;
                let x = self.fp(ar, n.a);
                let rm = match n.b { 0 => Z3_mk_fpa_rna(c), 1 => Z3_mk_fpa_rtn(c), 2 => Z3_mk_fpa_rtp(c), 3 => Z3_mk_fpa_rtz(c), _ => Z3_mk_fpa_rne(c) };
                Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rm, x))
            }
            _ => {
                let x = self.as_bv(ar, n.a);
                let y = self.as_bv(ar, n.b);
                match n.op {
                    Op::Add => Z3_mk_bvadd(c, x, y), Op::Sub => Z3_mk_bvsub(c, x, y), Op::Mul => Z3_mk_bvmul(c, x, y),
                    Op::UDiv => Z3_mk_bvudiv(c, x, y), Op::SDiv => Z3_mk_bvsdiv(c, x, y), Op::URem => Z3_mk_bvurem(c, x, y), Op::SRem => Z3_mk_bvsrem(c, x, y),
                    Op::And => Z3_mk_bvand(c, x, y), Op::Or => Z3_mk_bvor(c, x, y), Op::Xor => Z3_mk_bvxor(c, x, y),
                    Op::Shl => Z3_mk_bvshl(c, x, y), Op::LShr => Z3_mk_bvlshr(c, x, y), Op::AShr => Z3_mk_bvashr(c, x, y),
                    Op::Ult => Z3_mk_bvult(c, x, y), Op::Ule => Z3_mk_bvule(c, x, y), Op::Slt => Z3_mk_bvslt(c, x, y), Op::Sle => Z3_mk_bvsle(c, x, y),
                    _ => unreachable!(),
                }
            }
        };
        if !isfp {
            let kids: [u32; 3] = match n.op { Op::Const | Op::Var => [e; 3], Op::Ite => [n.a, n.b, n.c], Op::Not | Op::ZExt | Op::SExt | Op::Extract => [n.a; 3], _ => [n.a, n.b, n.b] };
            isfp = kids.iter().any(|&k| k != e && self.isfp.get(k as usize).copied().unwrap_or(false));
        }
        self.setast(e, r, isfp);
        r
    }
    /// vars: ids whose values are wanted in the model
    pub fn check(&mut self, ar: &Arena, cs: &[E], vars: &[u32]) -> Res {
        self.queries += 1;
        let t0 = std::time::Instant::now();
        let r = unsafe {
            let asts: Vec<P> = cs.iter().map(|&e| self.tr(ar, e)).collect();
            let fp = cs.iter().any(|&e| self.isfp.get(e as usize).copied().unwrap_or(false));
            let s = if fp { self.solver_fp } else { self.solver };
            if fp { Z3_solver_reset(self.c, s); } else { Z3_solver_push(self.c, s); }
            for a in asts { Z3_solver_assert(self.c, s, a); }
            let r = Z3_solver_check(self.c, s);
            let err = Z3_get_error_code(self.c);
            let out = if err != 0 { Res::Unknown } else if r == 1 {
                let m = Z3_solver_get_model(self.c, s);
                Z3_model_inc_ref(self.c, m);
                let mut out = vec![];
                for &v in vars {
                    let Some(&a) = self.vars.get(v as usize) else { continue };
                    if a.is_null() { continue; }
                    let mut val: P = std::ptr::null_mut();
                    let w = ar.varw[v as usize] as u32;
                    if Z3_model_eval(self.c, m, a, true, &mut val) {
                        let mut u = 0u64;
                        if w <= 64 { Z3_get_numeral_uint64(self.c, val, &mut u); out.push((v, u as u128)); }
                    }
                }
                Z3_model_dec_ref(self.c, m);
                Res::Sat(out)
            } else if r == -1 { Res::Unsat } else { Res::Unknown };
            if !fp { Z3_solver_pop(self.c, s, 1); }
            out
        };
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_q { self.max_q = dt; }
        match &r { Res::Sat(_) => self.sat += 1, Res::Unsat => self.unsat += 1, Res::Unknown => self.unknown += 1 }
        r
    }
}
