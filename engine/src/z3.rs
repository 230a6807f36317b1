//! Minimal FFI to libz3 and the translation of terms to z3.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint};

type P = *mut std::ffi::c_void;
#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, srt: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, srt: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, srt: P) -> P;
    fn Z3_mk_func_decl(c: P, s: P, n: c_uint, dom: *const P, rng: P) -> P;
    fn Z3_mk_app(c: P, f: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_fma(c: P, rm: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_get_ast_kind(c: P, a: P) -> c_int;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_real_sort(c: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_ge(c: P, a: P, b: P) -> P;
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error code {e}");
    std::process::abort();
}
pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    /// IEEE arithmetic operators are uninterpreted functions (comparisons stay exact): over-approximation.
    Uf,
    /// bit-precise IEEE-754
    Bits,
    /// floats as exact rationals with a rigorous rounding-error bound per operation
    /// (valid under the side conditions recorded as constraints): over-approximation.
    Real,
    /// as Real, with products, quotients and exp of unknowns abstracted by linear facts about them
    Lin,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}
pub struct Z3 {
    c: P,
    bv: HashMap<(Mode, E), P>,
    bo: HashMap<(Mode, E), P>,
    fp: HashMap<E, P>,
    rl: HashMap<(bool, E), P>,
    vq: HashMap<(E, E), P>, // exact quotient x/t, linear mode
    lin: bool,
    side: HashMap<(bool, E), Vec<P>>, // side constraints introduced for a real term
    ufs: HashMap<String, P>,
    pub queries: u64,
    pub time: f64,
    pub stats: HashMap<String, (u64, f64)>,
    pub dump: Option<String>,
    nreal: u32,
}
impl Z3 {
    pub fn new() -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let (k, v) = (CString::new("model").unwrap(), CString::new("true").unwrap());
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            Z3 { c, bv: HashMap::new(), bo: HashMap::new(), fp: HashMap::new(), rl: HashMap::new(), vq: HashMap::new(), lin: false, side: HashMap::new(), ufs: HashMap::new(), queries: 0, time: 0.0, stats: HashMap::new(), dump: None, nreal: 0 }
        }
    }
    fn sym(&self, s: &str) -> P {
        let cs = CString::new(s).unwrap();
        unsafe { Z3_mk_string_symbol(self.c, cs.as_ptr()) }
    }
    fn bvs(&self, w: u32) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w) }
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.c, v as u64, self.bvs(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.c, s.as_ptr(), self.bvs(w))
            }
        }
    }
    fn uf(&mut self, name: &str, dom: &[u32], rng: u32) -> P {
        if let Some(p) = self.ufs.get(name) {
            return *p;
        }
        let d: Vec<P> = dom.iter().map(|w| self.bvs(*w)).collect();
        let p = unsafe { Z3_mk_func_decl(self.c, self.sym(name), d.len() as c_uint, d.as_ptr(), self.bvs(rng)) };
        self.ufs.insert(name.to_string(), p);
        p
    }
    fn keep(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        p
    }
    /// make sure all sub-terms are translated bottom-up (no deep recursion)
    fn prep(&mut self, cx: &Ctx, e: E, m: Mode) {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            let done = if cx.width[x as usize] == 1 { self.bo.contains_key(&(m, x)) } else { self.bv.contains_key(&(m, x)) };
            if done {
                st.pop();
                continue;
            }
            let kids: Vec<E> = match cx.nodes[x as usize] {
                N::C(_) | N::Var(_) => vec![],
                N::Un(_, a) | N::Ext(a, _) => vec![a],
                N::Bin(_, a, b) => vec![a, b],
                N::Ite(a, b, c) | N::Fma(a, b, c) => vec![a, b, c],
            };
            let pend: Vec<E> = kids
                .into_iter()
                .filter(|k| if cx.width[*k as usize] == 1 { !self.bo.contains_key(&(m, *k)) } else { !self.bv.contains_key(&(m, *k)) })
                .collect();
            if pend.is_empty() {
                if cx.width[x as usize] == 1 {
                    self.tb(cx, x, m);
                } else {
                    self.tv(cx, x, m);
                }
                st.pop();
            } else {
                st.extend(pend);
            }
        }
    }
    /// boolean view of a width-1 term
    fn tb(&mut self, cx: &Ctx, e: E, m: Mode) -> P {
        if let Some(p) = self.bo.get(&(m, e)) {
            return *p;
        }
        let c = self.c;
        unsafe {
            let p = match cx.nodes[e as usize] {
                N::C(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                N::Bin(op, a, b) => match op {
                    B::And | B::Or | B::Xor => {
                        if op == B::Xor && cx.konst(b) == Some(1) {
                            Z3_mk_not(c, self.tb(cx, a, m))
                        } else {
                            let x = [self.tb(cx, a, m), self.tb(cx, b, m)];
                            match op {
                                B::And => Z3_mk_and(c, 2, x.as_ptr()),
                                B::Or => Z3_mk_or(c, 2, x.as_ptr()),
                                _ => Z3_mk_xor(c, x[0], x[1]),
                            }
                        }
                    }
                    B::Eq => {
                        if cx.w(a) == 1 {
                            Z3_mk_eq(c, self.tb(cx, a, m), self.tb(cx, b, m))
                        } else {
                            Z3_mk_eq(c, self.tv(cx, a, m), self.tv(cx, b, m))
                        }
                    }
                    B::Ult => Z3_mk_bvult(c, self.tv(cx, a, m), self.tv(cx, b, m)),
                    B::Ule => Z3_mk_bvule(c, self.tv(cx, a, m), self.tv(cx, b, m)),
                    B::Slt => Z3_mk_bvslt(c, self.tv(cx, a, m), self.tv(cx, b, m)),
                    B::Sle => Z3_mk_bvsle(c, self.tv(cx, a, m), self.tv(cx, b, m)),
                    B::FOeq => Z3_mk_fpa_eq(c, self.tf(cx, a, m), self.tf(cx, b, m)),
                    B::FOlt => Z3_mk_fpa_lt(c, self.tf(cx, a, m), self.tf(cx, b, m)),
                    B::FOle => Z3_mk_fpa_leq(c, self.tf(cx, a, m), self.tf(cx, b, m)),
                    _ => Z3_mk_eq(c, self.tv_raw(cx, e, m), self.num(1, 1)),
                },
                N::Un(U::FIsNan, a) => Z3_mk_fpa_is_nan(c, self.tf(cx, a, m)),
                N::Ite(x, t, f) => Z3_mk_ite(c, self.tb(cx, x, m), self.tb(cx, t, m), self.tb(cx, f, m)),
                _ => Z3_mk_eq(c, self.tv_raw(cx, e, m), self.num(1, 1)),
            };
            let p = self.keep(p);
            self.bo.insert((m, e), p);
            p
        }
    }
    fn tv(&mut self, cx: &Ctx, e: E, m: Mode) -> P {
        if let Some(p) = self.bv.get(&(m, e)) {
            return *p;
        }
        let p = if cx.w(e) == 1 && !matches!(cx.nodes[e as usize], N::Var(_) | N::C(_) | N::Ext(..)) {
            let b = self.tb(cx, e, m);
            unsafe { Z3_mk_ite(self.c, b, self.num(1, 1), self.num(0, 1)) }
        } else {
            self.tv_raw(cx, e, m)
        };
        let p = self.keep(p);
        self.bv.insert((m, e), p);
        p
    }
    fn tv_raw(&mut self, cx: &Ctx, e: E, m: Mode) -> P {
        let c = self.c;
        let w = cx.w(e);
        unsafe {
            match cx.nodes[e as usize] {
                N::C(v) => self.num(v, w),
                N::Var(i) => {
                    let n = format!("v{i}");
                    Z3_mk_const(c, self.sym(&n), self.bvs(w))
                }
                N::Ite(x, t, f) => Z3_mk_ite(c, self.tb(cx, x, m), self.tv(cx, t, m), self.tv(cx, f, m)),
                N::Ext(a, lo) => Z3_mk_extract(c, lo + w - 1, lo, self.tv(cx, a, m)),
                N::Bin(op, a, b) => {
                    if matches!(op, B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem | B::FPow) {
                        if m == Mode::Uf || matches!(op, B::FRem | B::FPow) {
                            let f = self.uf(&format!("{op:?}{w}"), &[w, w], w);
                            let x = [self.tv(cx, a, m), self.tv(cx, b, m)];
                            return Z3_mk_app(c, f, 2, x.as_ptr());
                        }
                        let f = self.tf(cx, e, m);
                        return Z3_mk_fpa_to_ieee_bv(c, f);
                    }
                    let x = self.tv(cx, a, m);
                    let y = self.tv(cx, b, m);
                    match op {
                        B::Add => Z3_mk_bvadd(c, x, y),
                        B::Sub => Z3_mk_bvsub(c, x, y),
                        B::Mul => Z3_mk_bvmul(c, x, y),
                        B::UDiv => Z3_mk_bvudiv(c, x, y),
                        B::SDiv => Z3_mk_bvsdiv(c, x, y),
                        B::URem => Z3_mk_bvurem(c, x, y),
                        B::SRem => Z3_mk_bvsrem(c, x, y),
                        B::And => Z3_mk_bvand(c, x, y),
                        B::Or => Z3_mk_bvor(c, x, y),
                        B::Xor => if cx.konst(b) == Some(mask(w)) { Z3_mk_bvnot(c, x) } else { Z3_mk_bvxor(c, x, y) },
                        B::Shl => Z3_mk_bvshl(c, x, y),
                        B::LShr => Z3_mk_bvlshr(c, x, y),
                        B::AShr => Z3_mk_bvashr(c, x, y),
                        B::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
                N::Un(op, a) => {
                    let wa = cx.w(a);
                    match op {
                        U::ZExt => Z3_mk_zero_ext(c, w - wa, self.tv(cx, a, m)),
                        U::SExt => Z3_mk_sign_ext(c, w - wa, self.tv(cx, a, m)),
                        U::FSqrt | U::FExt | U::FTrunc | U::SiToFp | U::UiToFp | U::FFloor | U::FCeil | U::FTruncInt | U::FRound | U::FRoundEven if m != Mode::Uf => {
                            let f = self.tf(cx, e, m);
                            Z3_mk_fpa_to_ieee_bv(c, f)
                        }
                        U::FToSiSat | U::FToUiSat if m != Mode::Uf => {
                            // saturating conversion, spelled out
                            let f = self.tf(cx, a, m);
                            let srt = if wa == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
                            let bits = |v: f64| if wa == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
                            let signed = op == U::FToSiSat;
                            let hi = if signed { 2f64.powi(w as i32 - 1) } else { 2f64.powi(w as i32) };
                            let lo = if signed { -(2f64.powi(w as i32 - 1)) } else { 0.0 };
                            let fhi = Z3_mk_fpa_to_fp_bv(c, self.num(bits(hi), wa), srt);
                            let flo = Z3_mk_fpa_to_fp_bv(c, self.num(bits(lo), wa), srt);
                            let conv = if signed { Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, w) } else { Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), f, w) };
                            let (vhi, vlo) = if signed { (mask(w) >> 1, 1u128 << (w - 1)) } else { (mask(w), 0) };
                            let t = Z3_mk_ite(c, Z3_mk_fpa_leq(c, f, flo), self.num(vlo, w), conv);
                            let t = Z3_mk_ite(c, Z3_mk_fpa_leq(c, fhi, f), self.num(vhi, w), t);
                            Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, f), self.num(0, w), t)
                        }
                        _ => {
                            let f = self.uf(&format!("{op:?}{wa}_{w}"), &[wa], w);
                            let x = [self.tv(cx, a, m)];
                            Z3_mk_app(c, f, 1, x.as_ptr())
                        }
                    }
                }
                N::Fma(a, b, d) => {
                    if m == Mode::Uf {
                        let f = self.uf(&format!("fma{w}"), &[w, w, w], w);
                        let x = [self.tv(cx, a, m), self.tv(cx, b, m), self.tv(cx, d, m)];
                        return Z3_mk_app(c, f, 3, x.as_ptr());
                    }
                    let f = self.tf(cx, e, m);
                    Z3_mk_fpa_to_ieee_bv(c, f)
                }
            }
        }
    }
    /// floating-point view of a 32/64 bit term
    fn tf(&mut self, cx: &Ctx, e: E, m: Mode) -> P {
        if m == Mode::Bits {
            if let Some(p) = self.fp.get(&e) {
                return *p;
            }
        }
        let c = self.c;
        let w = cx.w(e);
        unsafe {
            let srt = if w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
            let rm = Z3_mk_fpa_rne(c);
            let p = if m == Mode::Bits {
                match cx.nodes[e as usize] {
                    N::Bin(B::FAdd, a, b) => Z3_mk_fpa_add(c, rm, self.tf(cx, a, m), self.tf(cx, b, m)),
                    N::Bin(B::FSub, a, b) => Z3_mk_fpa_sub(c, rm, self.tf(cx, a, m), self.tf(cx, b, m)),
                    N::Bin(B::FMul, a, b) => Z3_mk_fpa_mul(c, rm, self.tf(cx, a, m), self.tf(cx, b, m)),
                    N::Bin(B::FDiv, a, b) => Z3_mk_fpa_div(c, rm, self.tf(cx, a, m), self.tf(cx, b, m)),
                    N::Fma(a, b, d) => Z3_mk_fpa_fma(c, rm, self.tf(cx, a, m), self.tf(cx, b, m), self.tf(cx, d, m)),
                    N::Un(U::FSqrt, a) => Z3_mk_fpa_sqrt(c, rm, self.tf(cx, a, m)),
                    N::Un(U::FExt | U::FTrunc, a) => Z3_mk_fpa_to_fp_float(c, rm, self.tf(cx, a, m), srt),
                    N::Un(U::SiToFp, a) => Z3_mk_fpa_to_fp_signed(c, rm, self.tv(cx, a, m), srt),
                    N::Un(U::UiToFp, a) => Z3_mk_fpa_to_fp_unsigned(c, rm, self.tv(cx, a, m), srt),
                    N::Un(U::FFloor, a) => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), self.tf(cx, a, m)),
                    N::Un(U::FCeil, a) => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), self.tf(cx, a, m)),
                    N::Un(U::FTruncInt, a) => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), self.tf(cx, a, m)),
                    N::Un(U::FRound, a) => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), self.tf(cx, a, m)),
                    N::Un(U::FRoundEven, a) => Z3_mk_fpa_round_to_integral(c, rm, self.tf(cx, a, m)),
                    N::Ite(x, a, b) => Z3_mk_ite(c, self.tb(cx, x, m), self.tf(cx, a, m), self.tf(cx, b, m)),
                    _ => Z3_mk_fpa_to_fp_bv(c, self.tv(cx, e, m), srt),
                }
            } else {
                Z3_mk_fpa_to_fp_bv(c, self.tv(cx, e, m), srt)
            };
            let p = self.keep(p);
            if m == Mode::Bits {
                self.fp.insert(e, p);
            }
            p
        }
    }

    // ---- real-arithmetic view -------------------------------------------------------------
    // value of a float term as a real, together with side constraints that tie it to the value
    // of its operands: for op in {+,-,*,/}: |r - (x op y)| <= u*|x op y| + eta, which holds for
    // round-to-nearest whenever the result is finite (the harness states finiteness).
    fn fresh_real(&mut self, hint: &str) -> P {
        self.nreal += 1;
        let n = format!("{hint}{}", self.nreal);
        let p = unsafe { Z3_mk_const(self.c, self.sym(&n), Z3_mk_real_sort(self.c)) };
        self.keep(p)
    }
    fn rnum(&self, s: &str) -> P {
        let cs = CString::new(s).unwrap();
        let p = unsafe { Z3_mk_numeral(self.c, cs.as_ptr(), Z3_mk_real_sort(self.c)) };
        self.keep(p)
    }
    fn exact_rat(bits: u128, w: u32) -> Option<String> {
        // exact rational of a finite float
        let f = if w == 32 { f32b(bits) as f64 } else { f64b(bits) };
        if !f.is_finite() {
            return None;
        }
        let b = f.to_bits();
        let exp = ((b >> 52) & 0x7ff) as i32;
        let mut man = b & ((1u64 << 52) - 1);
        let mut e;
        if exp == 0 {
            e = -1074;
        } else {
            man |= 1 << 52;
            e = exp - 1075;
        }
        if man == 0 {
            return Some("0".into());
        }
        while man & 1 == 0 {
            man >>= 1;
            e += 1;
        }
        let sign = if f < 0.0 { "-" } else { "" };
        // 2^e as decimal string
        let pow2 = |n: u32| -> String {
            let mut d = vec![1u8];
            for _ in 0..n {
                let mut carry = 0;
                for x in d.iter_mut() {
                    let t = *x * 2 + carry;
                    *x = t % 10;
                    carry = t / 10;
                }
                if carry > 0 {
                    d.push(carry);
                }
            }
            d.iter().rev().map(|x| (b'0' + x) as char).collect()
        };
        if e >= 0 {
            if e > 60 {
                // man * 2^e as product through string multiplication
                let p = pow2(e as u32);
                // multiply decimal string by man
                let mut d: Vec<u64> = p.bytes().rev().map(|c| (c - b'0') as u64).collect();
                let mut carry: u128 = 0;
                for x in d.iter_mut() {
                    let t = (*x as u128) * (man as u128) + carry;
                    *x = (t % 10) as u64;
                    carry = t / 10;
                }
                while carry > 0 {
                    d.push((carry % 10) as u64);
                    carry /= 10;
                }
                let s: String = d.iter().rev().map(|x| (b'0' + *x as u8) as char).collect();
                return Some(format!("{sign}{s}"));
            }
            return Some(format!("{sign}{}", (man as u128) << e));
        }
        Some(format!("{sign}{man}/{}", pow2((-e) as u32)))
    }
    fn tr(&mut self, cx: &Ctx, e: E, sides: &mut Vec<P>, seen: &mut std::collections::HashSet<E>) -> P {
        let c = self.c;
        let w = cx.w(e);
        if let Some(p) = self.rl.get(&(self.lin, e)).copied() {
            // re-collect side constraints of the whole cone
            if seen.insert(e) {
                let kids: Vec<E> = match cx.nodes[e as usize] {
                    N::Bin(B::FAdd | B::FSub | B::FMul | B::FDiv, a, b) => vec![a, b],
                    N::Un(U::FSqrt | U::FExt | U::FTrunc | U::FExp, a) => vec![a],
                    N::Ite(_, a, b) => vec![a, b],
                    _ => vec![],
                };
                for k in kids {
                    self.tr(cx, k, sides, seen);
                }
                if self.lin { if let N::Bin(B::FDiv, a, b) = cx.nodes[e as usize] { if cx.konst(b).is_none() { self.quot(cx, a, b, sides, seen, 0); } } }
                if let N::Ite(x, _, _) = cx.nodes[e as usize] {
                    self.trb(cx, x, sides, seen);
                }
                if let Some((_, x)) = Self::as_sign_op(cx, e) {
                    self.tr(cx, x, sides, seen);
                }
                if let Some(s) = self.side.get(&(self.lin, e)) {
                    sides.extend(s.iter().copied());
                }
            }
            return p;
        }
        seen.insert(e);
        let mut mine: Vec<P> = vec![];
        unsafe {
            let (ue, eta) = if w == 32 {
                (self.rnum("1/16777216"), self.rnum(&Self::exact_rat(1, 32).unwrap()))
            } else {
                (self.rnum("1/9007199254740992"), self.rnum(&Self::exact_rat(1, 64).unwrap()))
            };
            let zero = self.rnum("0");
            let p = match cx.nodes[e as usize] {
                N::C(v) => match Self::exact_rat(v, w) {
                    Some(s) => self.rnum(&s),
                    None => self.fresh_real("inf"),
                },
                N::Bin(op @ (B::FAdd | B::FSub | B::FMul | B::FDiv), a, b) => {
                    let x = self.tr(cx, a, sides, seen);
                    let y = self.tr(cx, b, sides, seen);
                    let r = self.fresh_real("r");
                    let unknown = cx.konst(a).is_none() && cx.konst(b).is_none();
                    let ex = match op {
                        B::FMul if self.lin && unknown => {
                            let q = self.fresh_real("m");
                            let (x0, x1, y0, y1) = (Z3_mk_ge(c, x, zero), Z3_mk_le(c, x, zero), Z3_mk_ge(c, y, zero), Z3_mk_le(c, y, zero));
                            let (q0, q1) = (Z3_mk_ge(c, q, zero), Z3_mk_le(c, q, zero));
                            for (s, t, k) in [(x0, y0, q0), (x1, y1, q0), (x0, y1, q1), (x1, y0, q1)] {
                                mine.push(self.keep(Z3_mk_or(c, 3, [Z3_mk_not(c, s), Z3_mk_not(c, t), k].as_ptr())));
                            }
                            q
                        }
                        B::FDiv if self.lin && cx.konst(b).is_none() => self.quot(cx, a, b, sides, seen, 0),
                        B::FAdd => Z3_mk_add(c, 2, [x, y].as_ptr()),
                        B::FSub => Z3_mk_sub(c, 2, [x, y].as_ptr()),
                        B::FMul => Z3_mk_mul(c, 2, [x, y].as_ptr()),
                        _ => {
                            // q*y = x  (y != 0 is implied by finiteness of the quotient)
                            let q = self.fresh_real("q");
                            let qy = Z3_mk_mul(c, 2, [q, y].as_ptr());
                            mine.push(self.keep(Z3_mk_eq(c, qy, x)));
                            mine.push(self.keep(Z3_mk_not(c, Z3_mk_eq(c, y, zero))));
                            q
                        }
                    };
                    let d = Z3_mk_sub(c, 2, [r, ex].as_ptr());
                    // bound = u*|ex| (+ eta for * and /; + and - are exact when subnormal)
                    let nonneg = Z3_mk_ge(c, ex, zero);
                    let nex = Z3_mk_sub(c, 2, [zero, ex].as_ptr());
                    let abs = Z3_mk_ite(c, nonneg, ex, nex);
                    let mut bound = Z3_mk_mul(c, 2, [ue, abs].as_ptr());
                    if matches!(op, B::FMul | B::FDiv) {
                        bound = Z3_mk_add(c, 2, [bound, eta].as_ptr());
                    }
                    let nb = Z3_mk_sub(c, 2, [zero, bound].as_ptr());
                    mine.push(self.keep(Z3_mk_le(c, d, bound)));
                    mine.push(self.keep(Z3_mk_ge(c, d, nb)));
                    // sign preservation of round-to-nearest
                    mine.push(self.keep(Z3_mk_or(c, 2, [Z3_mk_not(c, Z3_mk_ge(c, ex, zero)), Z3_mk_ge(c, r, zero)].as_ptr())));
                    mine.push(self.keep(Z3_mk_or(c, 2, [Z3_mk_not(c, Z3_mk_le(c, ex, zero)), Z3_mk_le(c, r, zero)].as_ptr())));
                    r
                }
                N::Un(U::FExt, a) => self.tr(cx, a, sides, seen),
                N::Un(U::FTrunc, a) => {
                    let x = self.tr(cx, a, sides, seen);
                    let r = self.fresh_real("r");
                    let d = Z3_mk_sub(c, 2, [r, x].as_ptr());
                    let nx = Z3_mk_sub(c, 2, [zero, x].as_ptr());
                    let abs = Z3_mk_ite(c, Z3_mk_ge(c, x, zero), x, nx);
                    let bound = Z3_mk_add(c, 2, [Z3_mk_mul(c, 2, [ue, abs].as_ptr()), eta].as_ptr());
                    let nb = Z3_mk_sub(c, 2, [zero, bound].as_ptr());
                    mine.push(self.keep(Z3_mk_le(c, d, bound)));
                    mine.push(self.keep(Z3_mk_ge(c, d, nb)));
                    r
                }
                N::Un(U::FSqrt, a) => {
                    let x = self.tr(cx, a, sides, seen);
                    let q = self.fresh_real("q");
                    let r = self.fresh_real("r");
                    if !self.lin { mine.push(self.keep(Z3_mk_eq(c, Z3_mk_mul(c, 2, [q, q].as_ptr()), x))); }
                    mine.push(self.keep(Z3_mk_ge(c, q, zero)));
                    mine.push(self.keep(Z3_mk_ge(c, r, zero)));
                    let d = Z3_mk_sub(c, 2, [r, q].as_ptr());
                    let bound = Z3_mk_mul(c, 2, [ue, q].as_ptr());
                    let nb = Z3_mk_sub(c, 2, [zero, bound].as_ptr());
                    mine.push(self.keep(Z3_mk_le(c, d, bound)));
                    mine.push(self.keep(Z3_mk_ge(c, d, nb)));
                    r
                }
                N::Un(U::FExp, a) => {
                    // contract of exp: non-negative; at least 1 for x >= 0, at most 1 for x <= 0
                    let x = self.tr(cx, a, sides, seen);
                    let r = self.fresh_real("exp");
                    let one = self.rnum("1");
                    mine.push(self.keep(Z3_mk_ge(c, r, zero)));
                    mine.push(self.keep(Z3_mk_or(c, 2, [Z3_mk_not(c, Z3_mk_ge(c, x, zero)), Z3_mk_ge(c, r, one)].as_ptr())));
                    mine.push(self.keep(Z3_mk_or(c, 2, [Z3_mk_not(c, Z3_mk_le(c, x, zero)), Z3_mk_le(c, r, one)].as_ptr())));
                    r
                }
                N::Un(U::UiToFp, a) | N::Un(U::SiToFp, a) if cx.konst(a).is_some() => self.fresh_real("i"),
                N::Ite(x, a, b) => {
                    let cnd = self.trb(cx, x, sides, seen);
                    let p = self.tr(cx, a, sides, seen);
                    let q = self.tr(cx, b, sides, seen);
                    Z3_mk_ite(c, cnd, p, q)
                }
                _ => {
                    if let Some((neg, x)) = Self::as_sign_op(cx, e) {
                        let y = self.tr(cx, x, sides, seen);
                        let ny = Z3_mk_sub(c, 2, [zero, y].as_ptr());
                        if neg { ny } else { Z3_mk_ite(c, Z3_mk_ge(c, y, zero), y, ny) }
                    } else {
                        self.fresh_real("x")
                    }
                }
            };
            let p = self.keep(p);
            self.rl.insert((self.lin, e), p);
            sides.extend(mine.iter().copied());
            self.side.insert((self.lin, e), mine);
            p
        }
    }
    /// exact quotient x/t in the linear mode
    fn quot(&mut self, cx: &Ctx, x: E, t: E, sides: &mut Vec<P>, seen: &mut std::collections::HashSet<E>, depth: u32) -> P {
        let c = self.c;
        unsafe {
            if depth > 0 && x == t { return self.rnum("1"); }
            if let Some(v) = cx.konst(x) { if v == 0 { return self.rnum("0"); } }
            // its facts are collected in the caller's cone: always restated
            let q = match self.vq.get(&(x, t)) { Some(q) => *q, None => { let q = self.fresh_real("vq"); self.vq.insert((x, t), q); q } };
            let (px, pt) = (self.tr(cx, x, sides, seen), self.tr(cx, t, sides, seen));
            let (zero, one) = (self.rnum("0"), self.rnum("1"));
            let npos = Z3_mk_le(c, pt, zero);
            let nt = Z3_mk_sub(c, 2, [zero, pt].as_ptr());
            let none = Z3_mk_sub(c, 2, [zero, one].as_ptr());
            // for t > 0: x >= k t iff x/t >= k
            for (lhs, k) in [(zero, zero), (pt, one), (nt, none)] {
                sides.push(self.keep(Z3_mk_or(c, 2, [npos, Z3_mk_eq(c, Z3_mk_ge(c, px, lhs), Z3_mk_ge(c, q, k))].as_ptr())));
                sides.push(self.keep(Z3_mk_or(c, 2, [npos, Z3_mk_eq(c, Z3_mk_le(c, px, lhs), Z3_mk_le(c, q, k))].as_ptr())));
            }
            if depth < 6 {
                if let N::Bin(op @ (B::FAdd | B::FSub), a, b) = cx.nodes[x as usize] {
                    let (p, r) = (self.quot(cx, a, t, sides, seen, depth + 1), self.quot(cx, b, t, sides, seen, depth + 1));
                    let ex = if op == B::FAdd { Z3_mk_add(c, 2, [p, r].as_ptr()) } else { Z3_mk_sub(c, 2, [p, r].as_ptr()) };
                    self.near(ex, q, cx.w(x), sides);
                }
            }
            if depth == 0 {
                if let N::Bin(op @ (B::FAdd | B::FSub), a, b) = cx.nodes[t as usize] {
                    let (p, r) = (self.quot(cx, a, t, sides, seen, 1), self.quot(cx, b, t, sides, seen, 1));
                    let ex = if op == B::FAdd { Z3_mk_add(c, 2, [p, r].as_ptr()) } else { Z3_mk_sub(c, 2, [p, r].as_ptr()) };
                    self.near(ex, one, cx.w(t), sides);
                }
            }
            q
        }
    }
    /// r is the rounding of ex: relative error only (sums)
    fn near(&mut self, ex: P, r: P, w: u32, sides: &mut Vec<P>) {
        let c = self.c;
        unsafe {
            let u = self.rnum(if w == 32 { "1/16777216" } else { "1/9007199254740992" });
            let zero = self.rnum("0");
            let abs = Z3_mk_ite(c, Z3_mk_ge(c, ex, zero), ex, Z3_mk_sub(c, 2, [zero, ex].as_ptr()));
            let bound = Z3_mk_mul(c, 2, [u, abs].as_ptr());
            let d = Z3_mk_sub(c, 2, [r, ex].as_ptr());
            sides.push(self.keep(Z3_mk_le(c, d, bound)));
            sides.push(self.keep(Z3_mk_ge(c, d, Z3_mk_sub(c, 2, [zero, bound].as_ptr()))));
        }
    }
    /// -x (xor sign bit) or |x| (and with everything but the sign bit), after simplification
    fn as_sign_op(cx: &Ctx, e: E) -> Option<(bool, E)> {
        let w = cx.w(e);
        if w != 32 && w != 64 {
            return None;
        }
        match cx.nodes[e as usize] {
            N::Bin(B::Xor, a, b) if cx.konst(b) == Some(1u128 << (w - 1)) => Some((true, a)),
            N::Bin(B::And, a, b) if cx.konst(b) == Some(mask(w - 1)) => Some((false, a)),
            _ => None,
        }
    }
    fn real_of(&mut self, cx: &Ctx, e: E) -> Option<P> {
        if let Some(v) = cx.konst(e) { return Self::exact_rat(v, cx.w(e)).map(|r| self.rnum(&r)); }
        self.rl.get(&(self.lin, e)).copied()
    }
    fn trb(&mut self, cx: &Ctx, e: E, sides: &mut Vec<P>, seen: &mut std::collections::HashSet<E>) -> P {
        let c = self.c;
        unsafe {
            match cx.nodes[e as usize] {
                N::C(v) => if v == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                N::Bin(op @ (B::And | B::Or | B::Xor), a, b) if cx.w(e) == 1 => {
                    let x = [self.trb(cx, a, sides, seen), self.trb(cx, b, sides, seen)];
                    match op {
                        B::And => Z3_mk_and(c, 2, x.as_ptr()),
                        B::Or => Z3_mk_or(c, 2, x.as_ptr()),
                        _ => Z3_mk_xor(c, x[0], x[1]),
                    }
                }
                N::Bin(op @ (B::FOeq | B::FOlt | B::FOle), a, b) => {
                    // comparisons with infinity: operands are finite in this mode
                    for (k, other_first) in [(b, true), (a, false)] {
                        if let Some(v) = cx.konst(k) {
                            let w = cx.w(k);
                            let f = if w == 32 { f32b(v) as f64 } else { f64b(v) };
                            if f.is_infinite() || f.is_nan() {
                                let t = match op {
                                    B::FOeq => false,
                                    _ if f.is_nan() => false,
                                    _ => if other_first { f > 0.0 } else { f < 0.0 },
                                };
                                return if t { Z3_mk_true(c) } else { Z3_mk_false(c) };
                            }
                        }
                    }
                    let x = self.tr(cx, a, sides, seen);
                    let y = self.tr(cx, b, sides, seen);
                    match op {
                        B::FOeq => Z3_mk_eq(c, x, y),
                        B::FOlt => Z3_mk_lt(c, x, y),
                        _ => Z3_mk_le(c, x, y),
                    }
                }
                N::Un(U::FIsNan, _) => Z3_mk_false(c),
                N::Ite(x, t, f) if cx.w(e) == 1 => {
                    let (x, t, f) = (self.trb(cx, x, sides, seen), self.trb(cx, t, sides, seen), self.trb(cx, f, sides, seen));
                    Z3_mk_ite(c, x, t, f)
                }
                _ => {
                    // not about floats: exact, in the UF vocabulary
                    self.prep(cx, e, Mode::Uf);
                    self.tb(cx, e, Mode::Uf)
                }
            }
        }
    }

    pub fn check(&mut self, cx: &Ctx, cs: &[E], m: Mode, vars: &[u32], timeout_ms: u32) -> Res {
        let t0 = std::time::Instant::now();
        let r = unsafe {
            let s = Z3_mk_solver(self.c);
            Z3_solver_inc_ref(self.c, s);
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, self.sym("timeout"), timeout_ms);
            Z3_solver_set_params(self.c, s, p);
            if m == Mode::Real || m == Mode::Lin {
                self.lin = m == Mode::Lin;
                let mut sides = vec![];
                let mut seen = std::collections::HashSet::new();
                for e in cs {
                    let b = self.trb(cx, *e, &mut sides, &mut seen);
                    Z3_solver_assert(self.c, s, b);
                }
                for b in sides {
                    Z3_solver_assert(self.c, s, b);
                }
                // exp is monotone up to 2^-20
                let ex: Vec<(E, E)> = seen.iter().filter_map(|e| if let N::Un(U::FExp, a) = cx.nodes[*e as usize] { Some((*e, a)) } else { None }).collect();
                let slack = self.rnum("1048577/1048576");
                for (e, a) in &ex {
                    for (f, b) in &ex {
                        if e == f { continue; }
                        let (Some(x), Some(y), Some(p), Some(q)) = (self.real_of(cx, *a), self.real_of(cx, *b), self.rl.get(&(self.lin, *e)).copied(), self.rl.get(&(self.lin, *f)).copied()) else { continue };
                        let gt = Z3_mk_not(self.c, Z3_mk_le(self.c, x, y));
                        let c = Z3_mk_or(self.c, 2, [gt, Z3_mk_le(self.c, p, Z3_mk_mul(self.c, 2, [q, slack].as_ptr()))].as_ptr());
                        Z3_solver_assert(self.c, s, c);
                    }
                }
                if self.lin {
                    // quotients are monotone in numerator and (for numerator and denominators of one sign) denominator
                    let zero = self.rnum("0");
                    let qs: Vec<((E, E), P)> = { let mut v: Vec<_> = self.vq.iter().filter(|((x, t), _)| (seen.contains(x) || cx.konst(*x).is_some()) && seen.contains(t)).map(|(k, p)| (*k, *p)).collect(); v.sort_by_key(|k| k.0); v };
                    let le = |c: P, a: P, b: P| Z3_mk_le(c, a, b);
                    if qs.len() <= 40 { for ((x, t), p) in &qs { for ((y, u), q) in &qs {
                        if (x, t) == (y, u) { continue; }
                        let (Some(px), Some(py), Some(pt), Some(pu)) = (self.real_of(cx, *x), self.real_of(cx, *y), self.real_of(cx, *t), self.real_of(cx, *u)) else { continue };
                        if t == u {
                            let k = Z3_mk_or(self.c, 3, [le(self.c, pt, zero), Z3_mk_not(self.c, le(self.c, px, py)), le(self.c, *p, *q)].as_ptr());
                            Z3_solver_assert(self.c, s, k);
                        } else if x == y {
                            let k = Z3_mk_or(self.c, 4, [le(self.c, pt, zero), Z3_mk_not(self.c, Z3_mk_ge(self.c, px, zero)), Z3_mk_not(self.c, le(self.c, pt, pu)), le(self.c, *q, *p)].as_ptr());
                            Z3_solver_assert(self.c, s, k);
                        }
                    } } }
                }
            } else {
                for e in cs {
                    self.prep(cx, *e, m);
                    let b = self.tb(cx, *e, m);
                    Z3_solver_assert(self.c, s, b);
                }
            }
            if let Some(d) = &self.dump {
                let txt = CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned();
                let _ = std::fs::write(format!("{d}/q{}_{m:?}.smt2", self.queries), txt);
            }
            let r = match Z3_solver_check(self.c, s) {
                -1 => Res::Unsat,
                1 => {
                    let md = Z3_solver_get_model(self.c, s);
                    Z3_model_inc_ref(self.c, md);
                    let mut out = vec![];
                    if m != Mode::Real && m != Mode::Lin {
                        for v in vars {
                            let w = cx.vars[*v as usize].1;
                            let t = Z3_mk_const(self.c, self.sym(&format!("v{v}")), self.bvs(w));
                            let mut val: P = std::ptr::null_mut();
                            if Z3_model_eval(self.c, md, t, true, &mut val) && Z3_get_ast_kind(self.c, val) == 0 {
                                let s = CStr::from_ptr(Z3_get_numeral_string(self.c, val)).to_string_lossy().into_owned();
                                out.push((*v, s.parse::<u128>().unwrap_or(0)));
                            } else {
                                out.push((*v, 0));
                            }
                        }
                    }
                    Z3_model_dec_ref(self.c, md);
                    Res::Sat(out)
                }
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.c, s);
            r
        };
        let dt = t0.elapsed().as_secs_f64();
        self.queries += 1;
        self.time += dt;
        let k = format!("{m:?}/{}", match r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" });
        let en = self.stats.entry(k).or_insert((0, 0.0));
        en.0 += 1;
        en.1 += dt;
        r
    }
}
