//! Hash-consed bit-vector / IEEE-754 terms.
//!
//! Every term is a bit-vector of a fixed width (booleans have width 1, floats are their bit
//! pattern).  Smart constructors fold constants and apply only equivalences that hold for every
//! value (for floating point: every value up to the payload of a NaN).
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Concat,
    FAdd, FSub, FMul, FDiv, FRem, FOeq, FOlt, FOle, FPow,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum U {
    ZExt, SExt, FExt, FTrunc, SiToFp, UiToFp, FToSiSat, FToUiSat, FSqrt, FIsNan,
    FExp, FLn, FFloor, FCeil, FTruncInt, FRound, FRoundEven, FSin, FCos, FTanh, FLog2, FLog10, FExp2, FLn1p, FExpm1,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u128),
    Var(u32),
    Un(U, E),
    Bin(B, E, E),
    Ite(E, E, E),
    Ext(E, u32), // extract `w` bits starting at the given low bit
    Fma(E, E, E),
}

pub struct Ctx {
    pub nodes: Vec<N>,
    pub width: Vec<u32>,
    map: HashMap<(N, u32), E, BuildFx>,
    pub vars: Vec<(String, u32, bool)>, // name, width, is_float
    pub var_node: Vec<E>,
    pub vars_of: Vec<Option<std::rc::Rc<Vec<u32>>>>,
}
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
#[derive(Default, Clone, Copy)]
pub struct BuildFx;
impl std::hash::BuildHasher for BuildFx {
    type Hasher = Fx;
    fn build_hasher(&self) -> Fx {
        Fx(0)
    }
}
impl Fx {
    #[inline]
    fn add(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
}
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.add(*c as u64)
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.add(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.add(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.add(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.add(v)
    }
    fn write_u128(&mut self, v: u128) {
        self.add(v as u64);
        self.add((v >> 64) as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.add(v as u64)
    }
    fn write_isize(&mut self, v: isize) {
        self.add(v as u64)
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn f32b(v: u128) -> f32 {
    f32::from_bits(v as u32)
}
pub fn f64b(v: u128) -> f64 {
    f64::from_bits(v as u64)
}
fn canon32(f: f32) -> u128 {
    if f.is_nan() { 0x7fc00000 } else { f.to_bits() as u128 }
}
fn canon64(f: f64) -> u128 {
    if f.is_nan() { 0x7ff8000000000000 } else { f.to_bits() as u128 }
}
pub fn fop(w: u32, a: u128, b: u128, f32o: impl Fn(f32, f32) -> f32, f64o: impl Fn(f64, f64) -> f64) -> u128 {
    if w == 32 { canon32(f32o(f32b(a), f32b(b))) } else { canon64(f64o(f64b(a), f64b(b))) }
}

/// Concrete semantics of binary operators; `w` is the operand width.
pub fn ev_bin(op: B, w: u32, wb: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        B::Add => a.wrapping_add(b) & m,
        B::Sub => a.wrapping_sub(b) & m,
        B::Mul => a.wrapping_mul(b) & m,
        B::UDiv => if b == 0 { m } else { a / b },
        B::URem => if b == 0 { a } else { a % b },
        B::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x >= 0 { m } else { 1 } } else { (x.wrapping_div(y) as u128) & m }
        }
        B::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        B::And => a & b,
        B::Or => a | b,
        B::Xor => a ^ b,
        B::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        B::LShr => if b >= w as u128 { 0 } else { a >> b },
        B::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s) as u128) & m
        }
        B::Eq => (a == b) as u128,
        B::Ult => (a < b) as u128,
        B::Ule => (a <= b) as u128,
        B::Slt => (sx(a, w) < sx(b, w)) as u128,
        B::Sle => (sx(a, w) <= sx(b, w)) as u128,
        B::Concat => (a << wb) | b,
        B::FAdd => fop(w, a, b, |x, y| x + y, |x, y| x + y),
        B::FSub => fop(w, a, b, |x, y| x - y, |x, y| x - y),
        B::FMul => fop(w, a, b, |x, y| x * y, |x, y| x * y),
        B::FDiv => fop(w, a, b, |x, y| x / y, |x, y| x / y),
        B::FRem => fop(w, a, b, |x, y| x % y, |x, y| x % y),
        B::FPow => fop(w, a, b, |x, y| x.powf(y), |x, y| x.powf(y)),
        B::FOeq => (if w == 32 { f32b(a) == f32b(b) } else { f64b(a) == f64b(b) }) as u128,
        B::FOlt => (if w == 32 { f32b(a) < f32b(b) } else { f64b(a) < f64b(b) }) as u128,
        B::FOle => (if w == 32 { f32b(a) <= f32b(b) } else { f64b(a) <= f64b(b) }) as u128,
    }
}
/// Concrete semantics of unary operators; `w` result width, `wa` operand width.
pub fn ev_un(op: U, w: u32, wa: u32, a: u128) -> u128 {
    macro_rules! f1 {
        ($m:ident) => {
            if wa == 32 { canon32(f32b(a).$m()) } else { canon64(f64b(a).$m()) }
        };
    }
    match op {
        U::ZExt => a,
        U::SExt => (sx(a, wa) as u128) & mask(w),
        U::FExt => canon64(f32b(a) as f64),
        U::FTrunc => canon32(f64b(a) as f32),
        U::SiToFp => if w == 32 { (sx(a, wa) as f32).to_bits() as u128 } else { (sx(a, wa) as f64).to_bits() as u128 },
        U::UiToFp => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        U::FToSiSat => {
            let f = if wa == 32 { f32b(a) as f64 } else { f64b(a) };
            if f.is_nan() { return 0; }
            let lo = -(2f64.powi(w as i32 - 1));
            let hi = 2f64.powi(w as i32 - 1);
            let v: i128 = if f <= lo { -(1i128 << (w - 1)) } else if f >= hi { (1i128 << (w - 1)) - 1 } else { f as i128 };
            (v as u128) & mask(w)
        }
        U::FToUiSat => {
            let f = if wa == 32 { f32b(a) as f64 } else { f64b(a) };
            if f.is_nan() || f <= 0.0 { return 0; }
            if f >= 2f64.powi(w as i32) { mask(w) } else { f as u128 }
        }
        U::FSqrt => f1!(sqrt),
        U::FIsNan => (if wa == 32 { f32b(a).is_nan() } else { f64b(a).is_nan() }) as u128,
        U::FExp => f1!(exp),
        U::FLn => f1!(ln),
        U::FFloor => f1!(floor),
        U::FCeil => f1!(ceil),
        U::FTruncInt => f1!(trunc),
        U::FRound => f1!(round),
        U::FRoundEven => f1!(round_ties_even),
        U::FSin => f1!(sin),
        U::FCos => f1!(cos),
        U::FTanh => f1!(tanh),
        U::FLog2 => f1!(log2),
        U::FLog10 => f1!(log10),
        U::FExp2 => f1!(exp2),
        U::FLn1p => f1!(ln_1p),
        U::FExpm1 => f1!(exp_m1),
    }
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { nodes: vec![], width: vec![], map: HashMap::with_hasher(BuildFx), vars: vec![], var_node: vec![], vars_of: vec![] }
    }
    pub fn mk(&mut self, n: N, w: u32) -> E {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.width.push(w);
        self.map.insert((n, w), id);
        id
    }
    #[inline]
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(N::C(v & mask(w)), w)
    }
    pub fn var(&mut self, name: &str, w: u32, is_float: bool) -> E {
        // variables are identified by name: the same name on two paths is the same input
        if let Some(i) = self.vars.iter().position(|v| v.0 == name && v.1 == w) {
            return self.mk(N::Var(i as u32), w);
        }
        let i = self.vars.len() as u32;
        self.vars.push((name.to_string(), w, is_float));
        let e = self.mk(N::Var(i), w);
        self.var_node.push(e);
        e
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.width[e as usize]
    }
    #[inline]
    pub fn konst(&self, e: E) -> Option<u128> {
        if let N::C(v) = self.nodes[e as usize] { Some(v) } else { None }
    }
    pub fn not(&mut self, e: E) -> E {
        // boolean / bitwise not as xor with all ones
        let w = self.w(e);
        let m = self.c(mask(w), w);
        self.bin(B::Xor, e, m)
    }
    pub fn is_not(&self, e: E) -> Option<E> {
        if self.w(e) != 1 { return None; }
        if let N::Bin(B::Xor, a, b) = self.nodes[e as usize] {
            if self.konst(b) == Some(1) { return Some(a); }
        }
        None
    }
    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        let w = self.w(a);
        let wb = self.w(b);
        let rw = match op {
            B::Eq | B::Ult | B::Ule | B::Slt | B::Sle | B::FOeq | B::FOlt | B::FOle => 1,
            B::Concat => w + wb,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.konst(a), self.konst(b)) {
            let v = ev_bin(op, w, wb, x, y);
            return self.c(v, rw);
        }
        let (mut a, mut b) = (a, b);
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor | B::Eq | B::FAdd | B::FMul | B::FOeq);
        if comm {
            // constants to the right, otherwise order by id
            if self.konst(a).is_some() || (self.konst(b).is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let kb = self.konst(b);
        let ka = self.konst(a);
        let m = mask(w);
        match op {
            B::Add => {
                if kb == Some(0) { return a; }
                if let (Some(k), N::Bin(B::Add, x, y)) = (kb, self.nodes[a as usize]) {
                    if let Some(k2) = self.konst(y) {
                        let kk = self.c(k.wrapping_add(k2), w);
                        return self.bin(B::Add, x, kk);
                    }
                }
            }
            B::Sub => {
                if kb == Some(0) { return a; }
                if a == b { return self.c(0, w); }
                if let Some(k) = kb {
                    let kk = self.c(k.wrapping_neg(), w);
                    return self.bin(B::Add, a, kk);
                }
                if let N::Bin(B::Add, x, y) = self.nodes[a as usize] {
                    if x == b { return y; }
                    if y == b { return x; }
                }
            }
            B::Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(B::Shl, a, s);
                    }
                }
            }
            B::UDiv => {
                if kb == Some(1) { return a; }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k.trailing_zeros() as u128, w);
                        return self.bin(B::LShr, a, s);
                    }
                }
            }
            B::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(k - 1, w);
                        return self.bin(B::And, a, s);
                    }
                }
            }
            B::And => {
                if a == b { return a; }
                if kb == Some(0) { return b; }
                if kb == Some(m) { return a; }
                if let Some(k) = kb {
                    if let N::Bin(B::And, x, y) = self.nodes[a as usize] {
                        if let Some(k2) = self.konst(y) {
                            let kk = self.c(k & k2, w);
                            return self.bin(B::And, x, kk);
                        }
                    }
                    if let N::Ite(c, t, f) = self.nodes[a as usize] {
                        if self.konst(t).is_some() && self.konst(f).is_some() {
                            let (x, y) = (self.bin(B::And, t, b), self.bin(B::And, f, b));
                            return self.ite(c, x, y);
                        }
                    }
                    // low-bit mask of a zext
                    if let N::Un(U::ZExt, x) = self.nodes[a as usize] {
                        let wx = self.w(x);
                        if k & mask(wx) == mask(wx) { return a; }
                        let kk = self.c(k, wx);
                        let y = self.bin(B::And, x, kk);
                        return self.zext(y, w);
                    }
                    // the low bits of sums and products depend on low bits only
                    if (w == 32 || w == 64) && k & (k + 1) == 0 && matches!(self.nodes[a as usize], N::Bin(B::Add | B::Sub | B::Mul | B::Xor, ..)) {
                        let y = self.ext(a, 0, k.trailing_ones());
                        return self.zext(y, w);
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.c(0, 1); }
                }
            }
            B::Or => {
                if a == b { return a; }
                if let Some(r) = self.or_sign(a, b) { return r; }
                if let Some(r) = self.or_sign(b, a) { return r; }
                if kb == Some(0) { return a; }
                if kb == Some(m) { return b; }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.c(1, 1); }
                }
                if let Some(r) = self.or_concat(a, b) { return r; }
            }
            B::Xor => {
                if a == b { return self.c(0, w); }
                if kb == Some(0) { return a; }
                if let (Some(k), N::Bin(B::Xor, x, y)) = (kb, self.nodes[a as usize]) {
                    if let Some(k2) = self.konst(y) {
                        let kk = self.c(k ^ k2, w);
                        return self.bin(B::Xor, x, kk);
                    }
                }
                if let (Some(_), 1, N::Ite(c, t, f)) = (kb, w, self.nodes[a as usize]) {
                    if self.konst(t).is_some() && self.konst(f).is_some() {
                        let (t2, f2) = (self.not(t), self.not(f));
                        return self.ite(c, t2, f2);
                    }
                }
            }
            B::Shl | B::LShr => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if k >= w as u128 { return self.c(0, w); }
                    let k = k as u32;
                    if op == B::Shl {
                        let lo = self.ext(a, 0, w - k);
                        let z = self.c(0, k);
                        return self.bin(B::Concat, lo, z);
                    } else {
                        let hi = self.ext(a, k, w - k);
                        return self.zext(hi, w);
                    }
                }
                if ka == Some(0) { return a; }
            }
            B::AShr => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    let k = k.min(w as u128 - 1) as u32;
                    let hi = self.ext(a, k, w - k);
                    return self.sext(hi, w);
                }
            }
            B::Eq => {
                if a == b { return self.c(1, 1); }
                if w == 1 {
                    if kb == Some(1) { return a; }
                    if kb == Some(0) { return self.not(a); }
                }
                if let Some(k) = kb {
                    match self.nodes[a as usize] {
                        N::Ite(c, t, f) => {
                            let (kt, kf) = (self.konst(t), self.konst(f));
                            if kt.is_some() || kf.is_some() {
                                let x = self.bin(B::Eq, t, b);
                                let y = self.bin(B::Eq, f, b);
                                return self.ite(c, x, y);
                            }
                        }
                        N::Un(U::ZExt, x) => {
                            let wx = self.w(x);
                            if k > mask(wx) { return self.c(0, 1); }
                            let kk = self.c(k, wx);
                            return self.bin(B::Eq, x, kk);
                        }
                        N::Un(U::SExt, x) => {
                            let wx = self.w(x);
                            if (sx(k & mask(wx), wx) as u128) & m != k { return self.c(0, 1); }
                            let kk = self.c(k, wx);
                            return self.bin(B::Eq, x, kk);
                        }
                        N::Bin(B::Add, x, y) => {
                            if let Some(k2) = self.konst(y) {
                                let kk = self.c(k.wrapping_sub(k2), w);
                                return self.bin(B::Eq, x, kk);
                            }
                        }
                        N::Bin(B::Xor, x, y) => {
                            if let Some(k2) = self.konst(y) {
                                let kk = self.c(k ^ k2, w);
                                return self.bin(B::Eq, x, kk);
                            }
                        }
                        N::Bin(B::Concat, x, y) => {
                            let wy = self.w(y);
                            let kx = self.c(k >> wy, w - wy);
                            let ky = self.c(k, wy);
                            let ex = self.bin(B::Eq, x, kx);
                            let ey = self.bin(B::Eq, y, ky);
                            return self.bin(B::And, ex, ey);
                        }
                        _ => {}
                    }
                }
            }
            B::Ult => {
                if a == b { return self.c(0, 1); }
                if kb == Some(0) { return self.c(0, 1); }
                if let Some(k) = kb {
                    if k > self.umax(a) { return self.c(1, 1); }
                    if k == 1 { let z = self.c(0, w); return self.bin(B::Eq, a, z); }
                    if let N::Un(U::ZExt, x) = self.nodes[a as usize] {
                        let kk = self.c(k, self.w(x));
                        return self.bin(B::Ult, x, kk);
                    }
                }
                if let Some(k) = ka {
                    if k >= self.umax(b) { return self.c(0, 1); }
                    if let N::Un(U::ZExt, x) = self.nodes[b as usize] {
                        let kk = self.c(k, self.w(x));
                        return self.bin(B::Ult, kk, x);
                    }
                }
                if let (N::Un(U::ZExt, x), N::Un(U::ZExt, y)) = (self.nodes[a as usize], self.nodes[b as usize]) {
                    if self.w(x) == self.w(y) { return self.bin(B::Ult, x, y); }
                }
                if w == 1 {
                    let na = self.not(a);
                    return self.bin(B::And, na, b);
                }
            }
            B::Ule => {
                // a <= b  <=>  !(b < a)
                let x = self.bin(B::Ult, b, a);
                return self.not(x);
            }
            B::Slt => {
                if a == b { return self.c(0, 1); }
                // both known non-negative: unsigned comparison
                let hb = 1u128 << (w - 1);
                if self.umax(a) < hb && self.umax(b) < hb { return self.bin(B::Ult, a, b); }
                if kb == Some(0) && w > 1 {
                    return self.ext(a, w - 1, 1);
                }
                if ka == Some(m) && w > 1 {
                    let sb = self.ext(b, w - 1, 1);
                    return self.not(sb);
                }
                if let (Some(k), N::Ite(c, t, f)) = (kb, self.nodes[a as usize]) {
                    if self.konst(t).is_some() && self.konst(f).is_some() {
                        let kk = self.c(k, w);
                        let (x, y) = (self.bin(B::Slt, t, kk), self.bin(B::Slt, f, kk));
                        return self.ite(c, x, y);
                    }
                }
                if let (Some(k), N::Ite(c, t, f)) = (ka, self.nodes[b as usize]) {
                    if self.konst(t).is_some() && self.konst(f).is_some() {
                        let kk = self.c(k, w);
                        let (x, y) = (self.bin(B::Slt, kk, t), self.bin(B::Slt, kk, f));
                        return self.ite(c, x, y);
                    }
                }
            }
            B::Sle => {
                let x = self.bin(B::Slt, b, a);
                return self.not(x);
            }
            B::Concat => {
                if ka == Some(0) { return self.zext(b, rw); }
                // adjacent extracts of the same term
                if let (N::Ext(x, lx), N::Ext(y, ly)) = (self.nodes[a as usize], self.nodes[b as usize]) {
                    if x == y && lx == ly + wb { return self.ext(x, ly, rw); }
                }
                if let (N::Ext(x, lx), N::Bin(B::Concat, y1, y2)) = (self.nodes[a as usize], self.nodes[b as usize]) {
                    if let N::Ext(y, ly) = self.nodes[y1 as usize] {
                        if x == y && lx == ly + self.w(y1) {
                            let h = self.ext(x, ly, w + self.w(y1));
                            return self.bin(B::Concat, h, y2);
                        }
                    }
                }
                // right-associate so that adjacent pieces meet
                if let N::Bin(B::Concat, x, y) = self.nodes[a as usize] {
                    let yb = self.bin(B::Concat, y, b);
                    return self.bin(B::Concat, x, yb);
                }
                // concat(zext(x)[hi zeros] ...) with zero tail is left alone
                if let N::Un(U::ZExt, x) = self.nodes[a as usize] {
                    let t = self.bin(B::Concat, x, b);
                    return self.zext(t, rw);
                }
                if let (Some(k1), N::Bin(B::Concat, y1, y2)) = (ka, self.nodes[b as usize]) {
                    if let Some(k2) = self.konst(y1) {
                        let wy = self.w(y1);
                        let h = self.c((k1 << wy) | k2, w + wy);
                        return self.bin(B::Concat, h, y2);
                    }
                }
            }
            B::FAdd => {
                if let Some(k) = kb {
                    if k == 1u128 << (w - 1) { return a; } // x + (-0.0)
                }
            }
            B::FSub => {
                if kb == Some(0) { return a; } // x - 0.0
            }
            B::FMul => {
                if let Some(k) = kb {
                    if (w == 32 && k == 0x3f800000) || (w == 64 && k == 0x3ff0000000000000) { return a; }
                }
            }
            B::FDiv => {
                if let Some(k) = kb {
                    if (w == 32 && k == 0x3f800000) || (w == 64 && k == 0x3ff0000000000000) { return a; }
                    // dividing by a power of two is multiplying by its (normal) reciprocal: both round the same real
                    if w == 32 {
                        let e = (k >> 23) & 0xff;
                        if k & 0x7fffff == 0 && (1..=253).contains(&e) { let r = self.c((k & 0x80000000) | ((254 - e) << 23), 32); return self.bin(B::FMul, a, r); }
                    } else if w == 64 {
                        let e = (k >> 52) & 0x7ff;
                        if k & 0xfffffffffffff == 0 && (1..=2045).contains(&e) { let r = self.c((k & (1u128 << 63)) | ((2046 - e) << 52), 64); return self.bin(B::FMul, a, r); }
                    }
                }
            }
            B::FOlt => {
                if a == b { return self.c(0, 1); }
            }
            B::SDiv | B::SRem | B::FOeq | B::FOle | B::FPow | B::FRem => {}
        }
        self.mk(N::Bin(op, a, b), rw)
    }
    /// or of two terms with disjoint non-zero pieces (byte assembly) -> concat
    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        // a = concat(hi, 0_k) ; b = zext(lo) with width(lo) <= k (or the other way round)
        let w = self.w(a);
        for (p, q) in [(a, b), (b, a)] {
            // p may itself be zext(concat(hi,0))
            let mut pp = p;
            if let N::Un(U::ZExt, x) = self.nodes[p as usize] { pp = x; }
            if let N::Bin(B::Concat, hi, z) = self.nodes[pp as usize] {
                if self.konst(z) == Some(0) {
                    let k = self.w(z);
                    if self.umax(q) <= mask(k) {
                        let lo = self.ext(q, 0, k);
                        let r = self.bin(B::Concat, hi, lo);
                        return Some(self.zext(r, w));
                    }
                }
            }
        }
        None
    }
    /// cheap upper bound of the unsigned value
    pub fn umax(&self, e: E) -> u128 {
        let w = self.w(e);
        match self.nodes[e as usize] {
            N::C(v) => v,
            N::Un(U::ZExt, x) => self.umax(x),
            N::Bin(B::And, x, y) => {
                // bounded depth: look at constants only
                let mut m = mask(w);
                if let Some(k) = self.konst(y) { m = m.min(k); }
                if let N::Un(U::ZExt, z) = self.nodes[x as usize] { m = m.min(mask(self.w(z))); }
                m
            }
            N::Bin(B::Concat, x, y) => (self.umax(x) << self.w(y)) | mask(self.w(y)),
            N::Ite(_, t, f) => {
                let g = |e: E| match self.nodes[e as usize] { N::C(v) => v, N::Un(U::ZExt, z) => mask(self.w(z)), _ => mask(w) };
                g(t).max(g(f))
            }
            _ => mask(w),
        }
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w { return e; }
        match self.nodes[e as usize] {
            N::C(v) => self.c(v, w),
            N::Un(U::ZExt, x) => self.zext(x, w),
            _ => self.mk(N::Un(U::ZExt, e), w),
        }
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let we = self.w(e);
        if we == w { return e; }
        match self.nodes[e as usize] {
            N::C(v) => { let v = sx(v, we) as u128; self.c(v, w) }
            N::Un(U::ZExt, x) => self.zext(x, w),
            N::Un(U::SExt, x) => self.sext(x, w),
            _ => self.mk(N::Un(U::SExt, e), w),
        }
    }
    /// `w` bits of e starting at bit lo
    pub fn ext(&mut self, e: E, lo: u32, w: u32) -> E {
        let we = self.w(e);
        if lo == 0 && w == we { return e; }
        debug_assert!(lo + w <= we);
        match self.nodes[e as usize] {
            N::C(v) => self.c(v >> lo, w),
            N::Ext(x, l2) => self.ext(x, l2 + lo, w),
            // sign bit of a widened float
            N::Un(U::FExt, x) if w == 1 && lo + 1 == we => {
                let wx = self.w(x);
                self.ext(x, wx - 1, 1)
            }
            N::Un(U::ZExt, x) => {
                let wx = self.w(x);
                if lo >= wx { return self.c(0, w); }
                if lo + w <= wx { return self.ext(x, lo, w); }
                let y = self.ext(x, lo, wx - lo);
                self.zext(y, w)
            }
            N::Un(U::SExt, x) => {
                let wx = self.w(x);
                if lo + w <= wx { return self.ext(x, lo, w); }
                self.mk(N::Ext(e, lo), w)
            }
            N::Bin(B::Concat, x, y) => {
                let wy = self.w(y);
                if lo >= wy { return self.ext(x, lo - wy, w); }
                if lo + w <= wy { return self.ext(y, lo, w); }
                let h = self.ext(x, 0, lo + w - wy);
                let l = self.ext(y, lo, wy - lo);
                self.bin(B::Concat, h, l)
            }
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let x = self.ext(x, lo, w);
                let y = self.ext(y, lo, w);
                self.bin(op, x, y)
            }
            N::Bin(op @ (B::Add | B::Mul | B::Sub), x, y) if lo == 0 => {
                let x = self.ext(x, 0, w);
                let y = self.ext(y, 0, w);
                self.bin(op, x, y)
            }
            N::Ite(c, t, f) if self.konst(t).is_some() || self.konst(f).is_some() => {
                let t = self.ext(t, lo, w);
                let f = self.ext(f, lo, w);
                self.ite(c, t, f)
            }
            _ => self.mk(N::Ext(e, lo), w),
        }
    }
    /// (x & 0x7f..f) | (sign bit of x)  =  x
    fn or_sign(&self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        if w < 2 { return None; }
        let N::Bin(B::And, x, k) = self.nodes[a as usize] else { return None };
        if self.konst(k) != Some(mask(w) >> 1) { return None; }
        match self.nodes[b as usize] {
            N::Bin(B::And, y, k2) if y == x && self.konst(k2) == Some(1u128 << (w - 1)) => Some(x),
            N::Bin(B::Concat, h, z) if self.konst(z) == Some(0) => match self.nodes[h as usize] {
                N::Ext(y, lo) if y == x && lo == w - 1 && self.w(h) == 1 => Some(x),
                _ => None,
            },
            N::Ite(c, t, f) if self.konst(t) == Some(1u128 << (w - 1)) && self.konst(f) == Some(0) => match self.nodes[c as usize] {
                N::Ext(y, lo) if y == x && lo == w - 1 => Some(x),
                _ => None,
            },
            _ => None,
        }
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.konst(c) { return if k == 1 { t } else { f }; }
        if t == f { return t; }
        if let Some(nc) = self.is_not(c) { return self.ite(nc, f, t); }
        let w = self.w(t);
        if w == 1 {
            match (self.konst(t), self.konst(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(B::Or, c, f),
                (Some(0), None) => { let n = self.not(c); return self.bin(B::And, n, f); }
                (None, Some(0)) => return self.bin(B::And, c, t),
                (None, Some(1)) => { let n = self.not(c); return self.bin(B::Or, n, t); }
                _ => {}
            }
        }
        if let N::Ite(c2, t2, _) = self.nodes[t as usize] { if c2 == c { return self.ite(c, t2, f); } }
        if let N::Ite(c2, _, f2) = self.nodes[f as usize] { if c2 == c { return self.ite(c, t, f2); } }
        self.mk(N::Ite(c, t, f), w)
    }
    pub fn un(&mut self, op: U, a: E, w: u32) -> E {
        match op {
            U::ZExt => return self.zext(a, w),
            U::SExt => return self.sext(a, w),
            _ => {}
        }
        if let Some(v) = self.konst(a) {
            let r = ev_un(op, w, self.w(a), v);
            return self.c(r, w);
        }
        // double -> float of an exactly widened float
        if let (U::FTrunc, N::Un(U::FExt, x)) = (op, self.nodes[a as usize]) { return x; }
        if let (U::FIsNan, N::Un(U::FExt, x)) = (op, self.nodes[a as usize]) { return self.un(U::FIsNan, x, 1); }
        if let (U::FIsNan, N::Un(U::SiToFp | U::UiToFp, _)) = (op, self.nodes[a as usize]) { return self.c(0, 1); }
        self.mk(N::Un(op, a), w)
    }
    pub fn and(&mut self, a: E, b: E) -> E { self.bin(B::And, a, b) }
    pub fn or(&mut self, a: E, b: E) -> E { self.bin(B::Or, a, b) }
    pub fn eq(&mut self, a: E, b: E) -> E { self.bin(B::Eq, a, b) }

    /// concrete evaluation under an assignment of the variables
    pub fn eval(&self, e: E, asg: &[u128], memo: &mut HashMap<E, u128, BuildFx>) -> u128 {
        // iterative post-order to survive deep terms
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) { st.pop(); continue; }
            let w = self.width[x as usize];
            macro_rules! g {
                ($y:expr) => {
                    match self.nodes[$y as usize] { N::C(v) => Some(v), _ => memo.get(&$y).copied() }
                };
            }
            let v = match self.nodes[x as usize] {
                N::C(v) => Some(v),
                N::Var(i) => Some(asg.get(i as usize).copied().unwrap_or(0)),
                N::Un(op, a) => match g!(a) { Some(v) => Some(ev_un(op, w, self.w(a), v)), None => { st.push(a); None } },
                N::Bin(op, a, b) => match (g!(a), g!(b)) {
                    (Some(p), Some(q)) => Some(ev_bin(op, self.w(a), self.w(b), p, q)),
                    (p, q) => { if p.is_none() { st.push(a) } if q.is_none() { st.push(b) } None }
                },
                N::Ite(c, t, f) => match g!(c) {
                    Some(k) => { let y = if k == 1 { t } else { f }; match g!(y) { Some(v) => Some(v), None => { st.push(y); None } } }
                    None => { st.push(c); None }
                },
                N::Ext(a, lo) => match g!(a) { Some(v) => Some((v >> lo) & mask(w)), None => { st.push(a); None } },
                N::Fma(a, b, c) => match (g!(a), g!(b), g!(c)) {
                    (Some(p), Some(q), Some(r)) => Some(if w == 32 { canon32(f32b(p).mul_add(f32b(q), f32b(r))) } else { canon64(f64b(p).mul_add(f64b(q), f64b(r))) }),
                    (p, q, r) => { if p.is_none() { st.push(a) } if q.is_none() { st.push(b) } if r.is_none() { st.push(c) } None }
                },
            };
            if let Some(v) = v { memo.insert(x, v); st.pop(); }
        }
        memo[&e]
    }
    /// flattened conjunction for repeated evaluation
    pub fn plan(&self, cs: &[E]) -> Plan {
        let mut pos: HashMap<E, u32, BuildFx> = HashMap::with_hasher(BuildFx);
        let mut p = Plan { ops: vec![], roots: vec![] };
        for e in cs {
            let mut st = vec![*e];
            while let Some(&x) = st.last() {
                if pos.contains_key(&x) { st.pop(); continue; }
                let (k, n): ([E; 3], usize) = match self.nodes[x as usize] {
                    N::C(_) | N::Var(_) => ([0; 3], 0),
                    N::Un(_, a) | N::Ext(a, _) => ([a, 0, 0], 1),
                    N::Bin(_, a, b) => ([a, b, 0], 2),
                    N::Ite(a, b, c) | N::Fma(a, b, c) => ([a, b, c], 3),
                };
                let mut ok = true;
                for y in &k[..n] { if !pos.contains_key(y) { st.push(*y); ok = false; } }
                if !ok { continue; }
                let q = |y: E| pos[&y];
                let node = match self.nodes[x as usize] {
                    N::Un(o, a) => PN::Un(o, q(a), self.w(a)),
                    N::Ext(a, lo) => PN::Ext(q(a), lo),
                    N::Bin(o, a, b) => PN::Bin(o, q(a), q(b), self.w(a), self.w(b)),
                    N::Ite(a, b, c) => PN::Ite(q(a), q(b), q(c)),
                    N::Fma(a, b, c) => PN::Fma(q(a), q(b), q(c)),
                    N::C(v) => PN::C(v),
                    N::Var(i) => PN::Var(i),
                };
                pos.insert(x, p.ops.len() as u32);
                p.ops.push((node, self.w(x)));
                st.pop();
            }
            p.roots.push(pos[e]);
        }
        p
    }
    /// sorted list of variables occurring in e
    pub fn vars_in(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if self.vars_of.len() < self.nodes.len() { self.vars_of.resize(self.nodes.len(), None); }
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.vars_of[x as usize].is_some() { st.pop(); continue; }
            let kids: Vec<E> = match self.nodes[x as usize] {
                N::C(_) | N::Var(_) => vec![],
                N::Un(_, a) | N::Ext(a, _) => vec![a],
                N::Bin(_, a, b) => vec![a, b],
                N::Ite(a, b, c) | N::Fma(a, b, c) => vec![a, b, c],
            };
            let pend: Vec<E> = kids.iter().copied().filter(|k| self.vars_of[*k as usize].is_none()).collect();
            if pend.is_empty() {
                let r = match self.nodes[x as usize] {
                    N::Var(i) => std::rc::Rc::new(vec![i]),
                    _ => {
                        if kids.is_empty() { std::rc::Rc::new(vec![]) }
                        else if kids.len() == 1 { self.vars_of[kids[0] as usize].clone().unwrap() }
                        else {
                            let mut v: Vec<u32> = vec![];
                            for k in &kids { v.extend(self.vars_of[*k as usize].as_ref().unwrap().iter()); }
                            v.sort_unstable(); v.dedup();
                            // a superset child shares its list
                            match kids.iter().find(|k| self.vars_of[**k as usize].as_ref().unwrap().len() == v.len()) {
                                Some(k) => self.vars_of[*k as usize].clone().unwrap(),
                                None => std::rc::Rc::new(v),
                            }
                        }
                    }
                };
                self.vars_of[x as usize] = Some(r);
                st.pop();
            } else { st.extend(pend); }
        }
        self.vars_of[e as usize].clone().unwrap()
    }
}

enum PN { C(u128), Var(u32), Un(U, u32, u32), Bin(B, u32, u32, u32, u32), Ite(u32, u32, u32), Ext(u32, u32), Fma(u32, u32, u32) }
pub struct Plan { ops: Vec<(PN, u32)>, roots: Vec<u32> }
impl Plan {
    pub fn len(&self) -> usize { self.ops.len() }
    /// the conjuncts that do not hold under the assignment
    pub fn violated(&self, asg: &[u128], buf: &mut Vec<u128>, out: &mut Vec<u32>) {
        buf.clear();
        for (n, w) in &self.ops {
            let g = |i: u32| buf[i as usize];
            let v = match *n {
                PN::C(v) => v,
                PN::Var(i) => asg.get(i as usize).copied().unwrap_or(0),
                PN::Un(o, a, wa) => ev_un(o, *w, wa, g(a)),
                PN::Bin(o, a, b, wa, wb) => ev_bin(o, wa, wb, g(a), g(b)),
                PN::Ite(a, b, c) => if g(a) == 1 { g(b) } else { g(c) },
                PN::Ext(a, lo) => (g(a) >> lo) & mask(*w),
                PN::Fma(a, b, c) => { let (p, q, r) = (g(a), g(b), g(c)); if *w == 32 { canon32(f32b(p).mul_add(f32b(q), f32b(r))) } else { canon64(f64b(p).mul_add(f64b(q), f64b(r))) } }
            };
            buf.push(v);
        }
        out.clear();
        for (i, r) in self.roots.iter().enumerate() { if buf[*r as usize] != 1 { out.push(i as u32); } }
    }
}
