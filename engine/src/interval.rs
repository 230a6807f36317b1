//! Sound interval facts about float terms on one path.
//!
//! A path condition such as `-10 <= y && y <= 10` gives bounds for the term `y`; bounds of compound
//! terms follow because IEEE round-to-nearest is monotone, so evaluating an operation at the end
//! points in the same precision bounds its result.  Used to simplify conditions before they reach
//! the solver and to hand the solver bounds for uninterpreted float operations.
use crate::expr::*;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv {
    pub lo: f64,
    pub hi: f64,
    pub nan: bool,
    pub nz: bool, // zero is excluded
}
pub const FULL: Iv = Iv { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true, nz: false };
pub type Facts = HashMap<E, Iv, BuildFx>;

fn next_up(x: f64, w: u32) -> f64 {
    if x == f64::INFINITY { return x; }
    if w == 32 { let f = x as f32; f.next_up() as f64 } else { x.next_up() }
}
fn next_down(x: f64, w: u32) -> f64 { -next_up(-x, w) }
fn rnd(x: f64, w: u32) -> f64 { if w == 32 { (x as f32) as f64 } else { x } }
fn op32(op: B, a: f64, b: f64, w: u32) -> f64 {
    if w == 32 {
        let (a, b) = (a as f32, b as f32);
        (match op { B::FAdd => a + b, B::FSub => a - b, B::FMul => a * b, _ => a / b }) as f64
    } else {
        match op { B::FAdd => a + b, B::FSub => a - b, B::FMul => a * b, _ => a / b }
    }
}
/// bound of a libm function that is accurate to 1e-6 relative (eight units in the last place of f32)
fn libm(f: fn(f64) -> f64, x: f64, w: u32, up: bool) -> f64 {
    let v = f(x);
    if !v.is_finite() { return v; }
    let t = if w == 32 { v as f32 as f64 } else { v };
    if !t.is_finite() { return if up { f64::INFINITY } else if t > 0.0 { f32::MAX as f64 } else { f64::NEG_INFINITY }; }
    let d = v.abs() * if w == 32 { 1e-6 } else { 1e-14 } + if w == 32 { 2e-45 } else { 1e-320 };
    let r = if up { next_up(rnd(v + d, w), w) } else { next_down(rnd(v - d, w), w) };
    r
}
impl Iv {
    pub fn meet(self, o: Iv) -> Iv {
        Iv { lo: self.lo.max(o.lo), hi: self.hi.min(o.hi), nan: self.nan && o.nan, nz: self.nz || o.nz }.norm()
    }
    fn join(self, o: Iv) -> Iv {
        // an empty numeric part (lo > hi) means "only NaN"
        if self.lo > self.hi { return Iv { nan: self.nan || o.nan, ..o }; }
        if o.lo > o.hi { return Iv { nan: self.nan || o.nan, ..self }; }
        Iv { lo: self.lo.min(o.lo), hi: self.hi.max(o.hi), nan: self.nan || o.nan, nz: self.nz && o.nz }
    }
    fn norm(mut self) -> Iv {
        if self.lo > 0.0 || self.hi < 0.0 { self.nz = true; }
        self
    }
    pub fn full(&self) -> bool { *self == FULL }
    fn has_zero(&self) -> bool { self.lo <= 0.0 && self.hi >= 0.0 && !self.nz }
    fn inf(&self) -> bool { self.lo == f64::NEG_INFINITY || self.hi == f64::INFINITY }
}
fn of_const(v: u128, w: u32) -> Iv {
    let f = if w == 32 { f32b(v) as f64 } else { f64b(v) };
    if f.is_nan() { return Iv { lo: f64::INFINITY, hi: f64::NEG_INFINITY, nan: true, nz: true }; }
    Iv { lo: f, hi: f, nan: false, nz: f != 0.0 }
}
fn kids(n: N) -> Vec<E> {
    match n {
        N::C(_) | N::Var(_) => vec![],
        N::Un(_, a) | N::Ext(a, _) => vec![a],
        N::Bin(_, a, b) => vec![a, b],
        N::Ite(a, b, c) | N::Fma(a, b, c) => vec![a, b, c],
    }
}
fn is_f(w: u32) -> bool { w == 32 || w == 64 }
fn sign_mask(cx: &Ctx, e: E) -> Option<(bool, E)> {
    let w = cx.w(e);
    match cx.nodes[e as usize] {
        N::Bin(B::Xor, a, b) if cx.konst(b) == Some(1u128 << (w - 1)) => Some((true, a)),
        N::Bin(B::And, a, b) if cx.konst(b) == Some(mask(w - 1)) => Some((false, a)),
        _ => None,
    }
}

/// interval of a float term; `memo` is valid for the given facts only
pub fn iv(cx: &Ctx, facts: &Facts, memo: &mut Facts, e: E) -> Iv {
    if let N::C(v) = cx.nodes[e as usize] { return if is_f(cx.w(e)) { of_const(v, cx.w(e)) } else { FULL }; }
    if let Some(i) = memo.get(&e) { return *i; }
    let mut st = vec![e];
    while let Some(&x) = st.last() {
        if memo.contains_key(&x) { st.pop(); continue; }
        let n = cx.nodes[x as usize];
        let w = cx.w(x);
        // only float-typed children matter
        let ks: Vec<E> = match n {
            N::Bin(B::FAdd | B::FSub | B::FMul | B::FDiv, ..) | N::Fma(..) => kids(n),
            N::Un(U::FExt | U::FTrunc | U::FSqrt | U::FExp | U::FLn | U::FLn1p | U::FExpm1 | U::FFloor | U::FCeil | U::FTruncInt | U::FRound | U::FRoundEven | U::FTanh | U::FSin | U::FCos, a) => vec![a],
            N::Ite(c, t, f) if is_f(w) => { let mut v = vec![t, f]; if let N::Bin(B::FOlt | B::FOle, p, q) = cx.nodes[c as usize] { v.push(p); v.push(q); } v }
            _ => match if is_f(w) { sign_mask(cx, x) } else { None } { Some((_, a)) => vec![a], None => vec![] },
        };
        let pend: Vec<E> = ks.iter().copied().filter(|k| !matches!(cx.nodes[*k as usize], N::C(_)) && !memo.contains_key(k)).collect();
        if !pend.is_empty() { st.extend(pend); continue; }
        let g = |y: E| -> Iv { if let N::C(v) = cx.nodes[y as usize] { of_const(v, cx.w(y)) } else { memo[&y] } };
        let mut r = match n {
            N::Bin(op @ (B::FAdd | B::FSub | B::FMul | B::FDiv), a, b) => arith(op, g(a), g(b), w, a == b),
            N::Fma(a, b, c) => {
                let (p, q, s) = (g(a), g(b), g(c));
                if p.nan || q.nan || s.nan || p.inf() || q.inf() || s.inf() || p.lo > p.hi || q.lo > q.hi || s.lo > s.hi { FULL } else {
                    let f = |x: f64, y: f64, z: f64| if w == 32 { (x as f32).mul_add(y as f32, z as f32) as f64 } else { x.mul_add(y, z) };
                    let lo = [f(p.lo, q.lo, s.lo), f(p.lo, q.hi, s.lo), f(p.hi, q.lo, s.lo), f(p.hi, q.hi, s.lo)].into_iter().fold(f64::INFINITY, f64::min);
                    let hi = [f(p.lo, q.lo, s.hi), f(p.lo, q.hi, s.hi), f(p.hi, q.lo, s.hi), f(p.hi, q.hi, s.hi)].into_iter().fold(f64::NEG_INFINITY, f64::max);
                    Iv { lo, hi, nan: false, nz: false }
                }
            }
            N::Un(op, a) => match op {
                U::FExt => g(a),
                U::FTrunc => { let i = g(a); if i.lo > i.hi { i } else { Iv { lo: rnd(i.lo, 32), hi: rnd(i.hi, 32), nan: i.nan, nz: false } } }
                U::FSqrt => { let i = g(a); let s = |x: f64| if w == 32 { (x.max(0.0) as f32).sqrt() as f64 } else { x.max(0.0).sqrt() }; if i.lo > i.hi || i.hi < 0.0 { Iv { nan: true, ..FULL } } else { Iv { lo: s(i.lo), hi: s(i.hi), nan: i.nan || i.lo < 0.0, nz: i.nz } } }
                U::FExp => { let i = g(a); Iv { lo: libm(f64::exp, i.lo, w, false).max(if i.lo >= 0.0 { 1.0 } else { 0.0 }), hi: libm(f64::exp, i.hi, w, true).min(if i.hi <= 0.0 { 1.0 } else { f64::INFINITY }), nan: i.nan, nz: false } }
                U::FExpm1 => { let i = g(a); Iv { lo: libm(f64::exp_m1, i.lo, w, false).max(if i.lo >= 0.0 { 0.0 } else { -1.0 }), hi: libm(f64::exp_m1, i.hi, w, true).min(if i.hi <= 0.0 { 0.0 } else { f64::INFINITY }), nan: i.nan, nz: false } }
                U::FLn => { let i = g(a); Iv { lo: if i.lo >= 1.0 { libm(f64::ln, i.lo, w, false).max(0.0) } else if i.lo > 0.0 { libm(f64::ln, i.lo, w, false) } else { f64::NEG_INFINITY }, hi: if i.hi > 0.0 { libm(f64::ln, i.hi, w, true) } else { 0.0 }, nan: i.nan || i.lo < 0.0, nz: false } }
                U::FLn1p => { let i = g(a); Iv { lo: if i.lo >= 0.0 { libm(f64::ln_1p, i.lo, w, false).max(0.0) } else if i.lo > -1.0 { libm(f64::ln_1p, i.lo, w, false) } else { f64::NEG_INFINITY }, hi: if i.hi > -1.0 { libm(f64::ln_1p, i.hi, w, true) } else { 0.0 }, nan: i.nan || i.lo < -1.0, nz: false } }
                U::FFloor | U::FCeil | U::FTruncInt | U::FRound | U::FRoundEven => {
                    let i = g(a);
                    let f = |x: f64| match op { U::FFloor => x.floor(), U::FCeil => x.ceil(), U::FTruncInt => x.trunc(), U::FRound => x.round(), _ => x.round_ties_even() };
                    if i.lo > i.hi { i } else { Iv { lo: f(i.lo), hi: f(i.hi), nan: i.nan, nz: false } }
                }
                U::FTanh | U::FSin | U::FCos => { let i = g(a); Iv { lo: -1.0, hi: 1.0, nan: i.nan || (op != U::FTanh && i.inf()), nz: false } }
                U::UiToFp => { let m = cx.umax(a); let h = if w == 32 { (m as f32) as f64 } else { m as f64 }; Iv { lo: 0.0, hi: h, nan: false, nz: false } }
                U::SiToFp => { let h = 2f64.powi(cx.w(a) as i32 - 1); Iv { lo: -h, hi: h, nan: false, nz: false } }
                _ => FULL,
            },
            N::Ite(c, t, f) if is_f(w) => {
                let (mut ti, mut fi) = (g(t), g(f));
                match cx.nodes[c as usize] {
                    N::Bin(op @ (B::FOlt | B::FOle), p, q) => {
                        let (pi, qi) = (g(p), g(q));
                        let _ = op;
                        // condition true: p <= q, both numbers
                        if t == p { ti = ti.meet(Iv { lo: f64::NEG_INFINITY, hi: qi.hi, nan: false, nz: false }); }
                        if t == q { ti = ti.meet(Iv { lo: pi.lo, hi: f64::INFINITY, nan: false, nz: false }); }
                        // condition false: p >= q or a NaN
                        if f == p && !qi.nan { fi = fi.meet(Iv { lo: qi.lo, hi: f64::INFINITY, nan: true, nz: false }); }
                        if f == q && !pi.nan { fi = fi.meet(Iv { lo: f64::NEG_INFINITY, hi: pi.hi, nan: true, nz: false }); }
                    }
                    N::Un(U::FIsNan, x) if x == f => fi.nan = false,
                    N::Bin(B::Xor, y, k) if cx.konst(k) == Some(1) => if let N::Un(U::FIsNan, x) = cx.nodes[y as usize] { if x == t { ti.nan = false } },
                    _ => {}
                }
                ti.join(fi)
            }
            _ => match if is_f(w) { sign_mask(cx, x) } else { None } {
                Some((true, a)) => { let i = g(a); Iv { lo: -i.hi, hi: -i.lo, ..i } }
                Some((false, a)) => {
                    let i = g(a);
                    if i.lo > i.hi { i } else {
                        let hi = i.hi.abs().max(i.lo.abs());
                        let lo = if i.lo >= 0.0 { i.lo } else if i.hi <= 0.0 { -i.hi } else { 0.0 };
                        Iv { lo, hi, nan: i.nan, nz: i.nz }
                    }
                }
                None => FULL,
            },
        };
        if let Some(f) = facts.get(&x) { r = r.meet(*f); }
        r = r.norm();
        if r.nz && is_f(w) && r.lo <= r.hi {
            if r.lo == 0.0 { r.lo = next_up(0.0, w); }
            if r.hi == 0.0 { r.hi = next_down(0.0, w); }
        }
        memo.insert(x, r);
        st.pop();
    }
    memo[&e]
}
fn arith(op: B, a: Iv, b: Iv, w: u32, same: bool) -> Iv {
    if a.lo > a.hi || b.lo > b.hi { return FULL; }
    let mut nan = a.nan || b.nan;
    let corners = |a: Iv, b: Iv, nan: &mut bool| -> (f64, f64) {
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        for x in [a.lo, a.hi] { for y in [b.lo, b.hi] {
            let v = op32(op, x, y, w);
            if v.is_nan() { *nan = true; lo = lo.min(0.0); hi = hi.max(0.0); if op != B::FMul { lo = f64::NEG_INFINITY; hi = f64::INFINITY; } } else { lo = lo.min(v); hi = hi.max(v); }
        } }
        (lo, hi)
    };
    match op {
        B::FAdd => {
            if (a.hi == f64::INFINITY && b.lo == f64::NEG_INFINITY) || (a.lo == f64::NEG_INFINITY && b.hi == f64::INFINITY) { if !same { nan = true; } }
            let s = |x: f64, y: f64, d: f64| { let v = op32(op, x, y, w); if v.is_nan() { d } else { v } };
            let lo = s(a.lo, b.lo, f64::NEG_INFINITY);
            let hi = s(a.hi, b.hi, f64::INFINITY);
            // adding numbers of one sign, one of them non-zero, never gives zero
            let nz = (a.lo >= 0.0 && b.lo >= 0.0 || a.hi <= 0.0 && b.hi <= 0.0) && (a.nz || b.nz);
            Iv { lo, hi, nan, nz }.norm()
        }
        B::FSub => {
            if same && !a.inf() { return Iv { lo: 0.0, hi: 0.0, nan: a.nan, nz: false }; }
            if (a.hi == f64::INFINITY && b.hi == f64::INFINITY) || (a.lo == f64::NEG_INFINITY && b.lo == f64::NEG_INFINITY) { nan = true; }
            let s = |x: f64, y: f64, d: f64| { let v = op32(op, x, y, w); if v.is_nan() { d } else { v } };
            Iv { lo: s(a.lo, b.hi, f64::NEG_INFINITY), hi: s(a.hi, b.lo, f64::INFINITY), nan, nz: false }.norm()
        }
        B::FMul => {
            if (a.has_zero() && b.inf()) || (b.has_zero() && a.inf()) { nan = true; }
            let mut n2 = false;
            let (mut lo, hi) = corners(a, b, &mut n2);
            if same { lo = lo.max(0.0); }
            Iv { lo, hi, nan, nz: false }.norm()
        }
        _ => {
            if a.inf() && b.inf() { nan = true; }
            if a.has_zero() && b.has_zero() { nan = true; }
            if b.lo > 0.0 || b.hi < 0.0 {
                let mut n2 = false;
                let (lo, hi) = corners(a, b, &mut n2);
                if n2 { let s = if a.lo >= 0.0 && b.lo > 0.0 { 0.0 } else { f64::NEG_INFINITY }; return Iv { lo: s, hi: f64::INFINITY, nan: true, nz: false }; }
                return Iv { lo, hi, nan, nz: false }.norm();
            }
            // divisor may be (close to) zero; a non-negative ratio keeps its sign unless the divisor can be -0
            Iv { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan, nz: false }
        }
    }
}
/// decide a boolean term from the interval facts, if they suffice
pub fn truth(cx: &Ctx, facts: &Facts, memo: &mut Facts, e: E, depth: u32) -> Option<bool> {
    if cx.w(e) != 1 || depth > 12 { return None; }
    match cx.nodes[e as usize] {
        N::C(v) => Some(v == 1),
        N::Un(U::FIsNan, a) => {
            let i = iv(cx, facts, memo, a);
            if !i.nan { Some(false) } else if i.lo > i.hi { Some(true) } else { None }
        }
        N::Bin(op @ (B::FOlt | B::FOle | B::FOeq), a, b) => {
            let (p, q) = (iv(cx, facts, memo, a), iv(cx, facts, memo, b));
            let num = !p.nan && !q.nan;
            // an empty side is a NaN: every comparison is false
            if p.lo > p.hi || q.lo > q.hi { return Some(false); }
            match op {
                B::FOlt => {
                    if num && p.hi < q.lo { return Some(true); }
                    if num && p.hi <= q.lo && p.hi == 0.0 && (p.nz || q.nz) { return Some(true); }
                    if p.lo >= q.hi { return Some(false); }
                }
                B::FOle => {
                    if num && (p.hi <= q.lo || a == b) { return Some(true); }
                    if p.lo > q.hi { return Some(false); }
                    if p.lo >= q.hi && p.lo == 0.0 && (p.nz || q.nz) { return Some(false); }
                }
                _ => {
                    if p.lo > q.hi || q.lo > p.hi { return Some(false); }
                    if (p.nz && q.lo == 0.0 && q.hi == 0.0) || (q.nz && p.lo == 0.0 && p.hi == 0.0) { return Some(false); }
                    if num && (a == b || (p.lo == p.hi && q.lo == q.hi && p.lo == q.lo)) { return Some(true); }
                }
            }
            None
        }
        N::Bin(B::And, a, b) => match (truth(cx, facts, memo, a, depth + 1), truth(cx, facts, memo, b, depth + 1)) {
            (Some(false), _) | (_, Some(false)) => Some(false),
            (Some(true), Some(true)) => Some(true),
            _ => None,
        },
        N::Bin(B::Or, a, b) => match (truth(cx, facts, memo, a, depth + 1), truth(cx, facts, memo, b, depth + 1)) {
            (Some(true), _) | (_, Some(true)) => Some(true),
            (Some(false), Some(false)) => Some(false),
            _ => None,
        },
        N::Bin(B::Xor, a, b) if cx.konst(b) == Some(1) => truth(cx, facts, memo, a, depth + 1).map(|x| !x),
        _ => None,
    }
}
fn add(cx: &Ctx, facts: &mut Facts, e: E, i: Iv, ch: &mut bool) {
    if cx.konst(e).is_some() { return; }
    let old = facts.get(&e).copied().unwrap_or(FULL);
    let n = old.meet(i);
    if n == old { return; }
    *ch = true;
    facts.insert(e, n);
    let w = cx.w(e);
    if let Some((neg, a)) = sign_mask(cx, e) {
        if neg { add(cx, facts, a, Iv { lo: -n.hi, hi: -n.lo, ..n }, ch); } else { add(cx, facts, a, Iv { lo: -n.hi, hi: n.hi, nan: n.nan, nz: n.nz }, ch); }
    }
    if let N::Un(U::FExt, a) = cx.nodes[e as usize] { if w == 64 { add(cx, facts, a, n, ch); } }
}
/// extend the facts with a condition known to hold (or, with pos = false, known not to hold)
pub fn learn(cx: &Ctx, facts: &mut Facts, memo: &mut Facts, e: E, pos: bool, ch: &mut bool) {
    if cx.w(e) != 1 { return; }
    match cx.nodes[e as usize] {
        N::Un(U::FIsNan, a) => {
            if pos { add(cx, facts, a, Iv { lo: f64::INFINITY, hi: f64::NEG_INFINITY, nan: true, nz: true }, ch); }
            else { add(cx, facts, a, Iv { nan: false, ..FULL }, ch); }
        }
        N::Bin(op @ (B::FOlt | B::FOle | B::FOeq), a, b) => {
            let w = cx.w(a);
            let (p, q) = (iv(cx, facts, memo, a), iv(cx, facts, memo, b));
            match (op, pos) {
                (B::FOlt, true) => {
                    add(cx, facts, a, Iv { lo: f64::NEG_INFINITY, hi: next_down(q.hi, w), nan: false, nz: false }, ch);
                    add(cx, facts, b, Iv { lo: next_up(p.lo, w), hi: f64::INFINITY, nan: false, nz: false }, ch);
                }
                (B::FOle, true) => {
                    add(cx, facts, a, Iv { lo: f64::NEG_INFINITY, hi: q.hi, nan: false, nz: false }, ch);
                    add(cx, facts, b, Iv { lo: p.lo, hi: f64::INFINITY, nan: false, nz: false }, ch);
                }
                (B::FOeq, true) => {
                    let m = p.meet(q);
                    let m = Iv { nan: false, ..m };
                    add(cx, facts, a, m, ch);
                    add(cx, facts, b, m, ch);
                }
                (B::FOlt, false) => {
                    // a >= b, or one of them is NaN
                    if !q.nan { add(cx, facts, a, Iv { lo: q.lo, hi: f64::INFINITY, nan: true, nz: false }, ch); }
                    if !p.nan { add(cx, facts, b, Iv { lo: f64::NEG_INFINITY, hi: p.hi, nan: true, nz: false }, ch); }
                }
                (B::FOle, false) => {
                    if !q.nan { add(cx, facts, a, Iv { lo: next_up(q.lo, w), hi: f64::INFINITY, nan: true, nz: false }, ch); }
                    if !p.nan { add(cx, facts, b, Iv { lo: f64::NEG_INFINITY, hi: next_down(p.hi, w), nan: true, nz: false }, ch); }
                }
                _ => {
                    for (x, k, xi) in [(a, q, p), (b, p, q)] {
                        if k.nan || k.lo != k.hi { continue; }
                        if k.lo == 0.0 { add(cx, facts, x, Iv { nz: true, ..FULL }, ch); }
                        else if xi.hi == k.lo { add(cx, facts, x, Iv { lo: f64::NEG_INFINITY, hi: next_down(k.lo, w), nan: true, nz: false }, ch); }
                        else if xi.lo == k.lo { add(cx, facts, x, Iv { lo: next_up(k.lo, w), hi: f64::INFINITY, nan: true, nz: false }, ch); }
                    }
                }
            }
        }
        N::Bin(B::And, a, b) if pos => { learn(cx, facts, memo, a, true, ch); learn(cx, facts, memo, b, true, ch); }
        N::Bin(B::Or, a, b) if !pos => { learn(cx, facts, memo, a, false, ch); learn(cx, facts, memo, b, false, ch); }
        // not(a < b) and not(b < a) for "not equal or unordered"
        N::Bin(B::Or, a, b) if pos => {
            // (a<b) | (b<a): both numbers and different
            if let (N::Bin(B::FOlt, x, y), N::Bin(B::FOlt, y2, x2)) = (cx.nodes[a as usize], cx.nodes[b as usize]) {
                if x == x2 && y == y2 {
                    add(cx, facts, x, Iv { nan: false, ..FULL }, ch);
                    add(cx, facts, y, Iv { nan: false, ..FULL }, ch);
                    memo.clear();
                    let (p, q) = (iv(cx, facts, memo, x), iv(cx, facts, memo, y));
                    for (x, k, xi) in [(x, q, p), (y, p, q)] {
                        if k.lo != k.hi { continue; }
                        let w = cx.w(x);
                        if k.lo == 0.0 { add(cx, facts, x, Iv { nz: true, ..FULL }, ch); }
                        else if xi.hi == k.lo { add(cx, facts, x, Iv { lo: f64::NEG_INFINITY, hi: next_down(k.lo, w), nan: true, nz: false }, ch); }
                        else if xi.lo == k.lo { add(cx, facts, x, Iv { lo: next_up(k.lo, w), hi: f64::INFINITY, nan: true, nz: false }, ch); }
                    }
                }
            }
        }
        N::Bin(B::Xor, a, b) if cx.konst(b) == Some(1) => learn(cx, facts, memo, a, !pos, ch),
        _ => {}
    }
}

/// memo table that is not copied when a path forks
#[derive(Default)]
pub struct Memo(pub Facts);
impl Clone for Memo { fn clone(&self) -> Memo { Memo(Facts::default()) } }
