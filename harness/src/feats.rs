//! Feature containers and interaction enumeration.
use crate::fx::*;
use crate::sym;
use reductionml_core::weights::*;

const NAMES: [&str; 3] = ["a", "b", " "];
/// namespace state: 0 absent, 1 present and empty, 2 one feature, 3 two features, 4 left over from a cleared object
fn fill(f: &mut SparseFeatures, tag: &str, k: usize, st: u32) {
    let n = ns(NAMES[k]);
    match st {
        0 => {}
        1 => { f.get_or_create_namespace(n); }
        _ => for j in 0..(st - 1) as usize { add(f, n, sym::u32(&nm(&format!("{tag}i{k}"), j)), sym::f32_finite(&nm(&format!("{tag}v{k}"), j))); }
    }
}
/// append then remove is the identity on the target and leaves the argument alone
#[no_mangle]
pub extern "C" fn append_remove() {
    let names: Vec<Namespace> = NAMES.iter().map(|n| ns(n)).collect();
    let mut f = SparseFeatures::new();
    let mut g = SparseFeatures::new();
    if sym::param(0) == 1 {
        // recycled objects keep cleared namespaces around
        for n in &names { add(&mut f, *n, 1, 1.0); add(&mut g, *n, 2, 2.0); }
        f.clear();
        g.clear();
    }
    let lim = sym::param(1) as u32;
    for k in 0..sym::param(2) as usize { let s = sym::choice(&nm("fs", k), lim); fill(&mut f, "f", k, s); }
    for k in 0..sym::param(2) as usize { let s = sym::choice(&nm("gs", k), lim); fill(&mut g, "g", k, s); }
    let (f0, g0) = (f.clone(), g.clone());
    f.append(&g);
    // the union: per namespace the target's features followed by the argument's
    for n in &names {
        let (a, b, c) = (view(&f0, *n), view(&g0, *n), view(&f, *n));
        match (a, b, c) {
            (None, None, None) => {}
            (a, b, Some((ci, cv))) => {
                sym::check(a.is_some() || b.is_some(), "append creates only namespaces of the argument");
                let (ai, av) = a.unwrap_or_default();
                let (bi, bv) = b.unwrap_or_default();
                sym::check(ci.len() == ai.len() + bi.len() && cv.len() == ci.len(), "append keeps every feature");
                for i in 0..ai.len() { sym::check(ci[i] == ai[i], "append keeps indices"); sym::check(sym::same(cv[i], av[i]), "append keeps values"); }
                for i in 0..bi.len() { sym::check(ci[ai.len() + i] == bi[i], "append adds indices"); sym::check(sym::same(cv[ai.len() + i], bv[i]), "append adds values"); }
            }
            _ => sym::check(false, "append keeps namespaces"),
        }
    }
    check_same(&g, &g0, &names, "append leaves its argument unchanged");
    f.remove(&g);
    check_same(&f, &f0, &names, "append then remove restores the features");
    check_same(&g, &g0, &names, "remove leaves its argument unchanged");
    // a second round on the restored object behaves the same
    f.append(&g);
    f.remove(&g);
    check_same(&f, &f0, &names, "a second append and remove restores the features");
    sym::reach("end");
}

/// reports, for every visit, which weight was used and the feature value
struct Probe { rec: std::cell::RefCell<Vec<(u32, u8)>>, v: f32, st: [f32; 2] }
impl Weights for Probe {
    fn weight_at(&self, i: FeatureIndex, m: ModelIndex) -> f32 { self.rec.borrow_mut().push((u32::from(i), u8::from(m))); self.v }
    fn weight_at_mut(&mut self, i: FeatureIndex, m: ModelIndex) -> &mut f32 { self.rec.borrow_mut().push((u32::from(i), u8::from(m))); &mut self.v }
    fn state_at(&self, i: FeatureIndex, m: ModelIndex) -> &[f32] { self.rec.borrow_mut().push((u32::from(i), u8::from(m))); &self.st }
    fn state_at_mut(&mut self, i: FeatureIndex, m: ModelIndex) -> &mut [f32] { self.rec.borrow_mut().push((u32::from(i), u8::from(m))); &mut self.st }
}
fn visit(which: u32, f: &SparseFeatures, p2: &[(Namespace, Namespace)], p3: &[(Namespace, Namespace, Namespace)], bits: u8, cst: bool, model: u8) -> Vec<(u32, f32)> {
    let mut p = Probe { rec: Default::default(), v: 0.0, st: [0.0; 2] };
    let mut vals = vec![];
    match which {
        0 => foreach_feature(ModelIndex::from(model), f, &p, p2, p3, bits, cst, |v, _| vals.push(v)),
        1 => foreach_feature_with_state(ModelIndex::from(model), f, &p, p2, p3, bits, cst, |v, _| vals.push(v)),
        _ => foreach_feature_with_state_mut(ModelIndex::from(model), f, &mut p, p2, p3, bits, cst, |v, _| vals.push(v)),
    }
    let rec = p.rec.into_inner();
    sym::check(rec.len() == vals.len(), "one weight per visited feature");
    for r in &rec { sym::check(r.1 == model, "the requested model is used"); }
    rec.iter().map(|r| r.0).zip(vals).collect()
}
const FNV: u32 = 16777619;
/// Reference enumeration: every feature once, every combination of an interaction once, the constant once.
/// mode 0: indices symbolic, values distinct primes, so that a product names its combination exactly;
/// mode 1: indices concrete (the reference index names the combination), values symbolic.
#[no_mangle]
pub extern "C" fn interactions() {
    let which = sym::param(0) as u32;
    let shape = sym::param(1);
    let (na, nb, nc) = (sym::param(2) as usize, sym::param(3) as usize, sym::param(4) as usize);
    let bits = sym::param(5) as u8;
    let mode = sym::param(6);
    let m = if bits == 32 { u32::MAX } else { (1u32 << bits) - 1 };
    let (a, b, c) = (ns("a"), ns("b"), ns(" "));
    let mut f = SparseFeatures::new();
    let primes = [3.0f32, 5.0, 7.0, 11.0, 13.0, 17.0, 19.0, 23.0, 29.0];
    let mut np = 0;
    let mut get = |n: Namespace, tag: &str, k: usize| -> Vec<(u32, f32)> {
        if k == 9 { return vec![]; } // namespace missing
        f.get_or_create_namespace(n);
        (0..k).map(|j| {
            np += 1;
            let (i, v) = if mode == 0 { (sym::u32(&nm(&format!("{tag}i"), j)) & m, primes[np - 1]) } else { ((np as u32).wrapping_mul(2654435761) & m, sym::f32_finite(&nm(&format!("{tag}v"), j))) };
            add(&mut f, n, i, v);
            (i, v)
        }).collect()
    };
    let fa = get(a, "a", na);
    let fb = get(b, "b", nb);
    let fc = get(c, "c", nc);
    let cst = sym::choice("constant", 2) == 1;
    let mut p2 = vec![];
    let mut p3 = vec![];
    let of = |k: u32| match k { 0 => (a, &fa), 1 => (b, &fb), _ => (c, &fc) };
    let (quads, cubes): (&[(u32, u32)], &[(u32, u32, u32)]) = match shape {
        0 => (&[], &[]),
        1 => (&[(0, 1)], &[]),
        2 => (&[(0, 0)], &[]),
        3 => (&[(0, 1), (1, 2), (1, 1)], &[]),
        4 => (&[], &[(0, 1, 2)]),
        5 => (&[], &[(0, 1, 1)]),
        6 => (&[], &[(0, 0, 1)]),
        7 => (&[], &[(0, 0, 0)]),
        8 => (&[(1, 0)], &[(2, 1, 0), (1, 1, 1)]),
        _ => (&[(0, 0)], &[(1, 0, 0)]),
    };
    for q in quads { p2.push((of(q.0).0, of(q.1).0)); }
    for q in cubes { p3.push((of(q.0).0, of(q.1).0, of(q.2).0)); }
    // index, and the value in every association of the product
    let mut want: Vec<(u32, [f32; 3])> = vec![];
    for x in fa.iter().chain(fb.iter()).chain(fc.iter()) { want.push((x.0, [x.1; 3])); }
    for q in quads {
        for (i, x) in of(q.0).1.iter().enumerate() { for (j, y) in of(q.1).1.iter().enumerate() {
            if q.0 == q.1 && j < i { continue; }
            want.push(((x.0.wrapping_mul(FNV) ^ y.0) & m, [x.1 * y.1; 3]));
        } }
    }
    for q in cubes {
        for (i, x) in of(q.0).1.iter().enumerate() { for (j, y) in of(q.1).1.iter().enumerate() { for (k, z) in of(q.2).1.iter().enumerate() {
            if q.0 == q.1 && j < i || q.1 == q.2 && k < j { continue; }
            want.push(((((x.0.wrapping_mul(FNV) ^ y.0).wrapping_mul(FNV)) ^ z.0) & m, [x.1 * y.1 * z.1, x.1 * (y.1 * z.1), x.1 * z.1 * y.1]));
        } } }
    }
    if cst { want.push((((1u64 << bits) / 2) as u32, [1.0; 3])); }
    let model = sym::u8("model");
    let got = visit(which, &f, &p2, &p3, bits, cst, model);
    sym::check(got.len() == want.len(), "every combination exactly once");
    for g in &got { sym::check(g.0 <= m, "index fits the table"); }
    let mut used = vec![false; got.len()];
    for w in &want {
        let mut hit = usize::MAX;
        for (i, g) in got.iter().enumerate() {
            if used[i] || hit != usize::MAX { continue; }
            if if mode == 0 { g.1 == w.1[0] } else { g.0 == w.0 } { hit = i; }
        }
        sym::check(hit != usize::MAX, "every combination is visited");
        used[hit] = true;
        if mode == 0 { sym::check(got[hit].0 == w.0, "the combination has its own index"); }
        else { sym::check(sym::same(got[hit].1, w.1[0]) | sym::same(got[hit].1, w.1[1]) | sym::same(got[hit].1, w.1[2]), "the value is the product"); }
    }
    sym::reach("end");
}
/// prediction and the two learning passes see the same features in the same order
#[no_mangle]
pub extern "C" fn visit_agree() { 
    let (a, b) = (ns("a"), ns("b"));
    let bits = 5u8;
    let mut f = SparseFeatures::new();
    for (n, t, k) in [(a, "a", sym::param(0)), (b, "b", sym::param(1))] {
        for j in 0..k as usize { add(&mut f, n, sym::u32(&nm(t, j)) & 31, sym::f32_finite(&nm(&format!("v{t}"), j))); }
    }
    let p2 = [(a, b), (a, a)];
    let p3 = [(a, b, b), (a, a, a), (a, a, b)];
    let x = visit(0, &f, &p2, &p3, bits, true, 0);
    for w in 1..3 {
        let y = visit(w, &f, &p2, &p3, bits, true, 0);
        sym::check(x.len() == y.len(), "same number of features");
        for i in 0..x.len() { sym::check(x[i].0 == y[i].0, "same index"); sym::check(sym::same(x[i].1, y[i].1), "same value"); }
    }
    // the enumerations offered by the container itself agree for distinct namespaces
    if let Some(q) = f.quadratic_features(a, b, bits) {
        let y = visit(0, &f, &[(a, b)], &[], bits, false, 0);
        let n = f.all_features().count();
        let q: Vec<(FeatureIndex, f32)> = q.collect();
        sym::check(q.len() == y.len() - n, "same number of pairs");
        for i in 0..q.len() { sym::check(u32::from(q[i].0) == y[n + i].0, "same pair index"); sym::check(sym::same(q[i].1, y[n + i].1), "same pair value"); }
    }
    sym::reach("end");
}
