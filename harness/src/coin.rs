//! The online linear learner: range and finiteness of predictions, addressing of weights.
use crate::fx::*;
use crate::losses::near;
use crate::sym;
use serde_json::json;

const CFG: [&str; 6] = [
    r#"{}"#,
    r#"{"lossFunction":{"Logistic":{}}}"#,
    r#"{"lossFunction":{"Logistic":{}},"linkFunction":"Logistic"}"#,
    r#"{"linkFunction":"Logistic"}"#,
    r#"{"alpha":1.0,"beta":0.25,"l1Lambda":0.5,"l2Lambda":0.25}"#,
    r#"{"lossFunction":{"Logistic":{"min_label":0.0,"max_label":1.0}}}"#,
];
fn coin(k: u64, inter: bool) -> Workspace {
    let g = if inter { r#"{"numBits":5,"interactions":[[{"Name":"a"},{"Name":"b"}],[{"Name":"a"},{"Name":"a"}]]}"# } else { r#"{"numBits":4}"# };
    workspace(&format!(r#"{{"globalConfig":{g},"entryReduction":{{"typename":"Coin","config":{}}}}}"#, CFG[k as usize]))
}
fn is_logistic(k: u64) -> bool { k == 1 || k == 2 || k == 5 }
fn link_logistic(k: u64) -> bool { k == 2 || k == 3 }
/// what the interface promises about one prediction, given the range of labels seen (zero included)
fn check_pred(k: u64, p: (f32, f32), lo: f32, hi: f32) {
    sym::check(!p.0.is_nan(), "the prediction is not NaN");
    sym::check(!p.1.is_nan(), "the raw prediction is not NaN");
    let (lo, hi) = if is_logistic(k) { (lo.min(-50.0), hi.max(50.0)) } else { (lo, hi) };
    if !link_logistic(k) {
        sym::check(p.0 >= lo, "the prediction is at least the smallest label seen");
        sym::check(p.0 <= hi, "the prediction is at most the largest label seen");
        let inside = (p.1 >= lo) & (p.1 <= hi);
        sym::check(!inside | (p.0 == p.1), "inside the label range the prediction is the raw prediction");
        sym::check(!(p.1 > hi) | (p.0 == hi), "above the label range the prediction is the largest label");
        sym::check(!(p.1 < lo) | (p.0 == lo), "below the label range the prediction is the smallest label");
    } else {
        sym::check((p.0 >= 0.0) & (p.0 <= 1.0), "a linked prediction is a probability");
        let c = p.1.clamp(lo, hi);
        sym::check(near(p.0, 1.0 / (1.0 + (-c).exp()), 1e-4, 1e-6), "the prediction is the logistic of the clamped raw prediction");
    }
}
/// Predictions after a history of learned examples. Params: configuration, steps, range of values, range of labels, symbolic steps, range of importance weights
#[no_mangle]
pub extern "C" fn coin_history() {
    let cfg = sym::param(0);
    let steps = sym::param(1) as usize;
    let (vl, vh) = [(-8.0f32, 8.0f32), (0.0, 0.0), (-3e38, 3e38), (0.5, 2.0), (1e-38, 1e-30), (1e18, 1e30)][sym::param(2) as usize];
    let (ll, lh) = [(-10.0f32, 10.0f32), (0.5, 4.0), (-1e30, 1e30), (-4.0, -0.5), (1e10, 1e20)][sym::param(3) as usize];
    let nsym = sym::param(4) as usize;
    let (wl, wh) = [(1.0f32, 1.0f32), (0.0, 0.0), (0.25, 4.0), (1e-6, 1e6), (1.0, 1.0), (1.0, 1.0)][sym::param(5) as usize];
    // 4: every example but the last has no weight, 5: only the last has none
    let zero = |t: usize| match sym::param(5) { 4 => t + 1 < steps, 5 => t + 1 == steps, _ => false };
    let mut ws = coin(cfg, sym::param(6) == 1);
    let (mut lo, mut hi) = (0.0f32, 0.0f32);
    for t in 0..steps {
        let s = t + nsym >= steps;
        let y = if is_logistic(cfg) { if sym::choice(&nm("y", t), 2) == 1 { 1.0 } else if cfg == 5 { 0.0 } else { -1.0 } } else if s { sym::f32_in(&nm("y", t), ll, lh) } else { [1.5, -0.5, 2.25][t % 3] };
        let w = if s && wl < wh { sym::f32_in(&nm("w", t), wl, wh) } else if zero(t) { 0.0 } else { wl };
        let mut f = SparseFeatures::new();
        match sym::choice(&nm("ex", t), 2) {
            0 => { add(&mut f, ns("a"), 3, if s { sym::f32_in(&nm("v", t), vl, vh) } else { 1.5 }); add(&mut f, ns("b"), 1, 1.0); }
            _ => add(&mut f, ns("b"), 1, -2.0),
        }
        let l: Label = SimpleLabel::new(y, w).into();
        ws.learn(&mut f.into(), &l);
        lo = lo.min(y);
        hi = hi.max(y);
    }
    let mut f = SparseFeatures::new();
    add(&mut f, ns("a"), 3, sym::f32_in("x0", vl, vh));
    add(&mut f, ns("b"), 1, sym::f32_in("x1", -8.0, 8.0));
    let p = scalar(&ws.predict(&mut f.into()));
    check_pred(cfg, p, lo, hi);
    sym::reach("end");
}
/// Predictions from any weights, label range and features. Params: configuration, features, kind of weights, interactions
#[no_mangle]
pub extern "C" fn coin_state() {
    let cfg = sym::param(0);
    let n = sym::param(1) as usize;
    let mut ws = coin(cfg, sym::param(3) == 1);
    // a model that knows its features
    let mut f = SparseFeatures::new();
    for j in 0..n { add(&mut f, ns(["a", "b", " "][j % 3]), [3u32, 1, 12, 6][j], 1.0); }
    ws.learn(&mut f.clone().into(), &SimpleLabel::new(1.0, 1.0).into());
    let mut m = ws.serialize_to_json().unwrap();
    let (lo, hi) = (sym::f32_in("lo", -100.0, 0.0), sym::f32_in("hi", 0.0, 100.0));
    if !is_logistic(cfg) { m["entry_reduction"]["reduction"]["min_label"] = json!(lo as f64); m["entry_reduction"]["reduction"]["max_label"] = json!(hi as f64); }
    let mut k = 0;
    for (_, v) in m["entry_reduction"]["reduction"]["weights"]["weights"].as_object_mut().unwrap() {
        let x = match sym::param(2) { 0 => sym::f32_finite(&nm("w", k)), 1 => sym::f32_in(&nm("w", k), -4.0, 4.0), _ => sym::f32_in(&nm("w", k), 1e20, 3e38) };
        v[0][0] = json!(x as f64);
        k += 1;
    }
    let ws = Workspace::deserialize_from_json(&m).unwrap();
    let mut f = SparseFeatures::new();
    for j in 0..n { add(&mut f, ns(["a", "b", " "][j % 3]), [3u32, 1, 12, 6][j], if sym::param(2) == 1 { sym::f32_in(&nm("x", j), -8.0, 8.0) } else { sym::f32_finite(&nm("x", j)) }); }
    let p = scalar(&ws.predict(&mut f.into()));
    check_pred(cfg, p, if is_logistic(cfg) { 0.0 } else { lo }, if is_logistic(cfg) { 0.0 } else { hi });
    sym::reach("end");
}

use reductionml_core::dense_weights::*;
use reductionml_core::weights::*;
/// Slots of different (feature, submodel) pairs are disjoint and inside the table. Params: features, submodels, states
#[no_mangle]
pub extern "C" fn slots() {
    let (nf, nm_, nst) = (sym::param(0) as u32, sym::param(1) as u32, sym::param(2) as u32);
    let mut w = DenseWeights::new(FeatureIndex::from(nf), ModelIndex::from(nm_ as u8), StateIndex::from(nst as u8)).unwrap();
    let pick = |t: &str, k: u32| { let x = sym::u32(t); sym::assume(x < k); x };
    let (i, j) = (pick("i", nf), pick("j", nf));
    let (a, b) = (sym::choice("a", nm_), sym::choice("b", nm_));
    let base = w.state_at(0.into(), ModelIndex::from(0)).as_ptr() as usize;
    let (x, y) = (w.state_at(i.into(), ModelIndex::from(a as u8)), w.state_at(j.into(), ModelIndex::from(b as u8)));
    sym::check(x.len() == nst as usize && y.len() == nst as usize, "every slot has its states");
    let (p, q) = (x.as_ptr() as usize, y.as_ptr() as usize);
    // state_at checks the upper end itself
    sym::check(p >= base, "slots lie inside the table");
    let apart = (p >= q + nst as usize * 4) | (q >= p + nst as usize * 4);
    if a == b { sym::check((i == j) | apart, "slots of different features are disjoint"); sym::check((i != j) | (p == q), "one feature has one slot"); }
    else { sym::check(apart, "slots of different submodels are disjoint"); }
    let r = w.state_at_mut(i.into(), ModelIndex::from(a as u8)).as_ptr() as usize;
    sym::check(r == p, "reading and writing use the same slot");
    let r = w.weight_at_mut(i.into(), ModelIndex::from(a as u8)) as *const f32 as usize;
    sym::check(r == p, "the weight is the first state");
    sym::reach("end");
}
/// A write is seen by the reads of that slot only, also after conversion to the exported table and back. Params as above
#[no_mangle]
pub extern "C" fn slot_values() {
    let (nf, nm_, nst) = (sym::param(0) as u32, sym::param(1) as u32, sym::param(2) as u32);
    let mut w = DenseWeights::new(FeatureIndex::from(nf), ModelIndex::from(nm_ as u8), StateIndex::from(nst as u8)).unwrap();
    let mut want = vec![0.0f32; (nf * nm_ * nst) as usize];
    for t in 0..2 {
        let (i, a, k) = (sym::choice(&nm("i", t), nf), sym::choice(&nm("a", t), nm_), sym::choice(&nm("k", t), nst));
        let v = sym::f32_finite(&nm("v", t));
        sym::assume(v != 0.0);
        if k == 0 { *w.weight_at_mut(i.into(), ModelIndex::from(a as u8)) = v; } else { w.state_at_mut(i.into(), ModelIndex::from(a as u8))[k as usize] = v; }
        want[((i * nm_ + a) * nst + k) as usize] = v;
    }
    let all = |w: &DenseWeights, msg: &str| for i in 0..nf { for a in 0..nm_ {
        let s = w.state_at(i.into(), ModelIndex::from(a as u8));
        for k in 0..nst { sym::check(sym::same(s[k as usize], want[((i * nm_ + a) * nst + k) as usize]), msg); }
        sym::check(sym::same(w.weight_at(i.into(), ModelIndex::from(a as u8)), want[((i * nm_ + a) * nst) as usize]), msg);
    } };
    all(&w, "a write is seen by exactly the reads of that slot");
    let v = DenseWeightsWithNDArray::from_dense_weights(w.clone()).to_dense_weights();
    all(&v, "the exported table holds every slot");
    sym::reach("end");
}
/// Every hash lands in the table, at its value modulo the table size
#[no_mangle]
pub extern "C" fn masked() {
    let bits = sym::param(0) as u8;
    let h = sym::u32("h");
    let m = u32::from(FeatureHash::from(h).mask(FeatureMask::from_num_bits(bits)));
    sym::check(m == h % (1u32 << bits), "the slot is the hash modulo the table size");
    let c = u32::from(constant_feature_index(bits));
    sym::check(c < (1u32 << bits), "the constant feature lies in the table");
    sym::reach("end");
}
/// Learning about one feature moves that feature's weight and no other's. Params: bits, configuration
#[no_mangle]
pub extern "C" fn separate() {
    let bits = sym::param(0);
    let mut ws = workspace(&format!(r#"{{"globalConfig":{{"numBits":{bits},"constantFeatureEnabled":false}},"entryReduction":{{"typename":"Coin","config":{}}}}}"#, CFG[sym::param(1) as usize]));
    let n = 1u32 << bits;
    let (i, j) = (sym::choice("i", n), sym::choice("j", n));
    let one = |i: u32, v: f32| { let mut f = SparseFeatures::new(); add(&mut f, ns(["a", "b"][(i & 1) as usize]), i, v); Features::from(f) };
    let y = sym::f32_in("y", 1.0, 3.0);
    for _ in 0..2 { ws.learn(&mut one(i, 1.0), &SimpleLabel::new(y, 1.0).into()); }
    let p = scalar(&ws.predict(&mut one(i, 1.0))).1;
    let q = scalar(&ws.predict(&mut one(j, 1.0))).1;
    if i == j { sym::check(p == q, "one slot holds one weight"); sym::check(p > 0.0, "learning moves the weight of the feature"); }
    else { sym::check(q == 0.0, "learning about one feature does not change another"); }
    sym::reach("end");
}
