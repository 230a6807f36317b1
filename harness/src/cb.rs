//! Contextual bandits as a reduction to regression, and wrappers that delegate.
use crate::fx::*;
use crate::learners::{ex, lab, learnable};
use crate::stacks::stack;
use crate::sym;
use serde_json::Value;

/// bitwise the same prediction, without branching on symbolic values
fn eq(a: f32, b: f32) -> bool { sym::same(a, b) }

const REG: [&str; 5] = [
    r#"{"typename":"Coin"}"#,
    r#"{"typename":"Coin","config":{"alpha":2.0,"beta":0.5}}"#,
    r#"{"typename":"ElementwiseInteraction","config":{"one":{"Name":"a"},"two":{"Name":"b"},"keepOriginalFeatures":true}}"#,
    r#"{"typename":"ElementwiseInteraction","config":{"one":{"Name":"b"},"two":{"Name":"a"},"keepOriginalFeatures":false}}"#,
    r#"{"typename":"Debug","config":{"id":"x","next":{"typename":"Coin"}}}"#,
];
const GLOB: [&str; 3] = [r#"{"numBits":4}"#, r#"{"numBits":4,"constantFeatureEnabled":false}"#, r#"{"numBits":5,"interactions":[[{"Name":"a"},{"Name":"b"}],[{"Name":"a"},{"Name":"b"},{"Name":"b"}]]}"#];
fn glob(r: u64) -> &'static str { GLOB[match r { 1 => 1, 2 => 2, _ => 0 }] }
/// a contextual-bandit learner over the given regressor, below `top`
fn cb_ws(reg: u64, ips: bool, top: u64) -> Workspace {
    let cb = format!(r#"{{"typename":"CbAdf","config":{{"cbType":"{}","regressor":{}}}}}"#, if ips { "ips" } else { "mtr" }, REG[reg as usize]);
    let entry = match top { 0 => cb, 3 => format!(r#"{{"typename":"CbExploreAdfGreedy","config":{{"epsilon":0.0,"cbAdf":{cb}}}}}"#), _ => format!(r#"{{"typename":"Debug","config":{{"id":"t","next":{cb}}}}}"#) };
    workspace(&format!(r#"{{"globalConfig":{},"entryReduction":{entry}}}"#, glob(reg)))
}
fn reg_ws(reg: u64) -> Workspace { workspace(&format!(r#"{{"globalConfig":{},"entryReduction":{}}}"#, glob(reg), REG[reg as usize])) }
fn joined(x: &SparseFeatures, y: Option<&SparseFeatures>) -> Features<'static> { let mut f = x.clone(); if let Some(s) = y { f.append(s); } f.into() }
fn joined2(x: &SparseFeatures, y: Option<&SparseFeatures>) -> Features<'static> { match y { Some(s) => { let mut f = s.clone(); f.append(x); f.into() } None => x.clone().into() } }

/// an example with symbolic values; shapes are choices
fn example(tag: &str, n: usize, wide: bool) -> CBAdfFeatures {
    let v = |k: usize| if wide { sym::f32_finite(&nm(&format!("{tag}v"), k)) } else { sym::f32_in(&nm(&format!("{tag}v"), k), -8.0, 8.0) };
    let shared = match sym::choice(&format!("{tag}shared"), 3) {
        0 => None,
        1 => { let mut s = SparseFeatures::new(); add(&mut s, ns("a"), 2, v(0)); Some(s) }
        _ => { let mut s = SparseFeatures::new(); add(&mut s, ns("b"), 5, v(1)); add(&mut s, ns(" "), 6, v(2)); Some(s) }
    };
    let actions = (0..n).map(|i| {
        let mut f = SparseFeatures::new();
        match (sym::choice(&nm(&format!("{tag}act"), i), 3), i & 1) {
            (0, _) => {}
            (1, 0) => { add(&mut f, ns("b"), 1, v(10 + 4 * i)); add(&mut f, ns("b"), 5, v(11 + 4 * i)); }
            (1, _) => { add(&mut f, ns(" "), 3, v(10 + 4 * i)); }
            (_, 0) => { add(&mut f, ns("a"), 2, v(10 + 4 * i)); }
            _ => { add(&mut f, ns("a"), 5, v(10 + 4 * i)); add(&mut f, ns("b"), 5, v(11 + 4 * i)); }
        }
        f
    }).collect();
    CBAdfFeatures { shared, actions }
}
/// One score per action, in order, depending only on that action and the shared features. Params: regressor, ips, top, actions, learned examples
#[no_mangle]
pub extern "C" fn cb_scores() {
    let (reg, ips) = (sym::param(0), sym::param(1) == 1);
    let n = sym::param(3) as usize;
    let mut cb = cb_ws(reg, ips, 2 * (sym::param(2) & 1));
    for t in 0..sym::param(4) as u32 { cb.learn(&mut ex(2, learnable(2, t)), &lab(2, t, 0)); }
    // the base learner with exactly the weights the bandit has learned
    let state = cb.serialize_to_json().unwrap();
    let base = base_of(&state);
    let e = example("x", n, false);
    let mut f: Features = e.clone().into();
    let p = cb.predict(&mut f);
    let s = scores(&p).clone();
    sym::check(s.len() == n, "one score per action");
    for i in 0..n {
        sym::check(s[i].0 == i, "scores are listed in action order");
        let (p1, p2) = (scalar(&base.predict(&mut joined(&e.actions[i], e.shared.as_ref()))).1, scalar(&base.predict(&mut joined2(&e.actions[i], e.shared.as_ref()))).1);
        sym::check(eq(s[i].1, p1) | eq(s[i].1, p2), "a score is the base learner's prediction for the shared and the action's features");
        let mut one: Features = CBAdfFeatures { shared: e.shared.clone(), actions: vec![e.actions[i].clone()] }.into();
        let q = cb.predict(&mut one);
        sym::check(scores(&q).len() == 1 && scores(&q)[0].0 == 0, "one score for one action");
        sym::check(eq(scores(&q)[0].1, s[i].1), "a score does not depend on the other actions");
    }
    let mut r = e.clone();
    r.actions.reverse();
    let q = cb.predict(&mut r.into());
    for i in 0..n { sym::check(eq(scores(&q)[n - 1 - i].1, s[i].1), "a score does not depend on the position"); }
    sym::reach("end");
}
/// the innermost regressor of an exported contextual-bandit model as a model of its own
fn base_of(state: &Value) -> Workspace {
    fn find(v: &Value) -> Option<&Value> {
        if let Some(o) = v.as_object() {
            if let Some(r) = o.get("regressor") { if o.contains_key("mtr_state") { return Some(r); } }
            for (_, x) in o { if let Some(r) = find(x) { return Some(r); } }
        }
        if let Some(a) = v.as_array() { for x in a { if let Some(r) = find(x) { return Some(r); } } }
        None
    }
    let reg = find(state).unwrap().clone();
    let mut m = state.clone();
    m["entry_reduction"] = reg;
    Workspace::deserialize_from_json(&m).unwrap()
}

/// a choice, or at the last step (which is the expensive one) a digit of the sixth parameter
fn pick(tag: &str, t: u32, k: u32) -> u32 {
    if t + 1 < sym::param(3) as u32 || sym::param(6) == 0 { sym::choice(&nm(tag, t as usize), k) }
    else { (if tag == "a" { (sym::param(6) - 1) / 3 } else { (sym::param(6) - 1) % 3 }) as u32 }
}
/// Learning a bandit example is the documented sequence of regression examples. Params: regressor, ips, top, steps, probability kind, cost range
#[no_mangle]
pub extern "C" fn cb_learn() {
    let (reg, ips, top) = (sym::param(0), sym::param(1) == 1, sym::param(2));
    let steps = sym::param(3) as u32;
    let mut cb = cb_ws(reg, ips, 2 * top);
    // two orders of joining are both the joined features
    let mut t1 = reg_ws(reg);
    let mut t2 = reg_ws(reg);
    let (mut events, mut actions) = (0u32, 0u32);
    for t in 0..steps {
        let k = learnable(2, pick("ex", t, 3));
        let f = ex(2, k);
        let e = match f { Features::SparseCBAdf(x) => x, _ => unreachable!() };
        let a = pick("a", t, 2) as usize;
        let p = match sym::param(4) { 0 => [1.0f32, 0.25][sym::choice(&nm("p", t as usize), 2) as usize], 1 => [0.5f32, 0.0009765625][sym::choice(&nm("p", t as usize), 2) as usize], _ => 0.125 };
        let cost = if t + 1 == steps && sym::param(5) < 10 { let (lo, hi) = [(1.0, 3.0), (-3.0, -1.0), (0.0, 0.0), (1e3, 1e6), (1e-6, 1e-3)][sym::param(5) as usize]; sym::f32_in(&nm("cost", t as usize), lo, hi) } else { [1.5f32, -0.5, 0.0, 2.25][t as usize & 3] };
        cb.learn(&mut e.clone().into(), &Label::CB(CBLabel::new(a, cost, p)));
        if ips {
            for i in 0..e.actions.len() {
                let l: Label = SimpleLabel::new(if i == a { cost / p } else { 0.0 }, 1.0).into();
                t1.learn(&mut joined(&e.actions[i], e.shared.as_ref()), &l);
                t2.learn(&mut joined2(&e.actions[i], e.shared.as_ref()), &l);
            }
        } else {
            events += 1;
            actions += e.actions.len() as u32;
            let l: Label = SimpleLabel::new(cost, (events as f32 / actions as f32) / p).into();
            t1.learn(&mut joined(&e.actions[a], e.shared.as_ref()), &l);
            t2.learn(&mut joined2(&e.actions[a], e.shared.as_ref()), &l);
        }
    }
    for k in 0..4 {
        let e = match ex(2, k) { Features::SparseCBAdf(x) => x, _ => unreachable!() };
        let p = cb.predict(&mut e.clone().into());
        let s = scores(&p);
        sym::check(s.len() == e.actions.len(), "one score per action");
        for (x, (_, q)) in e.actions.iter().zip(s) {
            let (a, b) = (scalar(&t1.predict(&mut joined(x, e.shared.as_ref()))), scalar(&t2.predict(&mut joined2(x, e.shared.as_ref()))));
            sym::check(eq(*q, a.1) | eq(*q, b.1), "the base learner was trained on the documented regression examples");
        }
    }
    sym::reach("end");
}

/// A debug wrapper anywhere in the stack changes nothing. Params: stack, steps, symbolic labels, wrapper position
#[no_mangle]
pub extern "C" fn wrapped() {
    let (cfg, kind) = stack(sym::param(0));
    let steps = sym::param(1) as u32;
    let nsym = sym::param(2) as u32;
    let mut c: Value = serde_json::from_str(cfg).unwrap();
    wrap(&mut c["entryReduction"], sym::param(3), sym::param(4));
    let mut b = Workspace::new(c.try_into().unwrap()).unwrap();
    let mut a = workspace(cfg);
    for t in 0..steps {
        let k = learnable(kind, sym::choice(&nm("ex", t as usize), 3));
        let l = lab(kind, t, if t + nsym >= steps { steps } else { 0 });
        match sym::choice(&nm("op", t as usize), 2) {
            0 => { a.learn(&mut ex(kind, k), &l); b.learn(&mut ex(kind, k), &l); }
            _ => { let (p, q) = (a.predict_then_learn(&mut ex(kind, k), &l), b.predict_then_learn(&mut ex(kind, k), &l)); same_pred(&p, &q, "a wrapped reduction predicts the same while learning"); }
        }
    }
    for k in 0..4 { let (p, q) = (a.predict(&mut ex(kind, k)), b.predict(&mut ex(kind, k))); same_pred(&p, &q, "a wrapped reduction predicts the same"); }
    sym::reach("end");
}
/// wraps the reductions selected by the bits of `mask`, outermost first
fn wrap(v: &mut Value, mask: u64, prints: u64) {
    // configurations written out where the default would be used, so that inner levels can be wrapped
    if v.get("config").is_none() { v["config"] = serde_json::json!({}); }
    let name = v["typename"].as_str().unwrap().to_string();
    let child = match name.as_str() { "Binary" | "ElementwiseInteraction" | "CbAdf" => Some(("regressor", "Coin")), "Debug" => Some(("next", "Coin")), "CbExploreAdfGreedy" | "CbExploreAdfSoftmax" | "CbExploreAdfSquareCb" => Some(("cbAdf", "CbAdf")), _ => None };
    if let Some((field, default)) = child {
        if v["config"].get(field).is_none() { v["config"][field] = serde_json::json!({"typename": default}); }
        wrap(&mut v["config"][field], mask >> 1, prints);
    }
    if mask & 1 == 1 {
        let inner = v.take();
        let p = prints == 1;
        *v = serde_json::json!({"typename": "Debug", "config": {"id": "w", "indent": 2, "prediction": p, "label": p, "features": p, "next": inner}});
    }
}

/// The binary reduction: sign of the regressor, trained on plus or minus one. Params: regressor (0..2), steps, symbolic values
#[no_mangle]
pub extern "C" fn binary() {
    let reg = sym::param(0);
    let steps = sym::param(1) as u32;
    let mut b = workspace(&format!(r#"{{"globalConfig":{},"entryReduction":{{"typename":"Binary","config":{{"regressor":{}}}}}}}"#, glob(reg), REG[reg as usize]));
    let mut r = reg_ws(reg);
    let mut up = false;
    let mut down = false;
    for t in 0..steps {
        let k = sym::choice(&nm("ex", t as usize), 3);
        let y = sym::choice(&nm("y", t as usize), 2) == 1;
        let l: Label = SimpleLabel::new(if y { 1.0 } else { -1.0 }, 1.0).into();
        if y { up = true } else { down = true }
        if sym::choice(&nm("op", t as usize), 2) == 0 { b.learn(&mut ex(1, k), &Label::Binary(BinaryLabel(y))); r.learn(&mut ex(1, k), &l); }
        else {
            let p = b.predict_then_learn(&mut ex(1, k), &Label::Binary(BinaryLabel(y)));
            let q = scalar(&r.predict(&mut ex(1, k)));
            r.learn(&mut ex(1, k), &l);
            sym::check(matches!(p, Prediction::Binary(x) if x.0 == (q.0 > 0.0)), "predict_then_learn is true exactly when the regressor's prediction is positive");
        }
    }
    let mut f = SparseFeatures::new();
    add(&mut f, ns("a"), 3, sym::f32_in("va", -8.0, 8.0));
    add(&mut f, ns("b"), 1, sym::f32_in("vb", -8.0, 8.0));
    let mut f: Features = f.into();
    let p = b.predict(&mut f);
    let q = scalar(&r.predict(&mut f));
    match p { Prediction::Binary(x) => sym::check(x.0 == (q.0 > 0.0), "true exactly when the regressor's prediction is positive"), _ => sym::check(false, "the prediction is binary") }
    for k in 0..3 {
        let q = scalar(&r.predict(&mut ex(1, k)));
        let p = b.predict(&mut ex(1, k));
        sym::check(matches!(p, Prediction::Binary(x) if x.0 == (q.0 > 0.0)), "trained on plus and minus one");
    }
    // the exported regressor is the twin
    let s = b.serialize_to_json().unwrap();
    let t = r.serialize_to_json().unwrap();
    let _ = (up, down);
    fn coin(v: &Value) -> Option<&Value> {
        if let Some(o) = v.as_object() {
            if o.contains_key("model_states") { return Some(v); }
            for (_, x) in o { if let Some(r) = coin(x) { return Some(r); } }
        }
        None
    }
    crate::learners::same_json(coin(&s).unwrap(), coin(&t).unwrap(), "the regressor is trained on plus and minus one");
    sym::reach("end");
}

/// many actions with many features; one value of one action and one shared value are unknown
fn wide_example(tag: &str, n: usize, per: usize, shared: bool) -> CBAdfFeatures {
    const NAMES: [&str; 5] = ["a", "b", " ", "c", "d"];
    let who = [0, 1, n / 2, n - 1][sym::choice(&format!("{tag}who"), 4) as usize];
    let v = sym::f32_in(&format!("{tag}v"), -8.0, 8.0);
    let mk = |k: usize, m: usize, x: Option<f32>| {
        let mut f = SparseFeatures::new();
        for j in 0..m { let c = [1.0f32, -0.5, 2.0, 0.25, -1.5][(j + k) % 5]; add(&mut f, ns(NAMES[(j + k) % 5]), ((7 * j + 3 * k) % 16) as u32, if j == m / 2 { x.unwrap_or(c) } else { c }); }
        f
    };
    CBAdfFeatures { shared: if shared { Some(mk(1, per, Some(sym::f32_in(&format!("{tag}s"), -8.0, 8.0)))) } else { None }, actions: (0..n).map(|i| mk(i, if i % 3 == 1 { 0 } else { per }, if i == who { Some(v) } else { None })).collect() }
}
/// The same for examples with many actions and features. Params: regressor, ips, actions, features, shared, learned examples
#[no_mangle]
pub extern "C" fn wide_scores() {
    let (reg, ips, n, per) = (sym::param(0), sym::param(1) == 1, sym::param(2) as usize, sym::param(3) as usize);
    let mut cb = cb_ws(reg, ips, 0);
    for t in 0..sym::param(5) as u32 { cb.learn(&mut ex(2, learnable(2, t)), &lab(2, t, 0)); }
    let base = base_of(&cb.serialize_to_json().unwrap());
    let e = wide_example("x", n, per, sym::param(4) == 1);
    let names: Vec<Namespace> = ["a", "b", " ", "c", "d"].iter().map(|x| ns(x)).collect();
    let mut f: Features = e.clone().into();
    let p = cb.predict(&mut f);
    match &f { Features::SparseCBAdf(x) => check_same_cb(x, &e, &names, "features are restored"), _ => sym::check(false, "features keep their kind") }
    let s = scores(&p);
    sym::check(s.len() == n, "one score per action");
    for i in 0..n {
        sym::check(s[i].0 == i, "scores are listed in action order");
        let (p1, p2) = (scalar(&base.predict(&mut joined(&e.actions[i], e.shared.as_ref()))).1, scalar(&base.predict(&mut joined2(&e.actions[i], e.shared.as_ref()))).1);
        sym::check(eq(s[i].1, p1) | eq(s[i].1, p2), "a score is the base learner's prediction for the shared and the action's features");
    }
    sym::reach("end");
}
/// Params: regressor, ips, actions, features, shared, steps, symbolic (0 the values, 1 the last cost)
#[no_mangle]
pub extern "C" fn wide_learn() {
    let (reg, ips, n, per) = (sym::param(0), sym::param(1) == 1, sym::param(2) as usize, sym::param(3) as usize);
    let mut cb = cb_ws(reg, ips, 0);
    let (mut t1, mut t2) = (reg_ws(reg), reg_ws(reg));
    let (mut events, mut actions) = (0u32, 0u32);
    let names: Vec<Namespace> = ["a", "b", " ", "c", "d"].iter().map(|x| ns(x)).collect();
    let steps = sym::param(5) as usize;
    for t in 0..steps {
        let k = n - t % 3;
        let e = wide_example_fixed(k, per, sym::param(4) == 1, t);
        let a = if t + 1 == steps { [0, 1, k / 2, k - 1][sym::choice("chosen", 4) as usize] } else { t % k };
        let cost = if t + 1 == steps && sym::param(6) == 1 { sym::f32_in("cost", 1.0, 3.0) } else { [1.5f32, -0.5, 0.25][t % 3] };
        let p = [0.5f32, 0.125, 0.25][t % 3];
        let mut f: Features = e.clone().into();
        cb.learn(&mut f, &Label::CB(CBLabel::new(a, cost, p)));
        match &f { Features::SparseCBAdf(x) => check_same_cb(x, &e, &names, "features are restored"), _ => sym::check(false, "features keep their kind") }
        events += 1;
        actions += k as u32;
        for i in 0..k {
            if !ips && i != a { continue }
            let l: Label = if ips { SimpleLabel::new(if i == a { cost / p } else { 0.0 }, 1.0) } else { SimpleLabel::new(cost, (events as f32 / actions as f32) / p) }.into();
            t1.learn(&mut joined(&e.actions[i], e.shared.as_ref()), &l);
            t2.learn(&mut joined2(&e.actions[i], e.shared.as_ref()), &l);
        }
    }
    let e = wide_example_fixed(n, per, sym::param(4) == 1, 7);
    let p = cb.predict(&mut e.clone().into());
    let s = scores(&p);
    sym::check(s.len() == n, "one score per action");
    for (x, (_, q)) in e.actions.iter().zip(s) {
        let (a, b) = (scalar(&t1.predict(&mut joined(x, e.shared.as_ref()))), scalar(&t2.predict(&mut joined2(x, e.shared.as_ref()))));
        sym::check(eq(*q, a.1) | eq(*q, b.1), "the base learner was trained on the documented regression examples");
    }
    sym::reach("end");
}
fn wide_example_fixed(n: usize, per: usize, shared: bool, t: usize) -> CBAdfFeatures {
    const NAMES: [&str; 5] = ["a", "b", " ", "c", "d"];
    let mk = |k: usize, m: usize| { let mut f = SparseFeatures::new(); for j in 0..m { add(&mut f, ns(NAMES[(j + k) % 5]), ((7 * j + 3 * k) % 16) as u32, [1.0f32, -0.5, 2.0, 0.25, -1.5][(j + k + t) % 5]); } f };
    CBAdfFeatures { shared: if shared { Some(mk(1 + t, per)) } else { None }, actions: (0..n).map(|i| mk(i + t, if (i + t) % 4 == 1 { 0 } else { per })).collect() }
}
