//! Learners as state machines: twins driven by different call sequences, saved and reloaded models,
//! reductions compared with the base learner they are defined by.
use crate::fx::*;
use crate::stacks::{label, stack};
use crate::sym;
use reductionml_core::dense_weights::{DenseWeights, DenseWeightsWithNDArray};
use reductionml_core::weights::Weights;

/// concrete examples
pub fn ex(kind: u32, k: u32) -> Features<'static> {
    let mk = |l: &[(&str, u32, f32)]| { let mut f = SparseFeatures::new(); for (n, i, v) in l { add(&mut f, ns(n), *i, *v); } f };
    if kind < 2 {
        match k {
            0 => mk(&[("a", 3, 1.0), ("a", 9, -0.75), ("b", 1, 2.0)]),
            1 => mk(&[("a", 3, 0.5), ("b", 5, 1.0), (" ", 12, 1.5)]),
            2 => mk(&[("b", 1, -1.0), ("b", 3, 4.0)]),
            _ => mk(&[]),
        }.into()
    } else {
        match k {
            0 => CBAdfFeatures { shared: Some(mk(&[("a", 2, 1.0)])), actions: vec![mk(&[("b", 1, 1.0)]), mk(&[("a", 7, 0.5), ("b", 5, 2.0)])] },
            1 => CBAdfFeatures { shared: None, actions: vec![mk(&[("a", 2, -1.0)]), mk(&[("b", 5, 1.0), ("b", 9, 1.0)]), mk(&[])] },
            2 => CBAdfFeatures { shared: Some(mk(&[("b", 5, 2.0)])), actions: vec![mk(&[("b", 1, 3.0)])] },
            _ => CBAdfFeatures { shared: None, actions: vec![mk(&[("a", 2, 1.0), ("b", 1, 1.0)]), mk(&[("a", 7, 1.0)])] },
        }.into()
    }
}
/// the t-th label: symbolic for t < nsym, otherwise concrete
pub fn lab(kind: u32, t: u32, nsym: u32) -> Label {
    if t < nsym {
        match kind {
            0 => Label::Simple(SimpleLabel::new(sym::f32_in(&nm("y", t as usize), 1.0, 3.0), 1.0)),
            1 => label(1, &nm("y", t as usize), 2),
            _ => Label::CB(CBLabel::new((t & 1) as usize, sym::f32_in(&nm("cost", t as usize), 1.0, 3.0), 0.5)),
        }
    } else {
        let y = [1.5f32, -0.5, 2.25, 0.125][t as usize & 3];
        match kind {
            0 => Label::Simple(SimpleLabel::new(y, [1.0, 2.0, 0.5, 1.0][t as usize & 3])),
            1 => Label::Binary(BinaryLabel(t & 1 == 0)),
            _ => Label::CB(CBLabel::new((t & 1) as usize, y, [0.5, 0.25, 1.0, 0.75][t as usize & 3])),
        }
    }
}
/// number of examples usable for a label of this kind (two actions at least)
pub fn learnable(kind: u32, k: u32) -> u32 { if kind == 2 { [0, 1, 3][k as usize % 3] } else { k } }

/// predict changes nothing; predict_then_learn is predict followed by learn. Params: stack, steps, symbolic labels
#[no_mangle]
pub extern "C" fn twin_ops() {
    let (cfg, kind) = stack(sym::param(0));
    let n = sym::param(1) as u32;
    let nsym = sym::param(2) as u32;
    let mut a = workspace(cfg);
    let mut b = workspace(cfg);
    for t in 0..n {
        let op = sym::choice(&nm("op", t as usize), 3);
        let k = sym::choice(&nm("ex", t as usize), 2);
        let l = lab(kind, t, nsym);
        let mut f = ex(kind, k);
        let mut g = ex(kind, k);
        match op {
            0 => {
                let p = a.predict(&mut f);
                let q = a.predict(&mut f);
                same_pred(&p, &q, "predicting twice gives the same prediction");
            }
            1 => { a.learn(&mut f, &l); b.learn(&mut g, &l); }
            _ => {
                let p = a.predict_then_learn(&mut f, &l);
                let q = b.predict(&mut g);
                b.learn(&mut g, &l);
                same_pred(&p, &q, "predict_then_learn returns what predict returns");
            }
        }
    }
    finish(&mut a, &mut b, kind, n, "call sequences with the same learning agree");
    sym::reach("end");
}
/// compare two learners now and after more learning
pub fn finish(a: &mut Workspace, b: &mut Workspace, kind: u32, t: u32, msg: &str) {
    for k in 0..4 { let (p, q) = (a.predict(&mut ex(kind, k)), b.predict(&mut ex(kind, k))); same_pred(&p, &q, msg); }
    for r in 0..2 {
        let k = learnable(kind, r);
        let l = lab(kind, t + 1 + r, 0);
        a.learn(&mut ex(kind, k), &l);
        b.learn(&mut ex(kind, k), &l);
    }
    for k in 0..4 { let (p, q) = (a.predict(&mut ex(kind, k)), b.predict(&mut ex(kind, k))); same_pred(&p, &q, msg); }
}
fn reload_with(ws: &Workspace, format: u64) -> Workspace {
    if format == 0 { Workspace::create_from_model(&ws.serialize_model().unwrap()).unwrap() }
    else { Workspace::deserialize_from_json(&ws.serialize_to_json().unwrap()).unwrap() }
}
/// a reloaded model is the same learner. Params: stack, learning steps before saving, symbolic labels, format (0 binary, 1 json)
#[no_mangle]
pub extern "C" fn reload() {
    let (cfg, kind) = stack(sym::param(0));
    let n = sym::param(1) as u32;
    let nsym = sym::param(2) as u32;
    let fmt = sym::param(3);
    let mut a = workspace(cfg);
    for t in 0..n {
        let k = learnable(kind, sym::choice(&nm("ex", t as usize), 3));
        a.learn(&mut ex(kind, k), &lab(kind, t, nsym));
    }
    let mut b = reload_with(&a, fmt);
    sym::check(a.global_config().num_bits() == b.global_config().num_bits() && a.global_config().hash_seed() == b.global_config().hash_seed() && a.global_config().constant_feature_enabled() == b.global_config().constant_feature_enabled() && a.global_config().interactions().len() == b.global_config().interactions().len(), "the configuration survives");
    sym::check(a.get_entry_reduction().typename() == b.get_entry_reduction().typename(), "the entry reduction survives");
    let mut c = reload_with(&b, fmt);
    if nsym > 0 {
        for k in 0..4 { let (p, q) = (a.predict(&mut ex(kind, k)), b.predict(&mut ex(kind, k))); same_pred(&p, &q, "the reloaded model predicts like the saved one"); }
        same_json(&a.serialize_to_json().unwrap(), &b.serialize_to_json().unwrap(), "the reloaded model has the same exported state");
        sym::reach("end");
        return;
    }
    finish(&mut a, &mut b, kind, n, "the reloaded model behaves like the saved one");
    // a was advanced by finish: the second generation is compared with a third one that saw the same
    let mut d = reload_with(&c, fmt);
    finish(&mut c, &mut d, kind, n, "a model saved again behaves like the loaded one");
    for k in 0..4 { let (p, q) = (a.predict(&mut ex(kind, k)), c.predict(&mut ex(kind, k))); same_pred(&p, &q, "generations agree"); }
    sym::reach("end");
}

/// Saving after one learned example whose label (cost) is any float of a range. Params: stack, format, range, example
#[no_mangle]
pub extern "C" fn reload_learned() {
    let (cfg, kind) = stack(sym::param(0));
    let fmt = sym::param(1);
    let (lo, hi) = [(1.0, 3.0), (1e-12, 1e-8), (1e4, 1e12), (-1e-8, -1e-12), (-3.0, -1.0)][sym::param(2) as usize];
    let y = sym::f32_in("y", lo, hi);
    let l = if kind == 0 { Label::Simple(SimpleLabel::new(y, 1.0)) } else { Label::CB(CBLabel::new(0, y, 0.5)) };
    let mut a = workspace(cfg);
    a.learn(&mut ex(kind, learnable(kind, sym::param(3) as u32)), &l);
    let b = reload_with(&a, fmt);
    for k in 0..4 { let (p, q) = (a.predict(&mut ex(kind, k)), b.predict(&mut ex(kind, k))); same_pred(&p, &q, "the reloaded model predicts like the saved one"); }
    same_json(&a.serialize_to_json().unwrap(), &b.serialize_to_json().unwrap(), "the reloaded model has the same exported state");
    sym::reach("end");
}

/// Replaces every stored float of an exported model (weights, normalisers, label range, sums) by a symbolic one.
/// The `wild`-th is any finite float, the others are in [0.25, 4].
/// With `only` set the others keep their value and the chosen one is in [0.25, 4].
fn symbolise(v: &mut serde_json::Value, key: &str, wild: u64, only: bool, n: &mut u64) {
    use serde_json::Value::*;
    match v {
        Number(x) if x.is_f64() => {
            let t = nm("w", *n as usize);
            // the label range always contains zero
            let (lo, hi) = match key {
                "min_label" => (-4.0, 0.0),
                "max_label" => (0.0, 4.0),
                _ => if only { [(0.25, 4.0), (1e-30, 1e-7), (1e5, 1e20)][sym::param(4) as usize] } else { (0.25, 4.0) },
            };
            if only && *n != wild { *n += 1; return; }
            let f = if *n == wild && !only && !key.ends_with("_label") { sym::f32_finite(&t) } else { sym::f32_in(&t, lo, hi) };
            *n += 1;
            *v = serde_json::Value::from(f as f64);
        }
        Array(x) => for y in x { symbolise(y, key, wild, only, n) },
        Object(x) => for (k, y) in x.iter_mut() { if k != "config" && k != "globalConfig" && k != "global_config" { symbolise(y, k, wild, only, n) } },
        _ => {}
    }
}
/// Saving and loading from an arbitrary learned state. Params: stack, format, index of the unrestricted float
#[no_mangle]
pub extern "C" fn reload_any() {
    let (cfg, kind) = stack(sym::param(0));
    let fmt = sym::param(1);
    let wild = sym::param(2);
    let mut w = workspace(cfg);
    for t in 0..2 { w.learn(&mut ex(kind, learnable(kind, t)), &lab(kind, t, 0)); }
    let mut state = w.serialize_to_json().unwrap();
    let mut n = 0;
    symbolise(&mut state, "", wild, false, &mut n);
    if wild >= n { sym::reach("end"); return; }
    let a = Workspace::deserialize_from_json(&state).unwrap();
    if fmt == 1 { same_json(&state, &a.serialize_to_json().unwrap(), "importing an exported state and exporting it again gives the same state"); }
    let b = reload_with(&a, fmt);
    same_json(&a.serialize_to_json().unwrap(), &b.serialize_to_json().unwrap(), "a saved and loaded model has the state of the original");
    if sym::param(3) == 1 {
        let k = learnable(kind, sym::choice("k", 3));
        let (p, q) = (a.predict(&mut ex(kind, k)), b.predict(&mut ex(kind, k)));
        same_pred(&p, &q, "a saved and loaded model predicts like the original");
    }
    sym::reach("end");
}

/// One more step from an arbitrary learned state with an arbitrary label. Params: stack, mode, example, index of the symbolic float, its range
/// mode 0: predict_then_learn against predict and learn; 1: binary reload, then learn; 2: json reload, then learn
#[no_mangle]
pub extern "C" fn step_any() {
    let (cfg, kind) = stack(sym::param(0));
    let mode = sym::param(1);
    let k = learnable(kind, sym::param(2) as u32);
    let mut w = workspace(cfg);
    for t in 0..2 { w.learn(&mut ex(kind, learnable(kind, t)), &lab(kind, t, 0)); }
    let mut state = w.serialize_to_json().unwrap();
    let mut n = 0;
    let wild = sym::param(3);
    symbolise(&mut state, "", wild, true, &mut n);
    if wild >= n { sym::reach("end"); return; }
    let mut a = Workspace::deserialize_from_json(&state).unwrap();
    let mut b = if mode == 0 { Workspace::deserialize_from_json(&state).unwrap() } else { reload_with(&a, mode - 1) };
    let l = lab(kind, 0, 1);
    let (mut f, mut g) = (ex(kind, k), ex(kind, k));
    if mode == 0 {
        let p = b.predict(&mut g);
        same_json(&b.serialize_to_json().unwrap(), &state, "predict leaves the model as it was");
        b.learn(&mut g, &l);
        let q = a.predict_then_learn(&mut f, &l);
        same_pred(&p, &q, "predict_then_learn returns what predict returns");
        for j in 0..3 { let (p, q) = (a.predict(&mut ex(kind, j)), b.predict(&mut ex(kind, j))); same_pred(&p, &q, "predict_then_learn learns what learn learns"); }
    } else {
        a.learn(&mut f, &l);
        b.learn(&mut g, &l);
        for j in 0..3 { let (p, q) = (a.predict(&mut ex(kind, j)), b.predict(&mut ex(kind, j))); same_pred(&p, &q, "the reloaded model learns like the saved one"); }
    }
    sym::reach("end");
}

/// structural equality of exported models; numbers as values
pub fn same_json(a: &serde_json::Value, b: &serde_json::Value, msg: &str) {
    use serde_json::Value::*;
    match (a, b) {
        (Null, Null) => {}
        (Bool(x), Bool(y)) => sym::check(x == y, msg),
        (String(x), String(y)) => sym::check(x == y, msg),
        (Number(x), Number(y)) => {
            if x.is_f64() && y.is_f64() { let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap()); sym::check((x == y) | (x.to_bits() == y.to_bits()), msg) }
            else { sym::check(x == y, msg) }
        }
        (Array(x), Array(y)) => { sym::check(x.len() == y.len(), msg); for i in 0..x.len() { same_json(&x[i], &y[i], msg) } }
        (Object(x), Object(y)) => {
            sym::check(x.len() == y.len(), msg);
            for (k, v) in x { match y.get(k) { Some(w) => same_json(v, w, msg), None => sym::check(false, msg) } }
        }
        _ => sym::check(false, msg),
    }
}

/// Tables of weights survive saving. Params: features, submodels, states, format (0 binary, 1 json)
#[no_mangle]
pub extern "C" fn table_roundtrip() {
    let (nf, nm_, nst, fmt) = (sym::param(0) as u32, sym::param(1) as u32, sym::param(2) as u32, sym::param(3));
    let mut w = DenseWeights::new(FeatureIndex::from(nf), ModelIndex::from(nm_ as u8), StateIndex::from(nst as u8)).unwrap();
    let spots: Vec<u32> = [0u32, 1, 127, 128, 255, 256, 32768, 65535, 65536, nf - 1].iter().copied().filter(|i| *i < nf).collect();
    let mut want = std::collections::BTreeMap::new();
    for t in 0..2 {
        let (i, a, k) = if t == 0 { (nf - 1, nm_ - 1, nst - 1) } else { (spots[sym::choice("i", spots.len() as u32) as usize], sym::choice("a", nm_), sym::choice("k", nst)) };
        let v = sym::f32_finite(&nm("v", t));
        sym::assume(v != 0.0);
        w.state_at_mut(i.into(), ModelIndex::from(a as u8))[k as usize] = v;
        want.insert((i, a, k), v);
    }
    let r = if fmt == 0 {
        let mut s = flexbuffers::FlexbufferSerializer::new();
        serde::Serialize::serialize(&w, &mut s).unwrap();
        let b = s.take_buffer();
        let r: DenseWeights = serde::Deserialize::deserialize(flexbuffers::Reader::get_root(&b[..]).unwrap()).unwrap();
        r
    } else {
        let v = serde_json::to_value(DenseWeightsWithNDArray::from_dense_weights(w)).unwrap();
        let n: DenseWeightsWithNDArray = serde_json::from_value(v).unwrap();
        n.to_dense_weights()
    };
    for i in &spots { for a in 0..nm_ {
        let s = r.state_at((*i).into(), ModelIndex::from(a as u8));
        sym::check(s.len() == nst as usize, "the table keeps its shape");
        for k in 0..nst { sym::check(sym::same(s[k as usize], want.get(&(*i, a, k)).copied().unwrap_or(0.0)), "a saved table holds the same weights"); }
    } }
    sym::reach("end");
}
/// A model with a large table. Params: format, bits, kind (0 regressor, 2 contextual bandit)
#[no_mangle]
pub extern "C" fn reload_big() {
    let (fmt, bits, kind) = (sym::param(0), sym::param(1), sym::param(2) as u32);
    let cfg = format!(r#"{{"globalConfig":{{"numBits":{bits},"hashSeed":7}},"entryReduction":{{"typename":"{}"}}}}"#, if kind == 0 { "Coin" } else { "CbExploreAdfSquareCb" });
    let mut a = workspace(&cfg);
    let top = (1u32 << bits) - 1;
    let spots = [0, 255, 256, top / 2 + 2, top - 1, top];
    let x = sym::choice("x", spots.len() as u32) as usize;
    let mk = |j: usize| { let mut f = SparseFeatures::new(); add(&mut f, ns("a"), spots[j % spots.len()], 1.0 + j as f32); add(&mut f, ns("b"), spots[(j + 1) % spots.len()], -0.5); f };
    let ex = |j: usize| -> Features<'static> { if kind == 0 { mk(j).into() } else { CBAdfFeatures { shared: None, actions: vec![mk(j), mk(j + 2)] }.into() } };
    let y = sym::f32_in("y", 1.0, 3.0);
    for t in 0..2 {
        let y = if t == 1 { y } else { 1.5 };
        let l: Label = if kind == 0 { Label::Simple(SimpleLabel::new(y, 1.0)) } else { Label::CB(CBLabel::new(t, y, 0.5)) };
        a.learn(&mut ex(x + t), &l);
    }
    let b = reload_with(&a, fmt);
    for j in 0..spots.len() { let (p, q) = (a.predict(&mut ex(j)), b.predict(&mut ex(j))); same_pred(&p, &q, "the reloaded model predicts like the saved one"); }
    sym::reach("end");
}

/// Long histories. Params: stack, what follows (0 saved and loaded in binary, 1 in JSON, 2 a twin driven by other calls), learned examples
#[no_mangle]
pub extern "C" fn long_history() {
    let (cfg, kind) = stack(sym::param(0));
    let what = sym::param(1);
    let n = sym::param(2) as u32;
    let mut a = workspace(cfg);
    let mut b = workspace(cfg);
    let late = sym::choice("late", 3);
    for t in 0..n {
        let k = learnable(kind, t % 3);
        let l = lab(kind, t, 0);
        a.learn(&mut ex(kind, k), &l);
        if what == 2 {
            if t % 16 == late { b.predict(&mut ex(kind, t % 4)); }
            if t % 5 == 0 { let q = b.predict(&mut ex(kind, k)); let p = b.predict_then_learn(&mut ex(kind, k), &l); same_pred(&p, &q, "predict_then_learn returns what predict returns"); }
            else { b.learn(&mut ex(kind, k), &l) }
        }
    }
    if what < 2 { b = reload_with(&a, what); }
    let v = sym::f32_in("v", -8.0, 8.0);
    let mk = |i: u32| { let mut f = SparseFeatures::new(); add(&mut f, ns("a"), 3 + i, v); add(&mut f, ns("b"), 1, 0.5); f };
    let mut f: Features = if kind < 2 { mk(late).into() } else { CBAdfFeatures { shared: Some(mk(2)), actions: vec![mk(late), SparseFeatures::new()] }.into() };
    if !cfg.contains("SquareCb") && !cfg.contains("Softmax") && !cfg.contains("Greedy") { let (p, q) = (a.predict(&mut f), b.predict(&mut f)); same_pred(&p, &q, "learners with the same long history agree"); }
    finish(&mut a, &mut b, kind, n + late, "learners with the same long history agree");
    sym::reach("end");
}
/// Saving a model with many features. Params: format, features, kind (0 regressor, 2 contextual bandit)
#[no_mangle]
pub extern "C" fn reload_wide() {
    let (fmt, n, kind) = (sym::param(0), sym::param(1) as usize, sym::param(2) as u32);
    let mut a = workspace(&format!(r#"{{"globalConfig":{{"numBits":10}},"entryReduction":{{"typename":"{}"}}}}"#, if kind == 0 { "Coin" } else { "CbAdf" }));
    let mk = |s: usize| { let mut f = SparseFeatures::new(); for i in 0..n { add(&mut f, ns(["a", "b", " "][i % 3]), ((i * 7 + s) % 1024) as u32, [1.0f32, -0.5, 0.0, 2.0][(i + s) % 4]); } f };
    let ex = |s: usize| -> Features<'static> { if kind == 0 { mk(s).into() } else { CBAdfFeatures { shared: Some(mk(s)), actions: vec![mk(s + 1), mk(s + 2)] }.into() } };
    for t in 0..2 { let l: Label = if kind == 0 { Label::Simple(SimpleLabel::new([1.5, -0.5][t], 1.0)) } else { Label::CB(CBLabel::new(t, 1.5, 0.5)) }; a.learn(&mut ex(3 * t), &l); }
    let b = reload_with(&a, fmt);
    let v = sym::f32_in("v", -8.0, 8.0);
    let at = [0, n / 2, n - 1][sym::choice("at", 3) as usize];
    let mut f = SparseFeatures::new();
    add(&mut f, ns("a"), ((at * 7) % 1024) as u32, v);
    let mut f: Features = if kind == 0 { f.into() } else { CBAdfFeatures { shared: None, actions: vec![f] }.into() };
    let (p, q) = (a.predict(&mut f), b.predict(&mut f));
    same_pred(&p, &q, "the reloaded model predicts like the saved one");
    for s in 0..4 { let (p, q) = (a.predict(&mut ex(s)), b.predict(&mut ex(s))); same_pred(&p, &q, "the reloaded model predicts like the saved one"); }
    sym::reach("end");
}
