//! Configurations: nesting of reductions, defaults, overrides, refusals; elementwise interaction; the coin update rule.
use crate::fx::*;
use crate::losses::near;
use crate::sym;
use reductionml_core::reduction::*;
use serde_json::{json, Value};

/// (typename, field holding the reduction below)
const KINDS: [(&str, &str); 8] = [("Coin", ""), ("Binary", "regressor"), ("ElementwiseInteraction", "regressor"), ("Debug", "next"), ("CbAdf", "regressor"), ("CbExploreAdfGreedy", "cbAdf"), ("CbExploreAdfSoftmax", "cbAdf"), ("CbExploreAdfSquareCb", "cbAdf")];
#[derive(Clone, Copy, PartialEq)]
pub struct Ty { label: u8, feats: u8, pred: u8 } // label 0 simple 1 binary 2 cb; features 0 simple 1 cb; prediction 0 scalar 1 binary 2 scores 3 probabilities
/// the documented type of a reduction over a base of the given type
fn typed(k: usize, below: Option<Ty>) -> Option<Ty> {
    let simple = Ty { label: 0, feats: 0, pred: 0 };
    match k {
        0 => Some(simple),
        1 => below.filter(|b| b.label == 0 && b.pred == 0).map(|b| Ty { label: 1, feats: b.feats, pred: 1 }),
        2 => below.filter(|b| b.feats == 0),
        3 => below,
        4 => below.filter(|b| *b == simple).map(|_| Ty { label: 2, feats: 1, pred: 2 }),
        _ => below.filter(|b| *b == Ty { label: 2, feats: 1, pred: 2 }).map(|b| Ty { pred: 3, ..b }),
    }
}
fn code(t: &ReductionTypeDescription) -> Ty {
    Ty {
        label: match t.input_label_type() { LabelType::Simple => 0, LabelType::Binary => 1, LabelType::CB => 2 },
        feats: match t.input_features_type() { FeaturesType::SparseSimple => 0, FeaturesType::SparseCBAdf => 1 },
        pred: match t.output_prediction_type() { PredictionType::Scalar => 0, PredictionType::Binary => 1, PredictionType::ActionScores => 2, PredictionType::ActionProbs => 3 },
    }
}
fn build(v: Value) -> std::result::Result<Workspace, String> {
    let c: std::result::Result<Configuration, _> = v.try_into();
    match c { Err(_) => Err(String::new()), Ok(c) => match Workspace::new(c) { Ok(w) => Ok(w), Err(_) => Err(String::new()) } }
}
fn feats(kind: u8, x: f32, z: f32) -> Features<'static> {
    let mk = |l: &[(&str, u32, f32)]| { let mut f = SparseFeatures::new(); for (n, i, v) in l { add(&mut f, ns(n), *i, *v); } f };
    if kind == 0 { mk(&[("a", 3, x), ("b", 5, z)]).into() }
    else { CBAdfFeatures { shared: Some(mk(&[("a", 2, 1.0)])), actions: vec![mk(&[("b", 1, x)]), mk(&[("a", 7, z)])] }.into() }
}
fn label_of(kind: u8, y: f32) -> Label {
    match kind { 0 => SimpleLabel::new(y, 1.0).into(), 1 => BinaryLabel(sym::choice("b", 2) == 1).into(), _ => CBLabel::new(sym::choice("act", 2) as usize, y, 0.5).into() }
}
fn pred_kind(p: &Prediction) -> u8 { match p { Prediction::Scalar(_) => 0, Prediction::Binary(_) => 1, Prediction::ActionScores(_) => 2, Prediction::ActionProbs(_) => 3 } }

/// Every nesting of reductions up to a depth, below a fixed outermost reduction: accepted exactly when the types fit, and then usable.
/// Params: outermost reduction, depth of the rest, 1 = run accepted stacks
#[no_mangle]
pub extern "C" fn nesting() {
    let depth = sym::param(1) as usize;
    let mut ks = vec![sym::param(0) as usize];
    while KINDS[*ks.last().unwrap()].1 != "" && ks.len() <= depth {
        ks.push(if ks.len() == depth { 0 } else { sym::choice(&nm("k", ks.len()), KINDS.len() as u32) as usize });
    }
    let mut want: Option<Ty> = None;
    let mut cfg = Value::Null;
    let mut ips_below = false;
    let mut refused = false;
    let mut ips = false;
    for (j, k) in ks.iter().enumerate().rev() {
        let t = typed(*k, want);
        if t.is_none() { refused = true; }
        want = t;
        let mut c = json!({});
        if *k == 2 { c["one"] = json!({"Name":"a"}); c["two"] = json!({"Name":"b"}); }
        if *k == 4 && sym::choice(&nm("ips", j), 2) == 1 { c["cbType"] = json!("ips"); ips = true; }
        if *k != 0 { c[KINDS[*k].1] = cfg; }
        // SquareCB directly over CbAdf is documented to need mtr
        if *k == 7 && ips_below { refused = true; }
        ips_below = *k == 4 && ips;
        cfg = json!({"typename": KINDS[*k].0, "config": c});
    }
    let _ = ips_below;
    let r = build(json!({"globalConfig": {"numBits": 4}, "entryReduction": cfg}));
    sym::check(r.is_ok() == !refused, "a stack is accepted exactly when its types fit");
    if let Ok(mut ws) = r {
        let t = want.unwrap();
        sym::check(code(ws.get_entry_reduction().types()) == t, "the stack has the documented input and output types");
        if sym::param(2) == 1 {
            let (x, z) = (sym::f32_in("x", -8.0, 8.0), sym::f32_in("z", 0.5, 4.0));
            let y = sym::f32_in("y", 1.0, 3.0);
            sym::check(pred_kind(&ws.predict(&mut feats(t.feats, x, z))) == t.pred, "an accepted stack predicts its declared type");
            let l = label_of(t.label, y);
            ws.learn(&mut feats(t.feats, 1.0, 2.0), &l);
            sym::check(pred_kind(&ws.predict_then_learn(&mut feats(t.feats, 1.0, -0.5), &label_of(t.label, 1.5))) == t.pred, "an accepted stack predicts its declared type");
            sym::check(pred_kind(&ws.predict(&mut feats(t.feats, 0.25, z))) == t.pred, "an accepted stack predicts its declared type");
        }
    }
    sym::reach("end");
}
/// The compatibility check over all type descriptions
#[no_mangle]
pub extern "C" fn type_check() {
    let lt = |k: u8| match k { 0 => LabelType::Simple, 1 => LabelType::Binary, _ => LabelType::CB };
    let ft = |k: u8| match k { 0 => FeaturesType::SparseSimple, _ => FeaturesType::SparseCBAdf };
    let pt = |k: u8| match k { 0 => PredictionType::Scalar, 1 => PredictionType::Binary, 2 => PredictionType::ActionScores, _ => PredictionType::ActionProbs };
    let below = |n: &str, k: u8| { let x = sym::u8(n); sym::assume(x < k); x };
    let (l, f, p) = (below("l", 3), below("f", 2), below("p", 4));
    let base = ReductionTypeDescriptionBuilder::new(lt(l), ft(f), pt(p)).build();
    let (il, i_f, op) = (below("il", 3), below("if", 2), below("op", 4));
    let mut b = ReductionTypeDescriptionBuilder::new(lt(il), ft(i_f), pt(op));
    let (ol, of, ip) = (below("ol", 3), below("of", 2), below("ip", 4));
    let (hl, hf, hp) = (sym::choice("hl", 2) == 1, sym::choice("hf", 2) == 1, sym::choice("hp", 2) == 1);
    if hl { b = b.with_output_label_type(lt(ol)); }
    if hf { b = b.with_output_features_type(ft(of)); }
    if hp { b = b.with_input_prediction_type(pt(ip)); }
    let fits = hl & hf & hp & (ol == l) & (of == f) & (ip == p);
    sym::check(b.build().check_and_get_reason(&base).is_none() == fits, "the check accepts exactly matching types");
    sym::reach("end");
}

/// documented defaults: (typename, fields)
fn defaults(k: u64) -> (&'static str, Vec<(&'static str, Value)>) {
    let cb = || json!({"typename":"CbAdf","config":{"cbType":"mtr","regressor":{"typename":"Coin","config":{"alpha":4.0,"beta":1.0,"l1Lambda":0.0,"l2Lambda":0.0,"lossFunction":{"Squared":{}},"linkFunction":"Identity"}}}});
    let coin = || json!({"typename":"Coin","config":{"alpha":4.0,"beta":1.0,"l1Lambda":0.0,"l2Lambda":0.0,"lossFunction":{"Squared":{}},"linkFunction":"Identity"}});
    match k {
        0 => ("Coin", vec![("alpha", json!(4.0)), ("beta", json!(1.0)), ("l1Lambda", json!(0.0)), ("l2Lambda", json!(0.0)), ("lossFunction", json!({"Squared":{}})), ("linkFunction", json!("Identity"))]),
        1 => ("Binary", vec![("regressor", coin())]),
        2 => ("ElementwiseInteraction", vec![("regressor", coin()), ("one", json!("Default")), ("two", json!("Default")), ("keepOriginalFeatures", json!(false))]),
        3 => ("Debug", vec![("id", json!("")), ("prediction", json!(false)), ("label", json!(false)), ("features", json!(false)), ("indent", json!(0))]),
        4 => ("CbAdf", vec![("cbType", json!("mtr")), ("regressor", coin())]),
        5 => ("CbExploreAdfGreedy", vec![("epsilon", json!(0.05)), ("cbAdf", cb())]),
        6 => ("CbExploreAdfSoftmax", vec![("uniformEpsilon", json!(0.0)), ("lambda", json!(1.0)), ("cbAdf", cb())]),
        _ => ("CbExploreAdfSquareCb", vec![("uniformEpsilon", json!(0.0)), ("gammaScale", json!(10.0)), ("gammaExponent", json!(0.5)), ("cbAdf", cb())]),
    }
}
fn full(k: u64, fields: &[(&str, Value)]) -> Value {
    let mut c = json!({});
    if k == 3 { c["next"] = json!({"typename":"Coin"}); }
    for (n, v) in fields { c[*n] = v.clone(); }
    json!({"globalConfig": {"numBits": 4}, "entryReduction": {"typename": defaults(k).0, "config": c}})
}
/// numbers equal up to the precision of f32
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| alike(v, w))),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| alike(v, w)),
        (Value::Number(x), Value::Number(y)) => x.as_f64().unwrap() as f32 == y.as_f64().unwrap() as f32,
        _ => a == b,
    }
}
fn behaves(a: &mut Workspace, b: &mut Workspace, msg: &str) {
    let t = code(a.get_entry_reduction().types());
    let y = sym::f32_in("y", 1.0, 3.0);
    let l = label_of(t.label, y);
    for w in [&mut *a, &mut *b] { w.learn(&mut feats(t.feats, 1.0, 2.0), &l); }
    for (x, z) in [(1.0, 2.0), (0.5, -1.0)] { same_pred(&a.predict(&mut feats(t.feats, x, z)), &b.predict(&mut feats(t.feats, x, z)), msg); }
}
/// Any subset of fields written out with the documented default is the same as writing none. Params: reduction
#[no_mangle]
pub extern "C" fn default_fields() {
    let k = sym::param(0);
    let (name, fields) = defaults(k);
    let given: Vec<(&str, Value)> = fields.into_iter().filter(|f| sym::choice(f.0, 2) == 1).collect();
    let mut a = build(full(k, &given)).unwrap();
    let mut cfg = full(k, &[]);
    if k != 3 && sym::choice("omitConfig", 2) == 1 { cfg["entryReduction"] = json!({"typename": name}); }
    let mut b = build(cfg).unwrap();
    sym::check(alike(&a.serialize_to_json().unwrap(), &b.serialize_to_json().unwrap()), "an omitted field equals its documented default");
    behaves(&mut a, &mut b, "an omitted field behaves like its documented default");
    sym::reach("end");
}
/// globalConfig: numBits 18, hashSeed 0, constant feature on, no interactions
#[no_mangle]
pub extern "C" fn default_globals() {
    let mut g = json!({});
    if sym::choice("numBits", 2) == 1 { g["numBits"] = json!(18); }
    if sym::choice("hashSeed", 2) == 1 { g["hashSeed"] = json!(0); }
    if sym::choice("constant", 2) == 1 { g["constantFeatureEnabled"] = json!(true); }
    if sym::choice("interactions", 2) == 1 { g["interactions"] = json!([]); }
    let c: Configuration = json!({"globalConfig": g, "entryReduction": {"typename":"Coin"}}).try_into().unwrap();
    let w = Workspace::new(c).unwrap();
    let g = w.global_config();
    sym::check(g.num_bits() == 18 && g.hash_seed() == 0 && g.constant_feature_enabled() && g.interactions().is_empty(), "global defaults are the documented ones");
    sym::reach("end");
}
/// hashSeed, numBits, constantFeatureEnabled and interactions take effect on the learner.
/// Params: numBits, hashSeed
#[no_mangle]
pub extern "C" fn global_effect() {
    let (bits, seed) = (sym::param(0) as u8, sym::param(1) as u32);
    let cst = sym::choice("constant", 2) == 1;
    let inter = sym::choice("interactions", 3);
    let m = (1u32 << bits) - 1;
    let n = |s: &str| Namespace::from_name(s, seed);
    let mut g = json!({"numBits": bits, "hashSeed": seed, "constantFeatureEnabled": cst});
    if inter > 0 { g["interactions"] = json!([[{"Name":"a"},{"Name":"b"}]]); }
    if inter > 1 { g["interactions"].as_array_mut().unwrap().push(json!(["Default",{"Name":"a"},{"Name":"b"}])); }
    let mut ws = build(json!({"globalConfig": g, "entryReduction":{"typename":"Coin"}})).unwrap();
    sym::check(ws.global_config().num_bits() == bits && ws.global_config().hash_seed() == seed, "the configured globals are reported");
    let (x, y, d) = (sym::f32_in("x", 0.5, 4.0), 2.0f32, 0.5f32);
    let mk = || { let mut f = SparseFeatures::new(); add(&mut f, n("a"), 3 & m, x); add(&mut f, n("b"), 1, y); add(&mut f, Namespace::Default, 2, d); f };
    // the twin has neither constant nor interactions: they are ordinary features
    let mut tw = build(json!({"globalConfig": {"numBits": bits, "constantFeatureEnabled": false}, "entryReduction":{"typename":"Coin"}})).unwrap();
    let fnv = |a: u32, b: u32| a.wrapping_mul(16777619) ^ b;
    let man = || { let mut f = mk();
        let z = Namespace::RawHash(77.into());
        if inter > 0 { add(&mut f, z, fnv(3 & m, 1) & m, x * y); }
        if inter > 1 { add(&mut f, z, fnv(fnv(2, 3 & m), 1) & m, d * x * y); }
        if cst { add(&mut f, z, (1u32 << bits) / 2, 1.0); } f };
    let l: Label = SimpleLabel::new(2.0, 1.0).into();
    ws.learn(&mut mk().into(), &l);
    tw.learn(&mut man().into(), &l);
    let (p, q) = (scalar(&ws.predict(&mut mk().into())), scalar(&tw.predict(&mut man().into())));
    sym::check(near(p.1, q.1, 1e-4, 1e-4), "globals take effect on predictions and learning");
    let mut one = SparseFeatures::new(); add(&mut one, n("a"), 3 & m, 1.0);
    let mut two = one.clone(); if cst { add(&mut two, Namespace::RawHash(77.into()), (1u32 << bits) / 2, 1.0); }
    let (p, q) = (scalar(&ws.predict(&mut one.into())), scalar(&tw.predict(&mut two.into())));
    sym::check(near(p.1, q.1, 1e-4, 1e-4), "globals take effect on predictions and learning");
    sym::reach("end");
}
/// A configuration with something unknown or ill-typed is refused with an error. Params: reduction, what
#[no_mangle]
pub extern "C" fn refusals() {
    let k = sym::param(0);
    let (name, fields) = defaults(k);
    let mut v = full(k, &[]);
    let set = |v: &mut Value, n: &str, x: Value| v["entryReduction"]["config"][n] = x;
    match sym::param(1) {
        // any unknown key of five or six letters
        0 | 1 => {
            let len = if sym::param(1) == 0 { 5 } else { 6 };
            let mut key = String::new();
            for j in 0..len { let b = sym::u8(&nm("key", j)); sym::assume((b >= b'a') & (b <= b'z')); key.push(b as char); }
            for f in fields.iter().map(|f| f.0).chain(["next"]) {
                if f.len() == len { let mut eq = true; for (x, y) in f.bytes().zip(key.bytes()) { eq &= x == y; } sym::assume(!eq); }
            }
            let mut m = serde_json::Map::new();
            if k == 3 { m.insert("next".to_string(), json!({"typename":"Coin"})); }
            m.insert(key, json!(1));
            v["entryReduction"]["config"] = Value::Object(m);
        }
        // a known field misspelt
        2 => {
            let f = &fields[sym::choice("field", fields.len() as u32) as usize];
            let n = match sym::choice("how", 4) { 0 => f.0.to_uppercase(), 1 => { let mut s = f.0.to_string(); s.push('s'); s } 2 => { let mut s = f.0.to_string(); s.insert(0, '_'); s } _ => { let mut s = f.0.to_string(); s.truncate(f.0.len() - 1); s } };
            set(&mut v, &n, f.1.clone());
        }
        // a known field of the wrong type
        3 => {
            let f = &fields[sym::choice("field", fields.len() as u32) as usize];
            let bad = match (&f.1, sym::choice("how", 4)) {
                (Value::Number(_), 0) => json!("1.0"), (Value::Number(_), 1) => json!(true), (Value::Number(_), 2) => json!([1.0]), (Value::Number(_), _) => json!({}),
                (Value::Bool(_), 0) => json!(1), (Value::Bool(_), 1) => json!("true"), (Value::Bool(_), 2) => json!([]), (Value::Bool(_), _) => json!({}),
                (Value::String(_), 0) => json!(3), (Value::String(_), 1) => json!(false), (Value::String(_), 2) => json!(["mtr"]), (Value::String(_), _) => json!({}),
                (_, 0) => json!(1), (_, 1) => json!("Nothing"), (_, 2) => json!([]), (_, _) => json!({}),
            };
            set(&mut v, f.0, bad);
        }
        // unknown reduction names, at the top and below
        4 => {
            let n = ["coin", "Coins", "", "CbADF", "Unknown", "Coin "][sym::choice("name", 6) as usize];
            if k == 0 || sym::choice("below", 2) == 0 { v["entryReduction"]["typename"] = json!(n); }
            else { set(&mut v, KINDS[k as usize].1, json!({"typename": n})); }
        }
        // unknown fields around the reduction and in the global configuration
        5 => {
            let n = ["configs", "Typename", "name"][sym::choice("name", 3) as usize];
            match sym::choice("where", 4) {
                0 => { v[n] = json!(1); }
                1 => { v["globalConfig"][n] = json!(1); }
                2 => { v["entryReduction"][n] = json!(1); }
                _ => if k == 0 { v["entryReduction"][n] = json!({}); } else { let mut b = json!({"typename": if k < 5 { "Coin" } else { "CbAdf" }}); b[n] = json!(1); set(&mut v, KINDS[k as usize].1, b); }
            }
        }
        // ill-typed globals, missing parts
        6 => match sym::choice("what", 10) {
            0 => v["globalConfig"]["numBits"] = json!("18"),
            1 => v["globalConfig"]["numBits"] = json!(-1),
            2 => v["globalConfig"]["numBits"] = json!(4.5),
            3 => v["globalConfig"]["hashSeed"] = json!("a"),
            4 => v["globalConfig"]["constantFeatureEnabled"] = json!(1),
            5 => v["globalConfig"]["interactions"] = json!([["a", "b"]]),
            6 => v["globalConfig"]["interactions"] = json!({"a": "b"}),
            7 => { v["entryReduction"].as_object_mut().unwrap().remove("typename"); }
            8 => { v.as_object_mut().unwrap().remove("entryReduction"); }
            _ => v["entryReduction"] = json!("Coin"),
        },
        // a number outside the type of its field
        _ => { let x = sym::u64("bits"); sym::assume(x > 255); sym::assume(x < 70000); v["globalConfig"]["numBits"] = json!(x); }
    }
    sym::check(build(v).is_err(), "an unknown or ill-typed field or name is refused");
    let _ = name;
    sym::reach("end");
}
/// Configured numbers reach the reduction unchanged. Params: reduction
#[no_mangle]
pub extern "C" fn kept_values() {
    let k = sym::param(0);
    let (_, fields) = defaults(k);
    let nums: Vec<&str> = fields.iter().filter(|f| f.1.is_f64()).map(|f| f.0).collect();
    let mut given: Vec<(&str, Value)> = vec![];
    let mut xs = vec![];
    for n in &nums { let x = sym::f32_in(n, 0.001, 0.999); xs.push(x); given.push((n, json!(x as f64))); }
    let w = build(full(k, &given)).unwrap();
    let j = w.serialize_to_json().unwrap();
    let c = &j["entry_reduction"]["reduction"]["config"];
    let c = if c.is_null() { &j["entry_reduction"]["reduction"] } else { c };
    for (n, x) in nums.iter().zip(&xs) {
        let snake: String = n.chars().flat_map(|c| if c.is_uppercase() { vec!['_', c.to_ascii_lowercase()] } else { vec![c] }).collect();
        let v = if c[*n].is_null() { &c[snake.as_str()] } else { &c[*n] };
        sym::check(v.as_f64().map_or(false, |v| v as f32 == *x), "a configured number is kept");
    }
    sym::reach("end");
}
/// Regularisation of the coin learner. Params: 0 l1Lambda, 1 l2Lambda
#[no_mangle]
pub extern "C" fn regularised() {
    let n = ["l1Lambda", "l2Lambda"][sym::param(0) as usize];
    let mut c = json!({});
    c[n] = json!(0.5);
    let mut ws: Vec<Workspace> = [json!({}), c].into_iter().map(|c| build(json!({"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin","config":c}})).unwrap()).collect();
    let y = sym::f32_in("y", 1.0, 3.0);
    let mut p = vec![];
    for w in &mut ws {
        for y in [y, 2.0] { w.learn(&mut feats(0, 1.0, 2.0), &SimpleLabel::new(y, 1.0).into()); }
        p.push(scalar(&w.predict(&mut feats(0, 1.0, 2.0))).1);
    }
    sym::check(p[0] != p[1], if sym::param(0) == 0 { "l1Lambda takes effect" } else { "l2Lambda takes effect" });
    sym::reach("end");
}
/// One configuration spelt in JSON and in YAML
#[no_mangle]
pub extern "C" fn yaml() {
    let (j, y) = match sym::param(0) {
        0 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin","config":{"alpha":2.5,"beta":0.5}}}"#, "globalConfig:\n  numBits: 4\nentryReduction:\n  typename: Coin\n  config:\n    alpha: 2.5\n    beta: 0.5\n"),
        1 => (r#"{"globalConfig":{"numBits":5,"hashSeed":3,"constantFeatureEnabled":false,"interactions":[[{"Name":"a"},{"Name":"b"}],["Default",{"Name":"a"}]]},"entryReduction":{"typename":"Coin"}}"#, "globalConfig:\n  numBits: 5\n  hashSeed: 3\n  constantFeatureEnabled: false\n  interactions:\n  - - Name: a\n    - Name: b\n  - [Default, {Name: a}]\nentryReduction: {typename: Coin}\n"),
        2 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbExploreAdfGreedy","config":{"epsilon":0.25,"cbAdf":{"typename":"CbAdf","config":{"cbType":"ips"}}}}}"#, "---\nglobalConfig: {numBits: 4} # comment\nentryReduction:\n  typename: \"CbExploreAdfGreedy\"\n  config:\n    epsilon: 0.25\n    cbAdf:\n      typename: CbAdf\n      config: {cbType: ips}\n"),
        _ => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin","config":{"alpha":1,"bta":2}}}"#, "globalConfig: {numBits: 4}\nentryReduction: {typename: Coin, config: {alpha: 1, bta: 2}}\n"),
    };
    let (a, b) = (Configuration::from_json_str(j).unwrap(), Configuration::from_yaml_str(y).unwrap());
    let (a, b) = (Workspace::new(a), Workspace::new(b));
    sym::check(a.is_ok() == b.is_ok() && a.is_ok() == (sym::param(0) < 3), "JSON and YAML are accepted alike");
    if let (Ok(mut a), Ok(mut b)) = (a, b) {
        sym::check(alike(&a.serialize_to_json().unwrap(), &b.serialize_to_json().unwrap()), "JSON and YAML give the same workspace");
        behaves(&mut a, &mut b, "JSON and YAML give the same behaviour");
    }
    sym::reach("end");
}

/// Elementwise interaction against the base learner given the pairs by hand.
/// Params: numBits, keep, names (0 a/b, 1 a/a, 2 a/default, 3 b/a), seed, largest offset, form of namespace two
#[no_mangle]
pub extern "C" fn elementwise() {
    let (bits, keep, names, seed, top) = (sym::param(0) as u8, sym::param(1) == 1, sym::param(2), sym::param(3) as u32, sym::param(4) as u32);
    let m = (1u32 << bits) - 1;
    let def = |s: &str| if s == " " { json!("Default") } else { json!({"Name": s}) };
    let (n1, n2) = match names { 0 => ("a", "b"), 1 => ("a", "a"), 2 => ("a", " "), 3 => ("b", "a"), _ => ("a", "nothing") };
    let reg = json!({"typename":"Coin"});
    let g = json!({"numBits": bits, "hashSeed": seed, "constantFeatureEnabled": false});
    let mut e = build(json!({"globalConfig": g, "entryReduction": {"typename":"ElementwiseInteraction","config":{"one": def(n1), "two": def(n2), "keepOriginalFeatures": keep, "regressor": reg}}})).unwrap();
    let mut t = build(json!({"globalConfig": g, "entryReduction": reg})).unwrap();
    let n = |s: &str| if s == " " { Namespace::Default } else { Namespace::from_name(s, seed) };
    let (a, b) = (n(n1), n(n2));
    let base = |n: Namespace| u32::from(n.hash());
    // a set of offsets and a value for each
    let set = |tag: &str, k: u64| -> Vec<(u32, f32)> {
        if k == 9 { return vec![]; }
        let mask = sym::choice(tag, 1 << top);
        (0..top).filter(|o| mask >> o & 1 == 1).map(|o| (o, sym::f32_in(&nm(tag, o as usize), 0.5, 4.0))).collect()
    };
    // learned from these concrete values (or, with one offset, from the symbolic ones)
    let fix = |l: &[(u32, f32)], k: f32| -> Vec<(u32, f32)> { if top == 1 && !keep { l.to_vec() } else { l.iter().map(|(o, _)| (*o, k + *o as f32 * 0.5)).collect() } };
    let fa = set("one", 0);
    let fb = if n1 == n2 { fa.clone() } else { set("two", sym::param(5)) };
    let put = |f: &mut SparseFeatures, n: Namespace, l: &[(u32, f32)]| for (o, v) in l { add(f, n, base(n).wrapping_add(*o) & m, *v) };
    let other = |f: &mut SparseFeatures| add(f, n("z"), 2, 1.5);
    let mk = |fa: &[(u32, f32)], fb: &[(u32, f32)]| { let mut f = SparseFeatures::new(); put(&mut f, a, fa); if n1 != n2 { put(&mut f, b, fb); } other(&mut f); f };
    let comp = (base(a) as u64 * base(b) as u64) as u32;
    let man = |fa: &[(u32, f32)], fb: &[(u32, f32)]| {
        let mut f = SparseFeatures::new();
        if keep { put(&mut f, a, fa); if n1 != n2 { put(&mut f, b, fb); } }
        other(&mut f);
        for (o, v) in fa { for (p, w) in fb { if o == p { add(&mut f, Namespace::RawHash(comp.into()), comp.wrapping_add(*o) & m, v * w); } } }
        f
    };
    let l: Label = SimpleLabel::new(2.0, 1.0).into();
    let (ga, gb) = (fix(&fa, 1.0), if n1 == n2 { fix(&fa, 1.0) } else { fix(&fb, 0.75) });
    e.learn(&mut mk(&ga, &gb).into(), &l);
    t.learn(&mut man(&ga, &gb).into(), &l);
    let msg = "the regressor sees exactly the pairs of equal offset";
    let same = |x: Prediction, y: Prediction| { let (x, y) = (scalar(&x), scalar(&y)); sym::check(near(x.1, y.1, 1e-4, 1e-4), msg); };
    same(e.predict(&mut mk(&fa, &fb).into()), t.predict(&mut man(&fa, &fb).into()));
    let l: Label = SimpleLabel::new(-1.0, 1.0).into();
    let p = e.predict_then_learn(&mut mk(&ga, &gb).into(), &l);
    let q = t.predict_then_learn(&mut man(&ga, &gb).into(), &l);
    same(p, q);
    // every pair on its own, and every original feature on its own
    for o in 0..top {
        let one = [(o, 2.0f32)];
        same(e.predict(&mut mk(&one, &one).into()), t.predict(&mut man(&one, &one).into()));
        if n1 != n2 { same(e.predict(&mut mk(&one, &[]).into()), t.predict(&mut man(&one, &[]).into())); }
    }
    sym::reach("end");
}

/// the coin betting update, written down independently; state per feature as exported
#[derive(Clone, Copy)]
struct Slot { xt: f32, zt: f32, g2: f32, mx: f32, we: f32, mg: f32 }
struct Coin { alpha: f32, beta: f32, lo: f32, hi: f32, norm: f32, weight: f32, avg: f32, s: Vec<Slot> }
impl Coin {
    fn bet(&self, s: &Slot, mx: f32) -> f32 { let d = s.mg * mx; if d > 0.0 { (self.alpha + s.we) / (d * (d + s.g2)) * s.zt } else { 0.0 } }
    /// present: the features listed in the example (a listed zero counts)
    fn learn(&mut self, x: &[f32], present: u32, y: f32, w: f32) {
        self.lo = if y < self.lo { y } else { self.lo };
        self.hi = if y > self.hi { y } else { self.hi };
        let (mut p, mut n) = (0.0, 0.0);
        for (j, (s, x)) in self.s.iter().zip(x).enumerate() {
            if present >> j & 1 == 0 { continue; }
            let mx = if x.abs() > s.mx { x.abs() } else { s.mx };
            p += self.bet(s, mx) * x;
            if mx > 0.0 { n += (x / mx) * (x / mx); }
        }
        self.norm += n * w;
        self.weight += w;
        self.avg = (self.norm + 1e-6) / self.weight;
        let p = p / self.avg;
        let p = if p < self.lo { self.lo } else if p > self.hi { self.hi } else { p };
        let u = 2.0 * (p - y) * w;
        for j in 0..x.len() {
            if present >> j & 1 == 0 { continue; }
            let x = x[j];
            let mut s = self.s[j];
            if x.abs() > s.mx { s.mx = x.abs(); }
            if u.abs() > s.mg { s.mg = if u.abs() > self.beta { u.abs() } else { self.beta }; }
            s.xt = self.bet(&s, s.mx);
            s.zt -= u * x;
            s.g2 += (u * x).abs();
            s.we -= u * x * s.xt;
            s.xt /= self.avg;
            self.s[j] = s;
        }
    }
    fn raw(&self, x: &[f32]) -> f32 { let mut p = 0.0; for (s, x) in self.s.iter().zip(x) { p += s.xt * x; } p }
}
/// Params: features, learned examples, what is symbolic (0 last label, 1 last value, 2 last weight, 3 alpha, 4 beta), range,
/// zeros (1: the first example lists only the first feature, with value 0, later ones only the others; 2: the first example is all zeros, 3: the first example has no weight, 4: the last has none)
#[no_mangle]
pub extern "C" fn coin_rule() {
    let (nf, steps, which, range) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2), sym::param(3) as usize);
    let (lo, hi) = [(1.0f32, 3.0f32), (-3.0, -1.0), (0.125, 0.5), (10.0, 100.0), (0.0, 0.0)][range];
    let alpha = if which == 3 { sym::f32_in("alpha", 1.0, 8.0) } else { 4.0 };
    let beta = if which == 4 { sym::f32_in("beta", lo, hi) } else { 1.0 };
    let mut ws = build(json!({"globalConfig":{"numBits":4,"constantFeatureEnabled":false},"entryReduction":{"typename":"Coin","config":{"alpha": alpha as f64,"beta": beta as f64}}})).unwrap();
    let z = Slot { xt: 0.0, zt: 0.0, g2: 0.0, mx: 0.0, we: 0.0, mg: 0.0 };
    let mut r = Coin { alpha, beta, lo: 0.0, hi: 0.0, norm: 0.0, weight: 0.0, avg: 0.0, s: vec![z; nf] };
    let idx = |j: usize| if j < 3 { [3u32, 9, 12][j] } else { [0u32, 1, 2, 4, 5, 6, 7, 8, 10, 11, 13, 14, 15][j - 3] };
    let zeros = sym::param(4);
    let mk = |x: &[f32], present: u32| { let mut f = SparseFeatures::new(); for (j, v) in x.iter().enumerate() { if present >> j & 1 == 1 { add(&mut f, ns(["a", "b"][j / 3 % 2]), idx(j), *v); } } f };
    let order = sym::choice("history", 2) as usize;
    for t in 0..steps {
        let last = t + 1 == steps;
        let c = t + order;
        let row = [[1.0f32, -0.75, 2.0], [0.5, 1.5, -1.0], [-2.0, 0.25, 1.0]];
        let mut x: Vec<f32> = (0..nf.max(3)).map(|j| row[(c + j / 3) % 3][j % 3]).collect();
        let present = if zeros == 1 { if t == 0 { 1 } else { 6 } } else { !0 };
        if last && which == 1 { x[if zeros == 1 { 1 } else { 0 }] = sym::f32_in("x", lo, hi); }
        if (zeros == 1 || zeros == 2) && t == 0 { x.fill(0.0); }
        let y = if last && which == 0 { sym::f32_in("y", lo, hi) } else { [1.5f32, -0.5, 2.25, 0.375][c % 4] };
        let w = if last && which == 2 { sym::f32_in("w", lo, hi) } else if zeros == 3 && t == 0 || zeros == 4 && last { 0.0 } else { [1.0f32, 2.0, 0.5][c % 3] };
        ws.learn(&mut mk(&x[..nf], present).into(), &SimpleLabel::new(y, w).into());
        r.learn(&x[..nf], present, y, w);
    }
    for t in 0..nf + 1 {
        let mut x = vec![0.0f32; nf];
        for j in 0..nf { x[j] = if t == nf { [1.0, 0.5, -2.0][j % 3] } else if t == j { 1.0 } else { 0.0 } }
        let p = scalar(&ws.predict(&mut mk(&x[..nf], !0).into()));
        sym::check(near(p.1, r.raw(&x[..nf]), 1e-4, 1e-5), "the weights are those of the coin betting rule");
    }
    sym::reach("end");
}
