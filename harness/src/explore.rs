//! Exploration: the distributions computed from predicted costs.
use crate::fx::*;
use crate::sym;
use serde_json::{json, Value};

/// calls f on the object holding the weights of the (only) linear learner of an exported model
pub fn coin_state(v: &mut Value, f: &mut dyn FnMut(&mut serde_json::Map<String, Value>)) {
    match v {
        Value::Object(m) => {
            if m.contains_key("model_states") && m.contains_key("weights") { f(m); return; }
            for (_, x) in m.iter_mut() { coin_state(x, f) }
        }
        Value::Array(a) => for x in a { coin_state(x, f) },
        _ => {}
    }
}
fn num(x: f32) -> Value { Value::from(x as f64) }
/// a copy of `w` whose linear learner has the given current weights (feature index, weight)
pub fn with_weights(w: &Workspace, ws: &[(u32, f32)]) -> Workspace {
    let mut v = w.serialize_to_json().unwrap();
    set_weights(&mut v, ws);
    Workspace::deserialize_from_json(&v).unwrap()
}
pub fn set_weights(v: &mut Value, ws: &[(u32, f32)]) {
    let mut found = false;
    coin_state(v, &mut |m| {
        found = true;
        // the scores do not depend on the range of labels seen
        m["min_label"] = num(-1e32);
        m["max_label"] = num(1e32);
        let n = m["weights"]["feature_state_size"].as_u64().unwrap();
        let t = m["weights"]["weights"].as_object_mut().unwrap();
        for (i, x) in ws {
            let mut st = vec![num(0.0); n as usize];
            st[0] = num(*x);
            t.insert(i.to_string(), json!([st]));
        }
    });
    assert!(found);
}
/// one feature with value 1 per action, feature index = action number + 1
pub fn unit_actions(n: usize) -> Features<'static> {
    let mut actions = vec![];
    for i in 0..n { let mut f = SparseFeatures::new(); add(&mut f, ns("a"), i as u32 + 1, 1.0); actions.push(f); }
    CBAdfFeatures { shared: None, actions }.into()
}
fn base(entry: Value) -> Workspace {
    Workspace::new(json!({"globalConfig": {"numBits": 4, "constantFeatureEnabled": false}, "entryReduction": entry}).try_into().unwrap()).unwrap()
}
/// a learner whose predicted costs are the given ones
fn scored(entry: Value, s: &[f32]) -> Workspace {
    let l: Vec<(u32, f32)> = s.iter().enumerate().map(|(i, x)| (i as u32 + 1, *x)).collect();
    with_weights(&base(entry), &l)
}
/// costs (those in the bit mask `fixed` are constants) in a range: 0 [1,11], 1 [-11,-1], 2 [-10,10], 3 [-1e30,1e30], all without zero; 4 [-10,10]
fn costs(n: usize, range: u64, fixed: u64) -> Vec<f32> {
    let (lo, hi) = [(1.0, 11.0), (-11.0, -1.0), (-10.0, 10.0), (-1e30, 1e30), (-10.0, 10.0)][range as usize];
    (0..n).map(|i| if fixed >> i & 1 == 1 { [2.0, 3.5, 2.0, 0.0, 6.5, 3.5][(i + fixed as usize) % 6] } else { let x = sym::f32_in(&nm("s", i), lo, hi); if range != 4 { sym::assume(x != 0.0); } x }).collect()
}
/// one probability per action in action order, nonnegative, summing to one
fn distribution(p: &Prediction, n: usize) -> Vec<f32> {
    let ok = matches!(p, Prediction::ActionProbs(_));
    sym::check(ok, "exploration returns action probabilities");
    let s = scores(p);
    sym::check(s.len() == n, "one probability per action");
    let mut sum = 0.0;
    for (i, (a, x)) in s.iter().enumerate() {
        sym::check(*a == i, "actions are in order");
        sym::check(*x >= 0.0, "probabilities are nonnegative");
        sum += x;
    }
    sym::check(close(sum, 1.0, 1e-5), "probabilities sum to one");
    s.iter().map(|x| x.1).collect()
}
/// the first index of the smallest cost
fn best_of(s: &[f32]) -> usize { let mut b = 0; for i in 1..s.len() { if s[i] < s[b] { b = i } } b }

/// Params: actions, epsilon (percent, or 1000 for any value in [0,1]), range of costs, which costs are fixed
#[no_mangle]
pub extern "C" fn greedy() {
    let n = sym::param(0) as usize;
    let s = costs(n, sym::param(2), sym::param(3));
    let eps = if sym::param(1) == 1000 { sym::f32_in("eps", 0.0, 1.0) } else { sym::param(1) as f32 / 100.0 };
    let w = scored(json!({"typename": "CbExploreAdfGreedy", "config": {"epsilon": num(eps)}}), &s);
    let p = distribution(&w.predict(&mut unit_actions(n)), n);
    let b = best_of(&s);
    let each = eps / n as f32;
    for i in 0..n {
        let want = if i == b { 1.0 - eps + each } else { each };
        sym::check(close(p[i], want, 1e-6), "epsilon is spread evenly and the rest goes to the cheapest action");
    }
    sym::reach("end");
}
/// Params: actions, lambda (hundredths), uniform epsilon (percent), range of costs, which costs are fixed
#[no_mangle]
pub extern "C" fn softmax() {
    let n = sym::param(0) as usize;
    let s = costs(n, sym::param(3), sym::param(4));
    let lam = sym::param(1) as f32 / 100.0;
    let ue = sym::param(2) as f32 / 100.0;
    let w = scored(json!({"typename": "CbExploreAdfSoftmax", "config": {"lambda": num(lam), "uniformEpsilon": num(ue)}}), &s);
    let p = distribution(&w.predict(&mut unit_actions(n)), n);
    let best = s[best_of(&s)];
    if ue > 0.0 {
        for i in 0..n { for j in 0..n { if i != j { sym::check(!(s[i] <= s[j]) | (p[i] >= p[j] - 1e-6), "an action that is not more expensive is not less likely"); } } }
    }
    if ue == 0.0 {
        let e: Vec<f32> = s.iter().map(|x| (-lam * (x - best)).exp()).collect();
        let mut t = 0.0;
        for x in &e { t += x; }
        for i in 0..n { sym::check(close(p[i], e[i] / t, 1e-5), "probabilities are proportional to exp(-lambda cost)"); }
    } else {
        let floor = ue / n as f32;
        for i in 0..n { sym::check((p[i] >= floor - 1e-6) | ((p[i] == 0.0) & (s[i] > best + 80.0 / (lam + 1e-6))), "the uniform mixture keeps its floor"); }
    }
    sym::reach("end");
}
/// Params: actions, examples learned, gamma scale (hundredths), gamma exponent (hundredths), uniform epsilon (percent), range of costs, which costs are fixed
#[no_mangle]
pub extern "C" fn squarecb() {
    let n = sym::param(0) as usize;
    let t = sym::param(1);
    let (scale, expo, ue) = (sym::param(2) as f32 / 100.0, sym::param(3) as f32 / 100.0, sym::param(4) as f32 / 100.0);
    let s = costs(n, sym::param(5), sym::param(6));
    let mut w = base(json!({"typename": "CbExploreAdfSquareCb", "config": {"gammaScale": num(scale), "gammaExponent": num(expo), "uniformEpsilon": num(ue)}}));
    for k in 0..t { w.learn(&mut unit_actions(2), &Label::CB(CBLabel::new((k & 1) as usize, 1.0, 0.5))); }
    let w = with_weights(&w, &s.iter().enumerate().map(|(i, x)| (i as u32 + 1, *x)).collect::<Vec<_>>());
    let p = distribution(&w.predict(&mut unit_actions(n)), n);
    let best = s[best_of(&s)];
    let gamma = scale * (t as f32).powf(expo);
    if ue == 0.0 {
        let mut fewer = 0;
        let mut rest = 1.0;
        let b = best_of(&s);
        for i in 0..n { if i != b { rest -= 1.0 / (n as f32 + gamma * (s[i] - best)); } }
        for i in 0..n {
            let want = 1.0 / (n as f32 + gamma * (s[i] - best));
            if s[i] > best { sym::check(close(p[i], want, 1e-5), "a worse action gets 1/(n + gamma gap)"); }
            else { sym::check(close(p[i], want, 1e-5) | close(p[i], rest, 1e-5), "a best action gets 1/n or the remaining mass"); fewer += 1; }
        }
        let _ = fewer;
    } else {
        let floor = ue / n as f32;
        for i in 0..n { sym::check(p[i] >= floor - 1e-6, "the uniform mixture keeps its floor"); }
    }
    for i in 0..n { for j in 0..n { if i != j { sym::check(!(s[i] < s[j]) | (p[i] >= p[j] - 1e-5), "a cheaper action is not less likely"); } } }
    sym::reach("end");
}
/// Params: elements, consider zero-valued elements, epsilon (thousandths, or 5000 for any value in [0,1]), which elements are zero (bit mask), order of the others (0 any, else octal digits, last first: positions from 1 in descending order of probability)
#[no_mangle]
pub extern "C" fn min_prob() {
    let n = sym::param(0) as usize;
    let zeros = sym::param(1) == 1;
    let eps = if sym::param(2) == 5000 { sym::f32_in("eps", 0.0, 1.0) } else { sym::param(2) as f32 / 1000.0 };
    let mut p = vec![];
    let mut sum = 0.0;
    let mut k = 0;
    for i in 0..n {
        let z = sym::param(3) >> i & 1 == 1;
        let x = if z { 0.0 } else { sym::f32_in(&nm("p", i), 1e-6, 1.0) };
        if zeros | !z { k += 1 }
        sum += x;
        p.push((10 * i + 3, x));
    }
    let mut ord = sym::param(4) as usize;
    let mut last = None;
    while ord > 0 {
        let i = ord % 8 - 1;
        if let Some(l) = last { let l: usize = l; sym::assume(p[l].1 >= p[i].1); }
        last = Some(i);
        ord /= 8;
    }
    sym::assume(sum >= 0.999999);
    sym::assume(sum <= 1.000001);
    min_prob_holds(p, zeros, eps, k);
    sym::reach("end");
}
fn min_prob_holds(mut p: Vec<(usize, f32)>, zeros: bool, eps: f32, k: usize) {
    let n = p.len();
    let before = p.clone();
    let r = explore::enforce_min_prob(eps, zeros, &mut p);
    sym::check(r.is_ok(), "a valid epsilon is accepted");
    sym::check(p.len() == n, "the number of elements is unchanged");
    let floor = eps / k as f32;
    let mut total = 0.0;
    let mut satisfied = true;
    for i in 0..n { satisfied &= (before[i].1 >= floor) | ((before[i].1 == 0.0) & !zeros); }
    for i in 0..n {
        let (a, x) = p[i];
        sym::check(a == before[i].0, "the order is unchanged");
        let eligible = zeros | (before[i].1 > 0.0);
        if eligible { sym::check(x >= floor - 1e-6, "every eligible action has at least epsilon/n"); }
        else { sym::check(x == 0.0, "an action outside the support stays there"); }
        sym::check(x >= 0.0, "nonnegative");
        total += x;
    }
    sym::check(close(total, 1.0, 1e-5), "probabilities sum to one");
    if eps < 0.999 {
        for i in 0..n { sym::check(!satisfied | close(p[i].1, before[i].1, 1e-5), "a distribution above the floor is unchanged"); }
        for i in 0..n { for j in 0..n { if i < j { sym::check(!((before[i].1 >= before[j].1) & (zeros | (before[j].1 > 0.0))) | (p[i].1 >= p[j].1 - 1e-6), "the order of probabilities is kept"); } } }
    }
    if eps > 0.9995 { for i in 0..n { sym::check(close(p[i].1, floor, 1.1e-3 / k as f32) | (p[i].1 == 0.0), "epsilon one gives the uniform distribution"); } }
}
/// Half of the mass fixed in steps of 1/128, the other half split between two elements in an unknown way.
/// Params: elements, consider zero-valued elements, epsilon (thousandths), places of the two (n*first+second)
#[no_mangle]
pub extern "C" fn min_prob_wide() {
    let (n, zeros, eps) = (sym::param(0) as usize, sym::param(1) == 1, sym::param(2) as f32 / 1000.0);
    let (a, b) = (sym::param(3) as usize / n, sym::param(3) as usize % n);
    let mut left = 64u32;
    let x = sym::f32_in("x", 1e-6, 0.499999);
    let mut last = 0;
    let mut p: Vec<(usize, f32)> = (0..n).map(|i| {
        if i == a { return (2 * i + 1, x) }
        if i == b { return (2 * i + 1, 0.5 - x) }
        let w = [16u32, 0, 8, 4, 1, 0, 10, 2][i % 8].min(left);
        left -= w;
        last = i;
        (2 * i + 1, w as f32 / 128.0)
    }).collect();
    p[last].1 += left as f32 / 128.0;
    let k = if zeros { n } else { (0..n).filter(|i| *i == a || *i == b || p[*i].1 > 0.0).count() };
    min_prob_holds(p, zeros, eps, k);
    sym::reach("end");
}
/// epsilon outside [0,1] and empty input are refused without touching anything
#[no_mangle]
pub extern "C" fn min_prob_refuse() {
    let eps = [-0.5f32, -1e-30, 1.0000001, 7.0, f32::INFINITY][sym::choice("e", 5) as usize];
    let mut p = vec![(0usize, sym::f32_in("p", 0.0, 1.0)), (1, 0.5)];
    let q = p.clone();
    sym::check(explore::enforce_min_prob(eps, sym::choice("z", 2) == 1, &mut p).is_err(), "an epsilon outside [0,1] is refused");
    for i in 0..2 { sym::check(p[i].0 == q[i].0 && sym::same(p[i].1, q[i].1), "a refused call changes nothing"); }
    sym::check(explore::enforce_min_prob(0.5, true, &mut []).is_err(), "an empty list is refused");
    sym::reach("end");
}
