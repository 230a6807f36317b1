//! Loss functions, links and metrics against their definitions.
use crate::fx::*;
use crate::sym;
use reductionml_core::loss_function::*;
use reductionml_core::metrics::{get_metric, MetricValue};

/// equal up to rounding
pub fn near(a: f32, b: f32, rel: f32, abs: f32) -> bool { sym::same(a, b) | ((a - b).abs() <= abs + rel * b.abs()) }
/// an integer as a float
fn int(n: &str, lo: f32, hi: f32) -> f32 { let x = sym::f32_in(n, lo, hi); sym::assume(x.trunc() == x); x }

/// Squared loss. Params: mode, range
#[no_mangle]
pub extern "C" fn loss_squared() {
    let f: LossFunction = SquaredLoss::default().into();
    let r = [1e6f32, 1e3, 1.0, 1e15][sym::param(1) as usize];
    let lo = sym::f32_in("min", -r, r);
    let hi = sym::f32_in("max", -r, r);
    sym::assume(lo <= hi);
    let y = sym::f32_in("label", -r, r);
    sym::assume(lo <= y);
    sym::assume(y <= hi);
    let p = sym::f32_in("prediction", -r, r);
    let c = if p < lo { lo } else if p > hi { hi } else { p };
    let l = f.get_loss(lo, hi, p, y);
    let d = f.first_derivative(lo, hi, p, y);
    match sym::param(0) {
        0 => {
            sym::check(l >= 0.0, "the loss is not negative");
            sym::check(l.is_finite(), "the loss is finite");
            sym::check(d.is_finite(), "the derivative is finite");
            sym::check(f.get_loss(lo, hi, y, y) == 0.0, "the loss of a perfect prediction is zero");
            sym::check(f.first_derivative(lo, hi, y, y) == 0.0, "the derivative at a perfect prediction is zero");
            sym::check(!(p >= y) | (d >= 0.0), "above the label the loss does not fall");
            sym::check(!(p <= y) | (d <= 0.0), "below the label the loss does not rise");
            let s = f.second_derivative(lo, hi, p, y);
            sym::check(s >= 0.0, "the second derivative is not negative");
            sym::check(f.get_square_grad(p, y) >= 0.0, "the squared gradient is not negative");
        }
        1 => {
            // the derivative is that of the loss: exactly twice the (clamped) error
            sym::check(near(d, 2.0 * (c - y), 1e-5, 0.0), "the derivative is twice the error");
            sym::check(near(f.get_unsafe_update(p, y, 0.5), y - p, 1e-5, 0.0), "the update is the scaled negative derivative");
            let inside = (lo <= p) & (p <= hi);
            sym::check(f.second_derivative(lo, hi, p, y) == if inside { 2.0 } else { 0.0 }, "the second derivative is that of the loss");
        }
        2 => {
            // inside the range the square of the error, outside its tangent
            let (e, f) = (c - y, y - c);
            let inside = (lo <= p) & (p <= hi);
            if inside { sym::check(near(l, (p - y) * (p - y), 1e-3, 1e-30), "the loss is the squared error"); sym::reach("end"); return; }
            sym::check(near(l, e * e + 2.0 * e * (p - c), 1e-3, 1e-30) | near(l, f * f + 2.0 * f * (c - p), 1e-3, 1e-30), "the loss is the squared error, continued linearly outside the label range");
        }
        _ => {
            sym::check(near(f.get_square_grad(p, y), 4.0 * (p - y) * (p - y), 1e-4, 1e-30), "the squared gradient is the square of the derivative");
            let s = sym::f32_in("scale", 0.01, 4.0);
            let u = f.get_update(p, y, s, 1.0);
            sym::check(!(p >= y) | (u <= 0.0), "an update moves towards the label (down)");
            sym::check(!(p <= y) | (u >= 0.0), "an update moves towards the label (up)");
        }
    }
    sym::reach("end");
}

/// Logistic loss on one interval of predictions, bracketed by reference values at its ends. Params: interval, label, loss labels
#[no_mangle]
pub extern "C" fn loss_logistic() {
    // 0.25 wide within [-8,8], 1 wide further out
    let k = sym::param(0) as i32;
    let (a, b) = if k < 64 { ((k - 32) as f32 * 0.25, (k - 31) as f32 * 0.25) } else if k < 106 { ((k - 64) as f32 + 8.0, (k - 63) as f32 + 8.0) } else { (-((k - 105) as f32) - 8.0, -((k - 106) as f32) - 8.0) };
    let (lo, hi) = [(-1.0f32, 1.0f32), (0.0, 1.0), (-1.0, 3.0)][sym::param(2) as usize];
    let f: LossFunction = LogisticLoss::new(lo, hi).into();
    let q = [0.0f32, 1.0, 0.5, 0.25][sym::param(1) as usize];
    let y = lo + q * (hi - lo);
    let p = sym::f32_in("prediction", a, b);
    let (l, d, s) = (f.get_loss(-50.0, 50.0, p, y), f.first_derivative(-50.0, 50.0, p, y), f.second_derivative(-50.0, 50.0, p, y));
    sym::check(l >= 0.0, "the loss is not negative");
    sym::check(l.is_finite() & d.is_finite() & s.is_finite(), "values are finite");
    sym::check(s >= 0.0, "the second derivative is not negative");
    if q == 1.0 { sym::check(d <= 0.0, "a positive label pulls up"); }
    if q == 0.0 { sym::check(d >= 0.0, "a negative label pulls down"); }
    let (a, b, q) = (a as f64, b as f64, q as f64);
    let sp = |x: f64| if x > 30.0 { x } else { x.exp().ln_1p() };
    let sg = |x: f64| 1.0 / (1.0 + (-x).exp());
    // each part is monotone in the prediction: q*softplus(-p) + (1-q)*softplus(p), q*(-sigmoid(-p)) + (1-q)*sigmoid(p)
    let within = |v: f32, x: f64, y: f64| { let (m, n) = (x.min(y), x.max(y)); (v as f64 >= m - 1e-5 - 1e-5 * m.abs()) & (v as f64 <= n + 1e-5 + 1e-5 * n.abs()) };
    sym::check(within(l, q * sp(-b) + (1.0 - q) * sp(a), q * sp(-a) + (1.0 - q) * sp(b)), "the loss is the logistic loss");
    sym::check(within(d, -q * sg(-a) + (1.0 - q) * sg(a), -q * sg(-b) + (1.0 - q) * sg(b)), "the derivative is that of the logistic loss");
    // the product of two monotone factors, bracketed factor by factor
    let (m, n) = (sg(a).min(sg(b)) * sg(-a).min(sg(-b)), sg(a).max(sg(b)) * sg(-a).max(sg(-b)));
    sym::check((s as f64 >= m - 1e-5) & (s as f64 <= n + 1e-5), "the second derivative is that of the logistic loss");
    let u = f.get_unsafe_update(p, y, 1.0);
    sym::check(within(u, q * sg(-a) - (1.0 - q) * sg(a), q * sg(-b) - (1.0 - q) * sg(b)), "the update is the scaled negative derivative");
    let u = f.get_unsafe_update(p, y, 0.25);
    sym::check(within(4.0 * u, q * sg(-a) - (1.0 - q) * sg(a), q * sg(-b) - (1.0 - q) * sg(b)), "the update is the scaled negative derivative");
    let (m, n) = (-q * sg(-a) + (1.0 - q) * sg(a), -q * sg(-b) + (1.0 - q) * sg(b));
    let (m, n) = (if (m <= 0.0) & (n >= 0.0) { 0.0 } else { (m * m).min(n * n) }, (m * m).max(n * n));
    let g = f.get_square_grad(p, y);
    sym::check((g >= 0.0) & (g as f64 >= m - 3e-5) & (g as f64 <= n + 3e-5), "the squared gradient is that of the logistic loss");
    sym::reach("end");
}

/// Metrics over a sequence of points. Params: metric (0 mse, 1 ips), points, range
#[no_mangle]
pub extern "C" fn metric_values() {
    let n = sym::param(1) as usize;
    let r = [100.0f32, 1e-3, 1e9][sym::param(2) as usize];
    let read = sym::choice("read", 2) == 1;
    let (mut m, mut k) = (get_metric(["mse", "ips"][sym::param(0) as usize]).unwrap(), get_metric(["mse", "ips"][sym::param(0) as usize]).unwrap());
    let f: Features = SparseFeatures::new().into();
    let mut sum = 0.0f32;
    for t in 0..n {
        if read && t > 0 { m.get_value(); }
        if sym::param(0) == 0 {
            let y = sym::f32_in(&nm("y", t), -r, r);
            let p = sym::f32_in(&nm("p", t), -r, r);
            // the raw prediction and the importance weight do not matter
            let (l, q): (Label, Prediction) = (SimpleLabel::new(y, [1.0, 3.0][t & 1]).into(), Prediction::Scalar(ScalarPrediction { prediction: p, raw_prediction: 1234.5 }));
            m.add_point(&f, &l, &q);
            k.add_point(&f, &l, &q);
            sum += (y - p) * (y - p);
        } else {
            let c = sym::f32_in(&nm("c", t), -r, r);
            let a = sym::choice(&nm("a", t), 2) as usize;
            let pl = [0.5f32, 0.125, 1.0][t % 3];
            let pr = [sym::f32_in(&nm("q", t), 0.0, 1.0), 0.75];
            // any order of the actions
            let probs = if sym::choice(&nm("o", t), 2) == 0 { vec![(0, pr[0]), (1, pr[1])] } else { vec![(1, pr[1]), (0, pr[0])] };
            let (l, q): (Label, Prediction) = (Label::CB(CBLabel::new(a, c, pl)), Prediction::ActionProbs(ActionProbsPrediction(probs)));
            m.add_point(&f, &l, &q);
            k.add_point(&f, &l, &q);
            sum += (-c) * (pr[a] / pl);
        }
    }
    let (v, w) = match (m.get_value(), k.get_value()) { (MetricValue::Float(a), MetricValue::Float(b)) => (a, b), _ => { sym::check(false, "the value is a number"); return } };
    sym::check(sym::same(v, w), "reading the value does not change it");
    let tol = if sym::param(0) == 0 { r * r } else { 8.0 * r } * 1e-4;
    sym::check(near(v, sum / n as f32, 1e-4, tol), "the metric is its definition");
    let again = match m.get_value() { MetricValue::Float(a) => a, _ => 0.0 };
    sym::check(sym::same(v, again), "reading twice gives the same value");
    sym::reach("end");
}
/// Counting metrics. Params: points
#[no_mangle]
pub extern "C" fn metric_counts() {
    let n = sym::param(0) as usize;
    let (mut m, mut e) = (get_metric("parsed_features").unwrap(), get_metric("example_number").unwrap());
    let mut feats = 0i32;
    let l: Label = SimpleLabel::new(1.0, 1.0).into();
    let p = Prediction::Scalar(ScalarPrediction { prediction: 0.0, raw_prediction: 0.0 });
    for t in 0..n {
        let mut part = |tag: &str, mx: u32| {
            let mut f = SparseFeatures::new();
            for (j, nsn) in ["a", " "].iter().enumerate() {
                let k = sym::choice(&format!("{tag}{t}{j}"), mx);
                for i in 0..k { add(&mut f, ns(nsn), i, 1.0); feats += 1; }
            }
            f
        };
        let mut f: Features = match sym::choice(&nm("kind", t), 3) {
            0 => part("s", 3).into(),
            1 => { let x = part("x", 2); let y = part("y", 3); CBAdfFeatures { shared: Some(x), actions: vec![y] }.into() }
            _ => { let x = part("x", 2); let y = part("y", 2); CBAdfFeatures { shared: None, actions: vec![x, y] }.into() }
        };
        // owned and borrowed examples count alike
        if sym::choice(&nm("ref", t), 2) == 1 {
            let g = match &mut f { Features::SparseSimple(x) => Features::SparseSimpleRef(x), Features::SparseCBAdf(x) => Features::SparseCBAdfRef(x), _ => unreachable!() };
            m.add_point(&g, &l, &p);
            e.add_point(&g, &l, &p);
        } else { m.add_point(&f, &l, &p); e.add_point(&f, &l, &p); }
        let v = match e.get_value() { MetricValue::Int(i) => i, _ => -1 };
        sym::check(v == t as i32, "the example number counts from zero");
        let c = match m.get_value() { MetricValue::Int(i) => i, _ => -1 };
        sym::check(c == feats, "every feature is counted once");
    }
    sym::reach("end");
}

/// Long sequences of points with small numbers, one of them unknown. Params: metric (0 mse, 1 ips, 2 counts), points
#[no_mangle]
pub extern "C" fn metric_long() {
    let (which, n) = (sym::param(0), sym::param(1) as usize);
    let at = [0, 1, n / 2, n - 1][sym::choice("at", 4) as usize];
    let v = sym::f32_in("v", -8.0, 8.0);
    let reads = sym::choice("reads", 2) == 1;
    if which == 2 {
        let (mut m, mut e) = (get_metric("parsed_features").unwrap(), get_metric("example_number").unwrap());
        let mut feats = 0;
        for t in 0..n {
            let k = if t == at { 40 } else { t % 4 };
            let mut f = SparseFeatures::new();
            for j in 0..k { add(&mut f, ns(["a", "b", " ", "c"][j % 4]), j as u32, v); }
            feats += k as i32;
            let f: Features = if t % 3 == 0 { feats += 3 * k as i32; CBAdfFeatures { shared: Some(f.clone()), actions: vec![f.clone(), f.clone(), f] }.into() } else { f.into() };
            let (l, p) = (SimpleLabel::new(1.0, 1.0).into(), Prediction::Scalar(ScalarPrediction { prediction: 0.0, raw_prediction: 0.0 }));
            m.add_point(&f, &l, &p);
            e.add_point(&f, &l, &p);
            if reads || t + 1 == n {
                sym::check(matches!(e.get_value(), MetricValue::Int(i) if i == t as i32), "the example number counts from zero");
                sym::check(matches!(m.get_value(), MetricValue::Int(i) if i == feats), "every feature is counted once");
            }
        }
    } else {
        let mut m = get_metric(["mse", "ips"][which as usize]).unwrap();
        let f: Features = SparseFeatures::new().into();
        let mut sum = 0.0f32;
        for t in 0..n {
            if reads && t > 0 && t % 10 == 0 { m.get_value(); }
            let y = if t == at { v } else { (t % 5) as f32 - 2.0 };
            if which == 0 {
                let p = (t % 3) as f32;
                m.add_point(&f, &SimpleLabel::new(y, 1.0).into(), &Prediction::Scalar(ScalarPrediction { prediction: p, raw_prediction: 99.0 }));
                sum += (y - p) * (y - p);
            } else {
                let k = 2 + t % 5;
                let probs: Vec<(usize, f32)> = (0..k).map(|i| ((i + t) % k, [0.25f32, 0.5, 0.125][((i + t) % k) % 3])).collect();
                let a = (t / 2) % k;
                m.add_point(&f, &Label::CB(CBLabel::new(a, y, 0.5)), &Prediction::ActionProbs(ActionProbsPrediction(probs)));
                sum += -y * ([0.25f32, 0.5, 0.125][a % 3] / 0.5);
            }
        }
        let w = match m.get_value() { MetricValue::Float(a) => a, _ => { sym::check(false, "the value is a number"); return } };
        sym::check(near(w, sum / n as f32, 1e-4, 1e-3), "the metric is its definition");
    }
    sym::reach("end");
}
