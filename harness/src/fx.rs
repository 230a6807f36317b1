//! Shared helpers: building features and workspaces, observing them through the public interface.
#![allow(dead_code, unused_imports)]
use crate::sym;
pub use reductionml_core::parsers::*;
pub use reductionml_core::sparse_namespaced_features::*;
pub use reductionml_core::types::*;
pub use reductionml_core::workspace::*;
pub use reductionml_core::*;

pub fn ns(name: &str) -> Namespace { Namespace::from_name(name, 0) }
pub fn workspace(json: &str) -> Workspace { Workspace::new(Configuration::from_json_str(json).unwrap()).unwrap() }
pub fn scalar(p: &Prediction) -> (f32, f32) { match p { Prediction::Scalar(s) => (s.prediction, s.raw_prediction), _ => panic!("scalar prediction expected") } }
pub fn scores(p: &Prediction) -> &Vec<(usize, f32)> {
    match p { Prediction::ActionScores(s) => &s.0, Prediction::ActionProbs(s) => &s.0, _ => panic!("action prediction expected") }
}
pub fn add(f: &mut SparseFeatures, n: Namespace, idx: u32, val: f32) { f.get_or_create_namespace(n).add_feature(FeatureIndex::from(idx), val) }
/// everything the public interface shows about one namespace; without features it counts as absent
pub fn view(f: &SparseFeatures, n: Namespace) -> Option<(Vec<u32>, Vec<f32>)> {
    f.get_namespace(n).filter(|x| x.size() > 0).map(|x| (x.indices().iter().map(|i| u32::from(*i)).collect(), x.values().to_vec()))
}
pub fn view_all(f: &SparseFeatures) -> Vec<(u32, f32)> { f.all_features().map(|(i, v)| (u32::from(i), v)).collect() }
/// observably equal: the same namespaces present, the same features in the same order, the same values
pub fn check_same(a: &SparseFeatures, b: &SparseFeatures, names: &[Namespace], msg: &str) {
    for n in names {
        let (x, y) = (view(a, *n), view(b, *n));
        match (x, y) {
            (None, None) => {}
            (Some((xi, xv)), Some((yi, yv))) => {
                sym::check(xi.len() == yi.len() && xv.len() == yv.len(), msg);
                for i in 0..xi.len() { sym::check(xi[i] == yi[i], msg); sym::check(sym::same(xv[i], yv[i]), msg); }
            }
            _ => sym::check(false, msg),
        }
    }
    let (x, y) = (view_all(a), view_all(b));
    sym::check(x.len() == y.len(), msg);
    for i in 0..x.len() { sym::check(x[i].0 == y[i].0, msg); sym::check(sym::same(x[i].1, y[i].1), msg); }
}
pub fn check_same_cb(a: &CBAdfFeatures, b: &CBAdfFeatures, names: &[Namespace], msg: &str) {
    match (&a.shared, &b.shared) { (None, None) => {} (Some(x), Some(y)) => check_same(x, y, names, msg), _ => sym::check(false, msg) }
    sym::check(a.actions.len() == b.actions.len(), msg);
    for (x, y) in a.actions.iter().zip(b.actions.iter()) { check_same(x, y, names, msg) }
}
pub fn same_pred(a: &Prediction, b: &Prediction, msg: &str) {
    match (a, b) {
        (Prediction::Scalar(x), Prediction::Scalar(y)) => { sym::check(sym::same(x.prediction, y.prediction), msg); sym::check(sym::same(x.raw_prediction, y.raw_prediction), msg); }
        (Prediction::Binary(x), Prediction::Binary(y)) => sym::check(x.0 == y.0, msg),
        (Prediction::ActionScores(_), Prediction::ActionScores(_)) | (Prediction::ActionProbs(_), Prediction::ActionProbs(_)) => {
            let (x, y) = (scores(a), scores(b));
            sym::check(x.len() == y.len(), msg);
            for i in 0..x.len() { sym::check(x[i].0 == y[i].0, msg); sym::check(sym::same(x[i].1, y[i].1), msg); }
        }
        _ => sym::check(false, msg),
    }
}
/// |x| <= tol without branching on NaN
pub fn close(a: f32, b: f32, tol: f32) -> bool { (a - b).abs() <= tol }
/// name with a number, e.g. "x3"
pub fn nm(p: &str, i: usize) -> String { let mut s = String::from(p); s.push((b'0' + (i / 10) as u8) as char); s.push((b'0' + (i % 10) as u8) as char); s }
