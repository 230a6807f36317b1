//! Whole reduction stacks driven through the Workspace interface.
use crate::fx::*;
use crate::sym;

/// (configuration, kind): kind 0 scalar label, 1 binary label, 2 contextual bandit
pub fn stack(k: u64) -> (&'static str, u32) {
    match k {
        0 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Coin"}}"#, 0),
        1 => (r#"{"globalConfig":{"numBits":4,"constantFeatureEnabled":false},"entryReduction":{"typename":"Coin","config":{"alpha":2.0,"beta":0.5}}}"#, 0),
        2 => (r#"{"globalConfig":{"numBits":5,"interactions":[[{"Name":"a"},{"Name":"b"}],[{"Name":"a"},{"Name":"a"}],[{"Name":"a"},{"Name":"b"},{"Name":"b"}]]},"entryReduction":{"typename":"Coin"}}"#, 0),
        3 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Binary"}}"#, 1),
        4 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"ElementwiseInteraction","config":{"one":{"Name":"a"},"two":{"Name":"b"},"keepOriginalFeatures":true}}}"#, 0),
        5 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"ElementwiseInteraction","config":{"one":{"Name":"a"},"two":{"Name":"b"},"keepOriginalFeatures":false}}}"#, 0),
        6 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Debug","config":{"id":"d","next":{"typename":"Coin"}}}}"#, 0),
        7 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbAdf"}}"#, 2),
        8 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbAdf","config":{"cbType":"ips"}}}"#, 2),
        9 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbExploreAdfGreedy","config":{"epsilon":0.2}}}"#, 2),
        10 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbExploreAdfSoftmax","config":{"lambda":2.0}}}"#, 2),
        11 => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"CbExploreAdfSquareCb"}}"#, 2),
        12 => (r#"{"globalConfig":{"numBits":4,"interactions":[[{"Name":"a"},{"Name":"b"}]]},"entryReduction":{"typename":"CbExploreAdfGreedy","config":{"cbAdf":{"typename":"CbAdf","config":{"cbType":"ips","regressor":{"typename":"ElementwiseInteraction","config":{"one":{"Name":"a"},"two":{"Name":"b"},"regressor":{"typename":"Debug","config":{"id":"x","next":{"typename":"Coin"}}}}}}}}}}"#, 2),
        _ => (r#"{"globalConfig":{"numBits":4},"entryReduction":{"typename":"Debug","config":{"id":"t","next":{"typename":"CbExploreAdfGreedy","config":{"epsilon":0.5,"cbAdf":{"typename":"Debug","config":{"id":"m","next":{"typename":"CbAdf"}}}}}}}}"#, 2),
    }
}
/// label of the right kind with symbolic contents
pub fn label(kind: u32, tag: &str, nact: u32) -> Label {
    match kind {
        0 => Label::Simple(SimpleLabel::new(sym::f32_in(&format!("{tag}y"), -100.0, 100.0), 1.0)),
        1 => Label::Binary(BinaryLabel(sym::choice(&format!("{tag}b"), 2) == 1)),
        _ => Label::CB(CBLabel::new(sym::choice(&format!("{tag}act"), nact) as usize, sym::f32_in(&format!("{tag}cost"), -100.0, 100.0), 0.5)),
    }
}
/// state of a namespace: 0 absent, 1 present without features, 2 one feature, 3 two features
fn put(f: &mut SparseFeatures, n: &str, st: u32, tag: &str) {
    if st == 0 { return; }
    let n = ns(n);
    f.get_or_create_namespace(n);
    for j in 0..st as usize - 1 {
        let c = [2.0f32, -0.75][j];
        add(f, n, [3u32, 9][j], if sym::param(3) == 1 { sym::f32_in(&nm(tag, j), -8.0, 8.0) } else { c });
    }
}
#[no_mangle]
pub extern "C" fn restored() {
    let (cfg, kind) = stack(sym::param(0));
    let op = sym::param(1);
    let recycled = sym::param(2) == 1;
    let mut ws = workspace(cfg);
    let names: Vec<Namespace> = ["a", "b", " "].iter().map(|n| ns(n)).collect();
    let fresh = || -> SparseFeatures {
        let mut f = SparseFeatures::new();
        if recycled { for n in &names { add(&mut f, *n, 1, 1.0); } f.clear(); }
        f
    };
    let mut f: Features = if kind < 2 {
        let mut x = fresh();
        put(&mut x, "a", sym::choice("sa", 4), "va");
        put(&mut x, "b", sym::choice("sb", 4), "vb");
        put(&mut x, " ", sym::choice("sd", 2), "vd");
        x.into()
    } else {
        let shared = match sym::choice("shared", 4) {
            0 => None,
            1 => Some(fresh()),
            2 => { let mut s = fresh(); put(&mut s, "a", 3, "ua"); Some(s) }
            _ => { let mut s = fresh(); put(&mut s, "a", 1, "ua"); put(&mut s, "b", 2, "ub"); Some(s) }
        };
        let mut x = fresh();
        put(&mut x, "a", sym::choice("sa", 3), "va");
        put(&mut x, "b", sym::choice("sb", 3), "vb");
        let mut y = fresh();
        put(&mut y, " ", 2, "w");
        CBAdfFeatures { shared, actions: vec![x, y] }.into()
    };
    let before = f.clone();
    let ips = cfg.contains("ips");
    let l = if ips { Label::CB(CBLabel::new(sym::choice("act", 2) as usize, 1.5, 0.5)) } else { label(kind, "l", 2) };
    match op {
        0 => { ws.predict(&mut f); }
        1 => ws.learn(&mut f, &l),
        _ => { ws.predict_then_learn(&mut f, &l); }
    }
    match (&f, &before) {
        (Features::SparseSimple(a), Features::SparseSimple(b)) => check_same(a, b, &names, "features are restored"),
        (Features::SparseCBAdf(a), Features::SparseCBAdf(b)) => check_same_cb(a, b, &names, "features are restored"),
        _ => sym::check(false, "features keep their kind"),
    }
    sym::reach("end");
}
