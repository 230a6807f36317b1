//! P19: recycled feature objects behave like new ones. P26: extracted feature names hash to the parsed features.
use crate::fx::*;
use crate::parse::*;
use crate::sym;
use reductionml_core::inverse_hash_table::{Feature, InverseHashTable};
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::utils::AsInner;
use std::sync::Arc;

const SPACES: [&str; 7] = ["a", "b", "c", " ", "list", "obj", "arr"];
fn names(seed: u32) -> Vec<Namespace> { SPACES.iter().map(|n| Namespace::from_name(n, seed)).collect() }
/// nothing in the public interface of the two objects tells them apart
fn check_twins(a: &SparseFeatures, b: &SparseFeatures, ns: &[Namespace]) {
    let m = "a recycled object looks like a new one";
    check_same(a, b, ns, m);
    for n in ns { sym::check(a.get_namespace(*n).is_some() == b.get_namespace(*n).is_some(), "a recycled object has the namespaces a new one has"); }
    sym::check(a.empty() == b.empty(), "a recycled object is empty when a new one is");
    let f = |x: &SparseFeatures| x.namespaces().map(|(n, it)| (n, it.map(|(i, v)| (u32::from(i), v)).collect::<Vec<_>>())).collect::<Vec<_>>();
    let (x, y) = (f(a), f(b));
    sym::check(x.len() == y.len(), "iterating over the namespaces of a recycled object gives those of a new one");
    for ((n, p), (k, q)) in x.iter().zip(y.iter()) {
        sym::check(n == k && p.len() == q.len(), "iterating over the namespaces of a recycled object gives those of a new one");
        for i in 0..p.len() { sym::check(p[i].0 == q[i].0, m); sym::check(sym::same(p[i].1, q[i].1), m) }
    }
    sym::check(a == b, "a recycled object equals a new one");
    sym::check(b == a, "a new object equals a recycled one");
}
fn sparse<'a>(f: &'a Features) -> &'a SparseFeatures { f.as_inner().unwrap() }
fn cb<'a>(f: &'a Features) -> &'a CBAdfFeatures { f.as_inner().unwrap() }

fn vw_doc(t: &mut Txt, k: u32, form: u32) {
    match k {
        0 => { t.s("1 |a x y:"); t.num(form); t.s(" z |b u") }
        1 => { t.s("1 |a "); t.s("x |c :"); t.num(form); t.s(" :2 :3 :4 :5") }
        2 => { t.s("1 | x:"); t.num(form); }
        3 => t.s("1 "),
        _ => { t.s("1 |a p q r s t u |b u:"); t.num(form); }
    }
}
fn json_doc(t: &mut Txt, k: u32, form: u32) {
    match k {
        0 => { t.s("{\"a\": {\"x\": "); t.num(form); t.s(", \"y\": \"red\"}, \"b\": {\"u\": true}}") }
        1 => { t.s("{\"a\": [\"p\", \"q\", \"r\", \"s\", \"t\", \"u\"], \"c\": ["); t.num(form); t.s("]}") }
        2 => { t.s("{\"a\": [\"x\"], \"b\": ["); t.num(form); t.s(", 2, 3, 4, 5]}") }
        3 => t.s("{}"),
        _ => { t.s("{\"a\": {\"no\": false}, \" \": {\"x\": "); t.num(form); t.s("}}") }
    }
}
fn ds_doc(t: &mut Txt, k: u32, form: u32) {
    match k {
        0 => { t.s("\"x\": "); t.num(form); t.s(", \"list\": [1, 2, 3, 4, 5],") }
        1 => { t.s("\"list\": ["); t.num(form); t.s(", null], \"obj\": {\"s\": \"red\"},") }
        2 => t.s("\"arr\": [{\"w\": true}, {\"v\": 3}], \"empty\": {},"),
        _ => {}
    }
}
/// params: parser (0 vw, 1 vw cb, 2 json, 3 json cb, 4 dsjson), form of numbers, examples parsed before
#[no_mangle]
#[inline(never)]
pub fn recycled() {
    let (which, form) = (sym::param(0), sym::param(1) as u32);
    let (ft, lt) = if which == 0 || which == 2 { (FeaturesType::SparseSimple, LabelType::Simple) } else { (FeaturesType::SparseCBAdf, LabelType::CB) };
    let (used, new) = (Arc::new(Pool::new()), Arc::new(Pool::new()));
    let mk = |pool: &Arc<Pool<SparseFeatures>>| -> Box<dyn TextModeParser> { match which {
        0 | 1 => Box::new(VwTextParserFactory::default().create(ft, lt, 0, 18, pool.clone())),
        2 | 3 => Box::new(JsonParserFactory::default().create(ft, lt, 0, 18, pool.clone())),
        _ => Box::new(DsJsonParserFactory::default().create(ft, lt, 0, 18, pool.clone())),
    } };
    let kinds = if which == 4 { 4 } else { 5 };
    let doc = |tag: &str| -> String {
        let mut t = Txt::new(which >= 2);
        let k = sym::choice(&[tag, "example"].concat(), kinds);
        let many = sym::choice(&[tag, "actions"].concat(), if which == 0 || which == 2 { 1 } else { 2 }) + 1;
        match which {
            0 => vw_doc(&mut t, k, form),
            1 => {
                if k > 0 { t.s("shared |a x |b y\n") }
                for j in 0..many { t.s(if j == 0 { "0:1:0.5 |a x" } else { "\n|c z |a w" }); if k == 1 { t.s(" :"); t.num(form); } if k == 2 { t.s(" |b q:"); t.num(form); } }
            }
            2 => { t.s("{\"features\": "); json_doc(&mut t, k, form); t.s("}") }
            3 => { t.s("{\"shared\": "); json_doc(&mut t, k, form); t.s(", \"actions\": ["); for j in 0..many { if j > 0 { t.s(",") } json_doc(&mut t, (k + 1 + j) % 5, 6) } t.s("]}") }
            _ => { t.s("{\"c\": {"); ds_doc(&mut t, k, form); t.s("\"_multi\": ["); for j in 0..many { if j > 0 { t.s(",") } t.s("{"); ds_doc(&mut t, (k + j) % 4, 6); t.s("\"id\": \"i\"}") } t.s("]}}") }
        }
        t.text()
    };
    let p = mk(&used);
    for h in 0..sym::param(2) {
        let before = doc(["first ", "second "][h as usize]);
        let (f, _) = p.parse_chunk(&before).unwrap();
        f.clear_and_return_object(&used);
    }
    let text = doc("then ");
    let (a, _) = p.parse_chunk(&text).unwrap();
    let (b, _) = mk(&new).parse_chunk(&text).unwrap();
    let ns = names(0);
    if which == 0 || which == 2 { check_twins(sparse(&a), sparse(&b), &ns) } else {
        let (x, y) = (cb(&a), cb(&b));
        sym::check(x.shared.is_some() == y.shared.is_some() && x.actions.len() == y.actions.len(), "a recycled object looks like a new one");
        if let (Some(s), Some(t)) = (&x.shared, &y.shared) { check_twins(s, t, &ns) }
        for (s, t) in x.actions.iter().zip(y.actions.iter()) { check_twins(s, t, &ns) }
    }
    sym::reach("compared");
    sym::reach("end");
}
/// objects built and used through the public interface, returned, handed out again
/// params: operations on the first life, operations on the second, predict with a model afterwards
#[no_mangle]
#[inline(never)]
pub fn second_life() {
    let (n1, n2) = (sym::param(0), sym::param(1));
    let pool: Pool<SparseFeatures> = Pool::new();
    let ns = [ns("a"), ns("b"), Namespace::Default];
    let mut other = SparseFeatures::new();
    add(&mut other, ns[0], 3, sym::f32_in("other", 0.5, 4.0));
    add(&mut other, ns[2], 4, 1.0);
    let life = |f: &mut SparseFeatures, ops: &[(u32, u32, f32)]| {
        for (op, w, v) in ops {
            let n = ns[*w as usize];
            match op {
                0 => add(f, n, 1 + 2 * *w, *v),
                1 => { f.get_or_create_namespace(n); }
                2 => { f.append(&other); f.remove(&other) }
                3 => { f.get_or_create_namespace_with_capacity(n, 9).add_features(&[FeatureIndex::from(5), FeatureIndex::from(2)], &[*v, 1.0]) }
                4 => f.get_or_create_namespace(n).add_features_with_iter((7..9).map(FeatureIndex::from), [2.0, *v].into_iter()),
                5 => { f.remove_namespace(n); }
                _ => { f.get_or_create_namespace(n).reserve(2); f.append(&other) }
            }
        }
    };
    let draw = |tag: &str, n: u64| -> Vec<(u32, u32, f32)> { (0..n as usize).map(|i| (sym::choice(&nm(&[tag, " op"].concat(), i), 7), sym::choice(&nm(&[tag, " namespace"].concat(), i), if n > 1 { 2 } else { 3 }), sym::f32_in(&nm(&[tag, " value"].concat(), i), 0.5, 4.0))).collect() };
    let (o1, o2) = (draw("before", n1), draw("after", n2));
    let mut a = pool.get_object();
    sym::check(a.empty() && a.all_features().count() == 0, "an object from an empty pool is empty");
    life(&mut a, &o1);
    a.clear_and_return_object(&pool);
    let mut a = pool.get_object();
    sym::check(a.empty() && a.all_features().count() == 0 && a.namespaces().count() == 0, "an object handed out by the pool is empty");
    let mut b = SparseFeatures::new();
    life(&mut a, &o2);
    life(&mut b, &o2);
    check_twins(&a, &b, &ns);
    if sym::param(2) == 1 {
        let mut w = workspace(r#"{"globalConfig":{"numBits":4,"interactions":[[{"Name":"a"},{"Name":"b"}],[{"Name":"a"},{"Name":"a"}]]},"entryReduction":{"typename":"Coin","config":{}}}"#);
        let mut l = SparseFeatures::new();
        for (i, n) in ns.iter().enumerate() { add(&mut l, *n, 1 + 2 * i as u32, 1.0) }
        w.learn(&mut (&mut l).into(), &SimpleLabel::new(1.0, 1.0).into());
        let p = w.predict(&mut (&mut a).into());
        let q = w.predict(&mut (&mut b).into());
        same_pred(&p, &q, "a recycled object gets the prediction of a new one");
        check_twins(&a, &b, &ns);
    }
    sym::reach("end");
}

// ---------------------------------------------------------------- P26
fn hashed(seed: u32, bits: u8, got: &std::collections::HashMap<ParsedNamespaceInfo, Vec<ParsedFeature>>, deflt: &str) -> Vec<u32> {
    let mut out = vec![];
    for (info, feats) in got {
        let name = match info { ParsedNamespaceInfo::Named(n) => n, ParsedNamespaceInfo::Default => deflt };
        for f in feats {
            let x = Feature::from_parsed_feature(f, name);
            let i = x.hash(seed).mask(FeatureMask::from_num_bits(bits));
            out.push(u32::from(i));
        }
    }
    out.sort();
    out
}
/// params: segments, features per segment, kinds of heads, kinds of features, seed, bits
#[no_mangle]
#[inline(never)]
pub fn names_line() {
    let (seed, bits) = (sym::param(4) as u32, sym::param(5) as u8);
    let p = VwTextParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, seed, bits, Arc::new(Pool::new()));
    let (mut t, mut e) = (Txt::new(false), Exp::new(seed, bits));
    let segs = sym::param(0);
    let rich = segs * sym::param(1) == 1;
    t.s(["", "1 ", "'tag ", "1 0.5 'tag ", "-1.5\ttag"][sym::choice("label", if rich { 5 } else { 2 }) as usize]);
    let gap = [" ", "\t", "  ", "\t "][sym::choice("gap", if rich { 4 } else if segs * sym::param(1) == 2 { 2 } else { 1 }) as usize];
    for i in 0..segs {
        t.s("|");
        vw_segment(&mut t, &mut e, sym::param(1), sym::param(2) as u32, sym::param(3) as u32, &[6, 6], gap);
        if i + 1 < segs { t.s(gap) }
    }
    if rich { t.s(["", "\n", " \r\n"][sym::choice("line end", 3) as usize]) }
    let text = t.text();
    let got = p.extract_feature_names(&text).unwrap();
    let deflt = [" ", ":default"][sym::choice("default name", 2) as usize];
    let g = hashed(seed, bits, &got, deflt);
    let (f, _) = p.parse_chunk(&text).unwrap();
    let mut w: Vec<u32> = view_all(sparse(&f)).iter().map(|x| x.0).collect();
    w.sort();
    sym::check(g.len() == w.len(), "as many names are extracted as features parsed");
    for i in 0..g.len() { sym::check(g[i] == w[i], "the extracted names hash to the parsed features") }
    let mut x: Vec<u32> = e.ns.iter().flat_map(|n| n.1.iter().map(|y| y.0)).collect();
    x.sort();
    sym::check(g == x, "the extracted names hash to the written features");
    sym::reach("end");
}
/// params: actions, features per line, seed, bits, kinds of heads
#[no_mangle]
#[inline(never)]
pub fn names_cb() {
    let (seed, bits) = (sym::param(2) as u32, sym::param(3) as u8);
    let p = VwTextParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, seed, bits, Arc::new(Pool::new()));
    let (mut t, mut e) = (Txt::new(false), Exp::new(seed, bits));
    if sym::choice("shared", 2) == 1 { t.s("shared |"); vw_segment(&mut t, &mut e, 1, 2, 3, &[6, 6], " "); t.s("\n") }
    let n = sym::param(0);
    for a in 0..n {
        if a == 1 { t.s("1:2:0.5 ") }
        t.s("|");
        vw_segment(&mut t, &mut e, sym::param(1), sym::param(4) as u32, 3, &[9, 9], "\t");
        if a + 1 < n { t.s("\n") }
    }
    let text = t.text();
    let got = p.extract_feature_names(&text).unwrap();
    let g = hashed(seed, bits, &got, " ");
    let mut x: Vec<u32> = e.ns.iter().flat_map(|n| n.1.iter().map(|y| y.0)).collect();
    x.sort();
    sym::check(g == x, "the extracted names hash to the written features");
    sym::reach("end");
}
/// an interacted feature's name hashes to the index the interaction gets; positions wrap
/// params: terms (2 or 3), bits
#[no_mangle]
#[inline(never)]
pub fn names_interacted() {
    let (k, bits) = (sym::param(0) as usize, sym::param(1) as u8);
    let seed = sym::param(2) as u32;
    let space = ["a", " ", ":default", "b"];
    let mask = FeatureMask::from_num_bits(bits);
    let mut terms = vec![];
    let mut f = SparseFeatures::new();
    let mut used = vec![];
    for i in 0..k {
        let n = space[sym::choice(&nm("namespace", i), 4) as usize];
        let o = sym::u32(&nm("offset", i));
        let t = Feature::Anonymous { namespace: n.to_string(), offset: o };
        let want = nsh(n, seed).wrapping_add(o);
        sym::check(u32::from(t.hash(seed).mask(mask)) == want & ((1u64 << bits) - 1) as u32, "a position in a namespace hashes to the namespace's hash plus the position");
        let pf = ParsedFeature::Anonymous { offset: o };
        sym::check(u32::from(pf.hash(NamespaceHash::from(nsh(n, seed))).mask(mask)) == want & ((1u64 << bits) - 1) as u32, "a position in a namespace is the namespace's hash plus the position");
        let own = Namespace::from_name(["p", "q", "r"][i], seed);
        f.get_or_create_namespace(own).add_feature(FeatureHash::from(want).mask(mask), 1.0);
        used.push(own);
        terms.push(t);
    }
    let whole = Feature::Interacted { terms };
    let i = u32::from(whole.hash(seed).mask(mask));
    let got: Vec<(FeatureIndex, f32)> = if k == 2 { f.quadratic_features(used[0], used[1], bits).unwrap().collect() } else { f.cubic_features(used[0], used[1], used[2], bits).unwrap().collect() };
    sym::check(got.len() == 1, "one combination");
    sym::check(u32::from(got[0].0) == i, "the name of an interacted feature hashes to the interaction's index");
    sym::reach("end");
}
/// the table gives back exactly what was put under an index
#[no_mangle]
#[inline(never)]
pub fn names_table() {
    let mut t = InverseHashTable::new();
    let mut put = vec![];
    for i in 0..sym::param(0) as usize {
        let idx = sym::choice(&nm("index", i), 2);
        let f = match sym::choice(&nm("kind", i), 4) {
            0 => Feature::Simple { namespace: "a".to_string(), name: "x".to_string() },
            1 => Feature::Simple { namespace: "b".to_string(), name: "x".to_string() },
            2 => Feature::SimpleWithStringValue { namespace: "a".to_string(), name: "x".to_string(), value: "y".to_string() },
            _ => Feature::Anonymous { namespace: "a".to_string(), offset: 1 },
        };
        t.insert(FeatureIndex::from(idx), f.clone());
        put.push((idx, f));
    }
    for idx in 0..3 {
        let mut want: Vec<Feature> = put.iter().filter(|x| x.0 == idx).map(|x| x.1.clone()).collect();
        want.sort();
        want.dedup();
        let mut got: Vec<Feature> = t.get(FeatureIndex::from(idx)).map(|s| s.iter().cloned().collect()).unwrap_or_default();
        got.sort();
        sym::check(got == want, "the table gives back the features put under an index");
    }
    sym::reach("end");
}
