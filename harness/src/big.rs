//! Larger inputs: many features, many actions, long texts, of which a few values are unknown.
use crate::fx::*;
use crate::parse::*;
use crate::stacks::stack;
use crate::sym;
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::utils::AsInner;
use std::sync::Arc;

const NAMES: [&str; 6] = ["a", "b", " ", "c", "d", "e"];
fn all_names() -> Vec<Namespace> { NAMES.iter().map(|n| ns(n)).collect() }
fn wide(spaces: usize, per: usize, k: usize, v: &dyn Fn(usize) -> Option<f32>) -> SparseFeatures {
    let mut f = SparseFeatures::new();
    for s in 0..spaces { for j in 0..per { let i = s * per + j; add(&mut f, ns(NAMES[(s + k) % 6]), (5 * i + 3 * k) as u32 % 16, v(i).unwrap_or([1.0, -0.5, 0.25][i % 3])) } }
    f
}
/// P01 for large examples. Params: stack, operation, namespaces, features each, actions
#[no_mangle]
#[inline(never)]
pub fn wide_restored() {
    let (cfg, kind) = stack(sym::param(0));
    let (op, spaces, per, n) = (sym::param(1), sym::param(2) as usize, sym::param(3) as usize, sym::param(4) as usize);
    let mut ws = workspace(cfg);
    let at = [0, spaces * per / 2, spaces * per - 1][sym::choice("at", 3) as usize];
    let v = if op == 0 { sym::f32_in("v", -8.0, 8.0) } else { 1.5 };
    let x = |i: usize| if i == at { Some(v) } else { None };
    let mut f: Features = if kind < 2 { wide(spaces, per, 0, &x).into() } else {
        let shared = match sym::choice("shared", 3) { 0 => None, 1 => Some(wide(spaces, per, 1, &x)), _ => Some(wide(1, 1, 1, &|_| None)) };
        CBAdfFeatures { shared, actions: (0..n).map(|i| wide([spaces, 1, 0, 2][i & 3], per, i, &x)).collect() }.into()
    };
    let before = f.clone();
    let l: Label = match kind {
        0 => SimpleLabel::new(1.5, 1.0).into(),
        1 => BinaryLabel(true).into(),
        _ => Label::CB(CBLabel::new([0, n / 2, n - 1][sym::choice("act", 3) as usize], 1.5, 0.5)),
    };
    match op { 0 => { ws.predict(&mut f); } 1 => ws.learn(&mut f, &l), _ => { ws.predict_then_learn(&mut f, &l); } }
    match (&f, &before) {
        (Features::SparseSimple(a), Features::SparseSimple(b)) => check_same(a, b, &all_names(), "features are restored"),
        (Features::SparseCBAdf(a), Features::SparseCBAdf(b)) => check_same_cb(a, b, &all_names(), "features are restored"),
        _ => sym::check(false, "features keep their kind"),
    }
    sym::reach("end");
}
/// P19 for large examples. Params: namespaces, features each (before), features each (after)
#[no_mangle]
#[inline(never)]
pub fn wide_recycled() {
    let (spaces, p1, p2) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as usize);
    let pool: Pool<SparseFeatures> = Pool::new();
    let v = sym::f32_in("v", 0.5, 4.0);
    let mut held: Vec<SparseFeatures> = (0..3).map(|_| pool.get_object()).collect();
    for (k, f) in held.iter_mut().enumerate() { let w = wide(spaces, p1, k, &|_| Some(v)); f.append(&w) }
    for f in held.drain(..) { f.clear_and_return_object(&pool) }
    let after = sym::choice("after", 3) as usize;
    for k in 0..4 {
        let mut a = pool.get_object();
        sym::check(a.empty() && a.all_features().count() == 0 && a.namespaces().count() == 0, "an object handed out by the pool is empty");
        for n in all_names() { sym::check(a.get_namespace(n).is_none(), "an object handed out by the pool is empty") }
        let mut b = SparseFeatures::new();
        let w = wide([1, 2, spaces][after], p2, k, &|i| if i == 0 { Some(v) } else { None });
        a.append(&w);
        b.append(&w);
        check_same(&a, &b, &all_names(), "a recycled object looks like a new one");
        sym::check(a == b && b == a, "a recycled object equals a new one");
        sym::check(a.namespaces().count() == b.namespaces().count(), "iterating over the namespaces of a recycled object gives those of a new one");
    }
    sym::reach("end");
}
fn spots(n: usize) -> usize { [0, n / 3, n - 1][sym::choice("spot", 3) as usize] }
fn val(t: &mut Txt, free: bool, i: usize) -> f32 { if free { t.num(6) } else { let k = i % 7; t.s(["1", "-2", "0.5", "3", "-0.25", "8", "10"][k]); [1.0, -2.0, 0.5, 3.0, -0.25, 8.0, 10.0][k] } }
fn key(i: usize) -> String { if i < 100 { nm("key", i) } else { format!("key{i}") } }
fn one_chunk<P: TextModeParser>(p: &P, text: &str) -> String {
    let mut r = text.as_bytes();
    let c = p.get_next_chunk(&mut r, String::new()).unwrap().unwrap();
    sym::check(p.get_next_chunk(&mut r, String::new()).unwrap().is_none(), "one example is one chunk");
    c
}
fn check_all(f: &CBAdfFeatures, shared: Option<&Exp>, ea: &[Exp]) {
    sym::check(f.shared.is_some() == shared.is_some(), "there are shared features exactly when they were written");
    if let (Some(s), Some(e)) = (&f.shared, shared) { e.check(s) }
    sym::check(f.actions.len() == ea.len(), "as many actions as were written");
    for (a, e) in f.actions.iter().zip(ea) { e.check(a) }
}
fn check_cb_label(l: &Option<Label>, want: Option<(usize, f32, f32)>) {
    match (l, want) {
        (None, None) => {}
        (Some(Label::CB(l)), Some((a, c, p))) => { sym::check(l.action == a, "the label names the action that was chosen"); sym::check(sym::same(l.cost, c), "the label has the cost that was written"); sym::check(sym::same(l.probability, p), "the label has the probability that was written") }
        _ => sym::check(false, "there is a label exactly when one was written"),
    }
}
/// a namespace segment of VW text with n features of mixed kinds
fn vw_long(t: &mut Txt, e: &mut Exp, name: &str, n: usize, free: Option<usize>) {
    t.s("|"); t.s(name);
    let name = if name.is_empty() { " " } else { name };
    let mut k = 0;
    for i in 0..n {
        t.s(" ");
        let f = free == Some(i);
        match i % 4 {
            0 => { t.s(":"); let v = val(t, f, i); e.pos(name, k, v); k += 1 }
            1 => { t.s(&key(i)); t.s(":"); let v = val(t, f, i); e.named(name, &key(i), v) }
            2 => { t.s(&key(i)); if f { t.s(":"); let v = val(t, f, i); e.named(name, &key(i), v) } else { e.named(name, &key(i), 1.0) } }
            _ => { t.s(&key(i)); t.s(":"); if f { let v = val(t, f, i); e.named(name, &key(i), v) } else { t.s("red"); e.text(name, &key(i), "red", 1.0) } }
        }
    }
}
/// Params: kind (0 simple, 1 contextual bandit), namespaces or actions, features each
#[no_mangle]
#[inline(never)]
pub fn long_vw() {
    let (kind, n, per) = (sym::param(0), sym::param(1) as usize, sym::param(2) as usize);
    let (mut t, at, fi) = (Txt::new(false), spots(n), spots2(per));
    let free = |i: usize| if i == at { Some(fi) } else { None };
    if kind == 0 {
        let p = VwTextParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, 3, 20, Arc::new(Pool::new()));
        let mut e = Exp::new(3, 20);
        t.s("1 ");
        for i in 0..n { vw_long(&mut t, &mut e, ["a", "b", "", "c", "a", "d"][i % 6], per, free(i)); t.s(" ") }
        let text = t.text();
        let names = p.extract_feature_names(&text).unwrap();
        sym::check(names.values().map(|x| x.len()).sum::<usize>() == n * per, "as many names are extracted as features parsed");
        let (f, l) = p.parse_chunk(&one_chunk(&p, &text)).unwrap();
        sym::check(matches!(l, Some(Label::Simple(ref s)) if s.value() == 1.0 && s.weight() == 1.0), "the label has the value that was written");
        e.check(f.as_inner().unwrap());
    } else {
        let p = VwTextParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, 3, 20, Arc::new(Pool::new()));
        let (mut es, mut ea, mut label) = (Exp::new(3, 20), vec![], None);
        let shared = sym::choice("shared", 2) == 1;
        if shared { t.s("shared "); vw_long(&mut t, &mut es, "s", per, None); t.s("\n") }
        let chosen = [0, n / 2, n - 1, n][sym::choice("chosen", 4) as usize];
        for i in 0..n {
            let mut e = Exp::new(3, 20);
            if i == chosen { t.s("3:"); let c = t.num(6); t.s(":0.25 "); label = Some((i, c, 0.25)) }
            vw_long(&mut t, &mut e, ["a", "b", ""][i % 3], per, if chosen == i { None } else { free(i) });
            t.s(" "); vw_long(&mut t, &mut e, "z", i % 3, None);
            t.s("\n");
            ea.push(e);
        }
        let (f, l) = p.parse_chunk(&one_chunk(&p, &t.text())).unwrap();
        check_cb_label(&l, label);
        check_all(f.as_inner().unwrap(), if shared { Some(&es) } else { None }, &ea);
    }
    sym::reach("end");
}
fn spots2(n: usize) -> usize { if n == 0 { return 0 } [0, n / 2, n - 1][sym::choice("feature", 3) as usize] }
/// features of a JSON object, with the trailing comma left out
fn json_long(t: &mut Txt, e: &mut Exp, spaces: usize, per: usize, at: Option<(usize, usize)>) {
    t.s("{");
    for s in 0..spaces {
        let name = ["a", "b", "c", "d", "e", "f", " "][s % 7];
        if s > 0 { t.s(", ") }
        t.s("\""); t.s(name); t.s("\": ");
        let free = |i: usize| at == Some((s, i));
        if s % 3 == 0 {
            t.s("[");
            for i in 0..per { if i > 0 { t.s(",") } let v = val(t, free(i), i); e.pos(name, i as u32, v) }
            t.s("]");
        } else if s % 3 == 1 {
            t.s("{");
            for i in 0..per {
                if i > 0 { t.s(", ") }
                t.s("\""); t.s(&key(i)); t.s("\": ");
                if !free(i) && i % 4 == 1 { t.s("\"red\""); e.text(name, &key(i), "red", 1.0) }
                else if !free(i) && i % 4 == 2 { t.s("true"); e.named(name, &key(i), 1.0) }
                else if !free(i) && i % 4 == 3 { t.s("false") }
                else { let v = val(t, free(i), i); e.named(name, &key(i), v) }
            }
            t.s("}");
        } else {
            t.s("[");
            for i in 0..per { if i > 0 { t.s(",") } t.s("\""); t.s(&key(i)); t.s("\""); e.named(name, &key(i), 1.0) }
            t.s("]");
        }
    }
    t.s("}");
}
/// Params: kind (0 simple, 1 contextual bandit), namespaces, features each, actions
#[no_mangle]
#[inline(never)]
pub fn long_json() {
    let (kind, spaces, per, n) = (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as usize);
    let mut t = Txt::new(true);
    let at = ([0, spaces / 2, spaces - 1][sym::choice("namespace", 3) as usize], spots2(per));
    if kind == 0 {
        let p = JsonParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, 3, 20, Arc::new(Pool::new()));
        let mut e = Exp::new(3, 20);
        t.s("{\"features\": ");
        json_long(&mut t, &mut e, spaces, per, Some(at));
        t.s("}");
        let (f, l) = p.parse_chunk(&one_chunk(&p, &t.text())).unwrap();
        sym::check(l.is_none(), "there is a label exactly when one was written");
        e.check(f.as_inner().unwrap());
    } else {
        let p = JsonParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, 3, 20, Arc::new(Pool::new()));
        let (mut es, mut ea, mut label) = (Exp::new(3, 20), vec![], None);
        let shared = sym::choice("shared", 2) == 1;
        let chosen = [0, n / 2, n - 1, n][sym::choice("chosen", 4) as usize];
        t.s("{");
        if chosen < n { t.s("\"label\": {\"action\": "); t.s(&chosen.to_string()); t.s(", \"cost\": "); let c = t.num(6); t.s(", \"probability\": 0.25}, "); label = Some((chosen, c, 0.25)) }
        if shared { t.s("\"shared\": "); json_long(&mut t, &mut es, spaces, per, None); t.s(", ") }
        t.s("\"actions\": [");
        for i in 0..n {
            let mut e = Exp::new(3, 20);
            if i > 0 { t.s(", ") }
            json_long(&mut t, &mut e, if i % 4 == 3 { 0 } else { spaces }, per, if i == n - 1 { Some(at) } else { None });
            ea.push(e);
        }
        t.s("]}");
        let (f, l) = p.parse_chunk(&one_chunk(&p, &t.text())).unwrap();
        check_cb_label(&l, label);
        check_all(f.as_inner().unwrap(), if shared { Some(&es) } else { None }, &ea);
    }
    sym::reach("end");
}
/// a context object of a decision log: scalars, lists with nulls, objects nested `depth` deep
fn ds_long(t: &mut Txt, e: &mut Exp, ns: &str, per: usize, depth: usize, free: Option<usize>) {
    for i in 0..per {
        t.s("\""); t.s(&key(i)); t.s("\": ");
        let f = free == Some(i);
        match i % 4 {
            _ if f => { let v = val(t, true, i); e.named(ns, &key(i), v) }
            0 => { let v = val(t, false, i); e.named(ns, &key(i), v) }
            1 => { t.s("\"red\""); e.text(ns, &key(i), "red", 1.0) }
            2 => { t.s("true"); e.named(ns, &key(i), 1.0) }
            _ => t.s("false"),
        }
        t.s(",");
    }
    if per > 0 {
        t.s("\"list\": [");
        for i in 0..2 * per { if i > 0 { t.s(",") } if i % 3 == 1 { t.s("null") } else { let v = val(t, false, i); e.pos("list", i as u32, v) } }
        t.s("],");
    }
    if depth > 0 {
        let inner = ["one", "two", "three", "four", "five", "six"][depth % 6];
        if depth % 2 == 0 { t.s("\""); t.s(inner); t.s("\": {"); ds_long(t, e, inner, per, depth - 1, free); t.s("\"_u\": 1},") }
        else { t.s("\""); t.s(inner); t.s("\": [{"); ds_long(t, e, inner, per, depth - 1, free); t.s("\"_u\": 1}, {\"last\": 2}],"); e.named(inner, "last", 2.0) }
    }
}
/// Params: actions, features, depth (shared), depth (actions)
#[no_mangle]
#[inline(never)]
pub fn long_ds() {
    let (n, per, d1, d2) = (sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as usize);
    let p = DsJsonParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, 3, 20, Arc::new(Pool::new()));
    let mut t = Txt::new(true);
    let chosen = [0, n / 2, n - 1, n][sym::choice("chosen", 4) as usize];
    let order = sym::choice("order of the fields", 4);
    let fi = spots2(per);
    let mut label = None;
    let (mut e, mut ea) = (Exp::new(3, 20), vec![]);
    let mut put = |t: &mut Txt, k: u32| match k {
        0 => { t.s("\"_label_cost\": "); let c = t.num(6); label = Some((chosen, c, 0.25)) }
        1 => t.s("\"_label_probability\": 0.25"),
        2 => { t.s("\"_labelIndex\": "); t.s(&chosen.to_string()) }
        3 => { t.s("\"_label_Action\": "); t.s(&(chosen + 1).to_string()) }
        _ => {
            t.s("\"c\": {");
            ds_long(t, &mut e, " ", per, d1, Some(fi));
            t.s("\"_multi\": [");
            for i in 0..n {
                let mut x = Exp::new(3, 20);
                if i > 0 { t.s(",") }
                t.s("{");
                ds_long(t, &mut x, " ", if i % 4 == 3 { 0 } else { per }, d2, if i == n - 1 { Some(fi) } else { None });
                t.s("\"id\": 1}");
                x.named(" ", "id", 1.0);
                ea.push(x);
            }
            t.s("]}");
        }
    };
    let fields: &[u32] = if chosen == n { &[4] } else { [&[0, 1, 3, 2, 4], &[4, 2, 3, 1, 0], &[3, 2, 4, 0, 1], &[1, 4, 0, 3, 2]][order as usize] };
    t.s("{\"Timestamp\": \"2020-01-01T00:00:00Z\"");
    for k in fields { t.s(", "); put(&mut t, *k) }
    t.s(", \"EventId\": \"e\", \"a\": [1, 2], \"p\": [0.5, 0.5], \"VWState\": {\"m\": \"x\"}}");
    let (f, l) = p.parse_chunk(&one_chunk(&p, &t.text())).unwrap();
    check_cb_label(&l, label);
    check_all(f.as_inner().unwrap(), Some(&e), &ea);
    sym::reach("end");
}
/// long inputs. Params: parser (0 vw line, 1 vw multi-line, 2 json, 3 dsjson), lines, length of lines, bytes per read
#[no_mangle]
#[inline(never)]
pub fn long_chunking() {
    let (which, n, len, k) = (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as usize);
    let (mut bytes, mut want): (Vec<u8>, Vec<Vec<u8>>) = (vec![], vec![]);
    let end = sym::choice("line end", 2) == 1;
    let last = sym::choice("last newline", 2) == 1;
    let mut open = false;
    for i in 0..n {
        let blank = i % 5 == 3 || i % 7 == 0;
        let mut line = vec![];
        if !blank { for j in 0..len + i % 3 { line.push(if j == len / 2 && i % 4 == 1 { let b = sym::u8(&nm("byte", i % 100)); sym::assume(b > b' '); sym::assume(b < 127); b } else { b'a' + ((i + j) % 26) as u8 }) } }
        bytes.extend_from_slice(&line);
        if blank { open = false } else {
            if which == 1 && open { let w = want.last_mut().unwrap(); w.push(b'\n'); w.extend_from_slice(&line) } else { want.push(line) }
            open = true;
        }
        if i + 1 < n || last { if end { bytes.push(b'\r') } bytes.push(b'\n') }
    }
    let pool = Arc::new(Pool::new());
    let p: Box<dyn TextModeParser> = match which {
        0 => Box::new(VwTextParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, 0, 18, pool)),
        1 => Box::new(VwTextParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, 0, 18, pool)),
        2 => Box::new(JsonParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, 0, 18, pool)),
        _ => Box::new(DsJsonParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, 0, 18, pool)),
    };
    let mut r = Drip(&bytes, k);
    let mut buf = String::from("stale");
    for w in &want {
        let c = p.get_next_chunk(&mut r, buf).unwrap();
        sym::check(c.is_some(), "as many chunks as there are examples in the input");
        let c = c.unwrap();
        // line ends inside a chunk may be either kind
        let g: Vec<u8> = trimmed(c.as_bytes()).iter().copied().filter(|b| *b != b'\r').collect();
        sym::check(g.len() == w.len(), "the chunk is the text of the example");
        let mut same = true;
        for i in 0..g.len() { same &= g[i] == w[i] }
        sym::check(same, "the chunk is the text of the example");
        buf = c;
    }
    sym::check(p.get_next_chunk(&mut r, buf).unwrap().is_none(), "nothing comes after the end of the input");
    sym::reach("end");
}
