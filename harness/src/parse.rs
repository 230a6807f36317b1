//! P15-P18: what the parsers make of a text, against a description of the same text built alongside it.
use crate::fx::*;
use crate::sym;
use reductionml_core::object_pool::Pool;
use reductionml_core::utils::AsInner;
use std::sync::Arc;

/// the documented hash
pub fn h(s: &str, seed: u32) -> u32 { twox_hash::xxh3::hash64_with_seed(s.as_bytes(), seed as u64) as u32 }
pub fn nsh(name: &str, seed: u32) -> u32 { if name == " " || name == ":default" { 0 } else { h(name, seed) } }

/// expected features of one example part: (namespace name, features in order)
#[derive(Clone)]
pub struct Exp { pub seed: u32, pub bits: u8, pub ns: Vec<(String, Vec<(u32, f32)>)> }
impl Exp {
    pub fn new(seed: u32, bits: u8) -> Exp { Exp { seed, bits, ns: vec![] } }
    fn slot(&mut self, name: &str) -> &mut Vec<(u32, f32)> {
        let name = if name == ":default" { " " } else { name };
        let i = match self.ns.iter().position(|x| x.0 == name) { Some(i) => i, None => { self.ns.push((name.to_string(), vec![])); self.ns.len() - 1 } };
        &mut self.ns[i].1
    }
    pub fn raw(&mut self, ns: &str, hash: u32, v: f32) { let m = ((1u64 << self.bits) - 1) as u32; self.slot(ns).push((hash & m, v)) }
    pub fn named(&mut self, ns: &str, f: &str, v: f32) { let s = self.seed; self.raw(ns, h(f, nsh(ns, s)), v) }
    pub fn text(&mut self, ns: &str, f: &str, val: &str, v: f32) { let s = self.seed; self.raw(ns, h(val, h(f, nsh(ns, s))), v) }
    pub fn pos(&mut self, ns: &str, k: u32, v: f32) { let s = self.seed; self.raw(ns, nsh(ns, s).wrapping_add(k), v) }
    pub fn check(&self, f: &SparseFeatures) {
        let mut total = 0;
        for (n, want) in &self.ns {
            let got = view(f, Namespace::from_name(n, self.seed)).unwrap_or((vec![], vec![]));
            sym::check(got.0.len() == want.len(), "the parsed namespace has as many features as were written");
            sym::check(got.1.len() == want.len(), "the parsed namespace has as many values as were written");
            for (k, (i, v)) in want.iter().enumerate() {
                sym::check(got.0[k] == *i, "the feature is at the index its name stands for");
                sym::check(sym::same(got.1[k], *v), "the feature has the value that was written");
            }
            total += want.len();
        }
        sym::check(f.all_features().count() == total, "no features beyond those written");
        sym::check(f.namespaces().map(|(_, it)| it.count()).sum::<usize>() == total, "no namespaces beyond those written");
    }
}

/// a text under construction
pub struct Txt(pub Vec<u8>, usize, bool);
impl Txt {
    pub fn new(json: bool) -> Txt { Txt(vec![], 0, json) }
    pub fn s(&mut self, s: &str) { self.0.extend_from_slice(s.as_bytes()) }
    fn digit(&mut self) -> u64 {
        self.1 += 1;
        let d = sym::u8(&nm("digit", self.1));
        sym::assume(d >= b'0'); sym::assume(d <= b'9');
        self.0.push(d);
        (d - b'0') as u64
    }
    /// writes a number of the given form with free digits, returns its value (rounded once from the decimal
    /// in the text formats, by way of a double in JSON)
    pub fn num(&mut self, form: u32) -> f32 {
        let q = |n: u64, k: u64, json: bool| if json { (n as f64 / k as f64) as f32 } else { n as f32 / k as f32 };
        let w = |n: u64, json: bool| if json { n as f64 as f32 } else { n as f32 };
        let j = self.2;
        match form {
            0 => w(self.digit(), j),
            1 => { self.s("-"); -w(self.digit(), j) }
            2 => { let a = self.digit(); self.s("."); let b = self.digit(); q(a * 10 + b, 10, j) }
            3 => { let a = self.digit(); self.s("e1"); w(a * 10, j) }
            4 => { let a = self.digit(); self.s("E-1"); q(a, 10, j) }
            5 => { self.s("-0."); let a = self.digit(); -q(a, 10, j) }
            6 => { self.s("1"); let a = self.digit(); let b = self.digit(); w((10 + a) * 10 + b, j) }
            7 => { self.s(if j { "0." } else { "." }); let a = self.digit(); q(a, 10, j) }
            8 => { self.s(if j { "1" } else { "+1" }); w(10 + self.digit(), j) }
            9 => { self.s("16777217"); if j { 16777217f64 as f32 } else { 16777217f32 } }
            10 => { self.s("3.40282347e38"); f32::MAX }
            11 => { self.s("1e-45"); f32::from_bits(1) }
            12 => { self.s("0.333333333333333333333333"); 1.0 / 3.0 }
            14 => { self.s("429496729"); w(4294967290 + self.digit(), j) }
            15 => { self.s("-922337203685477580"); -w(9223372036854775800 + self.digit(), j) }
            16 => { self.s("18446744073709551617"); 18446744073709551616f32 }
            17 => { self.s("-123456789012345678901234567890"); -123456789012345678901234567890f32 }
            _ => { self.s("1.17549435E-38"); f32::MIN_POSITIVE }
        }
    }
    pub fn text(self) -> String { unsafe { String::from_utf8_unchecked(self.0) } }
}
fn chunks<P: TextModeParser>(p: &P, text: &str) -> Vec<String> {
    let mut r: &[u8] = text.as_bytes();
    let mut out = vec![];
    let mut buf = String::from("stale");
    loop {
        match p.get_next_chunk(&mut r, buf).unwrap() { None => break, Some(c) => { out.push(c.clone()); buf = c } }
    }
    out
}
fn only<P: TextModeParser>(p: &P, text: &str) -> String {
    let mut c = chunks(p, text);
    sym::check(c.len() == 1, "one example is one chunk");
    c.pop().unwrap()
}
fn check_label(got: &Option<Label>, want: Option<(f32, f32)>) {
    match (got, want) {
        (None, None) => {}
        (Some(Label::Simple(l)), Some((v, w))) => {
            sym::check(sym::same(l.value(), v), "the label has the value that was written");
            sym::check(sym::same(l.weight(), w), "the label has the weight that was written, or one");
        }
        _ => sym::check(false, "there is a label exactly when one was written"),
    }
}
fn check_cb_label(got: &Option<Label>, want: Option<(usize, f32, f32)>) {
    match (got, want) {
        (None, None) => {}
        (Some(Label::CB(l)), Some((a, c, p))) => {
            sym::check(l.action == a, "the label names the action that was chosen");
            sym::check(sym::same(l.cost, c), "the label has the cost that was written");
            sym::check(sym::same(l.probability, p), "the label has the probability that was written");
        }
        _ => sym::check(false, "there is a label exactly when one was written"),
    }
}

// ---------------------------------------------------------------- VW text
const GAPS: [&str; 4] = [" ", "  ", "\t", " \t "];
/// one namespace segment (after the bar); returns nothing, records what it means
pub fn vw_segment(t: &mut Txt, e: &mut Exp, nfeat: u64, heads: u32, feats: u32, forms: &[u32], gap: &str) {
    let head = sym::choice("head", heads);
    let (name, scale) = match head {
        0 => ("a", 1.0),
        1 => (" ", 1.0),
        2 => { t.s("a:"); let v = t.num(forms[0]); ("a", v) }
        3 => ("numbers", 1.0),
        _ => unreachable!(),
    };
    match head { 0 => t.s("a"), 3 => t.s("numbers"), _ => {} }
    let mut k = 0;
    for i in 0..nfeat {
        t.s(if i == 0 && head == 1 { " " } else { gap });
        match sym::choice("feature", feats) {
            0 => { t.s("x"); e.named(name, "x", scale) }
            1 => { t.s(":"); let v = t.num(forms[1]); e.pos(name, k, v * scale); k += 1 }
            2 => { t.s("y:"); let v = t.num(forms[1]); e.named(name, "y", v * scale) }
            3 => { t.s("x:red"); e.text(name, "x", "red", scale) }
            4 => { t.s("12"); e.named(name, "12", scale) }
            5 => { t.s("a_longer-feature.name:"); let v = t.num(forms[1]); e.named(name, "a_longer-feature.name", v * scale) }
            _ => { t.s(":red"); e.text(name, "", "red", scale) }
        }
    }
}
/// params: segments, features per segment, kinds of heads, kinds of features, form of numbers, seed, bits
#[no_mangle]
#[inline(never)]
pub fn vw_line() {
    let (seed, bits) = (sym::param(5) as u32, sym::param(6) as u8);
    let p = VwTextParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, seed, bits, Arc::new(Pool::new()));
    let (mut t, mut e) = (Txt::new(false), Exp::new(seed, bits));
    let form = sym::param(4) as u32;
    let segs = sym::param(0);
    let gap = if segs * sym::param(1) <= 2 { GAPS[sym::choice("gap", 4) as usize] } else { " " };
    let mut label = None;
    let lab = sym::choice("label", if segs == 1 { 7 } else { 3 });
    match lab {
        0 => {}
        1 => { let v = t.num(form); label = Some((v, 1.0)); t.s(" ") }
        2 => { let v = t.num(form); t.s(gap); let w = t.num(form); label = Some((v, w)); t.s(" 'tag") }
        3 => { let v = t.num(form); t.s(" "); let w = t.num(form); label = Some((v, w)); t.s(" ") }
        4 => { let v = t.num(form); label = Some((v, 1.0)); t.s(" 'tag ") }
        5 => t.s("'tag "),
        _ => { let v = t.num(form); label = Some((v, 1.0)); t.s(" tag") }
    }
    for i in 0..segs {
        t.s("|");
        vw_segment(&mut t, &mut e, sym::param(1), sym::param(2) as u32, sym::param(3) as u32, &[form, form], gap);
        if i + 1 < segs { t.s(" ") }
    }
    t.s(["", "\n", " \r\n"][sym::choice("line end", if segs == 1 { 3 } else { 1 }) as usize]);
    let text = t.text();
    let chunk = only(&p, &text);
    let (f, l) = p.parse_chunk(&chunk).unwrap();
    check_label(&l, label);
    let f: &SparseFeatures = f.as_inner().unwrap();
    e.check(f);
    if label.is_some() & !e.ns.is_empty() { sym::reach("a labelled line") }
    sym::reach("end");
}
/// params: actions, features per line, form of numbers, seed, bits
#[no_mangle]
#[inline(never)]
pub fn vw_cb() {
    let (seed, bits) = (sym::param(3) as u32, sym::param(4) as u8);
    let p = VwTextParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, seed, bits, Arc::new(Pool::new()));
    let (n, form) = (sym::param(0) as usize, sym::param(2) as u32);
    let mut t = Txt::new(false);
    let blank = sym::choice("blank line before", 2) == 1;
    if blank { t.s(" \n") }
    let shared = sym::choice("shared", 2) == 1;
    let mut es = Exp::new(seed, bits);
    if shared { t.s("shared "); t.s("|"); vw_segment(&mut t, &mut es, sym::param(1), 2, 2, &[form, form], " "); t.s("\n") }
    let chosen = sym::choice("chosen", n as u32 + 1) as usize;
    let mut label = None;
    let mut ea = vec![];
    for a in 0..n {
        let mut e = Exp::new(seed, bits);
        if chosen == a {
            t.s("7:"); let c = t.num(form); t.s(":"); let q = t.num(7); t.s(" ");
            label = Some((a, c, q));
        }
        t.s("|");
        vw_segment(&mut t, &mut e, sym::param(1), 2, 2, &[form, form], " ");
        ea.push(e);
        if a + 1 < n { t.s("\n") }
    }
    t.s(["", "\n", "\n\n", "\r\n \n"][sym::choice("end", 4) as usize]);
    let text = t.text();
    let chunk = only(&p, &text);
    let (f, l) = p.parse_chunk(&chunk).unwrap();
    check_cb_label(&l, label);
    let f: &CBAdfFeatures = f.as_inner().unwrap();
    check_cb(f, if shared { Some(&es) } else { None }, &ea);
    sym::reach("end");
}
fn check_cb(f: &CBAdfFeatures, shared: Option<&Exp>, actions: &[Exp]) {
    match (&f.shared, shared) {
        (None, None) => {}
        (Some(s), Some(e)) => e.check(s),
        _ => sym::check(false, "there are shared features exactly when they were written"),
    }
    sym::check(f.actions.len() == actions.len(), "as many actions as were written");
    for (a, e) in f.actions.iter().zip(actions) { e.check(a) }
}

// ---------------------------------------------------------------- JSON
const JNAMES: [(&str, &str); 4] = [("a", "a"), (":default", ":default"), (" ", " "), ("café", "caf\u{e9}")];
/// one namespace: key and content
fn json_ns(t: &mut Txt, e: &mut Exp, kinds: u32, names: u32, form: u32, first: &mut bool) {
    let kind = sym::choice("kind", kinds);
    if kind == 0 { return }
    if !*first { t.s(", ") }
    *first = false;
    let (w, name) = JNAMES[sym::choice("name", names) as usize];
    t.s("\""); t.s(w); t.s("\": ");
    match kind {
        1 => { t.s("["); let a = t.num(form); t.s(", "); let b = t.num(form); t.s("]"); e.pos(name, 0, a); e.pos(name, 1, b) }
        2 => { t.s("{\"x\": "); let a = t.num(form); t.s(", \"y\":\"red\"}"); e.named(name, "x", a); e.text(name, "y", "red", 1.0) }
        3 => { t.s("{\"yes\": true, \"no\":false, \"bA\": \"v\\n\"}"); e.named(name, "yes", 1.0); e.text(name, "bA", "v\n", 1.0) }
        4 => { t.s("[\"red\", \"12\", \"\\u0041\"]"); for s in ["red", "12", "A"] { e.named(name, s, 1.0) } }
        5 => { t.s("["); let a = t.num(form); t.s("]"); e.pos(name, 0, a) }
        6 => t.s("{}"),
        7 => t.s("[]"),
        _ => { t.s("[\"red\"]"); e.named(name, "red", 1.0) }
    }
}
fn json_feats(t: &mut Txt, e: &mut Exp, n: u64, kinds: u32, names: u32, form: u32) {
    let mut first = true;
    t.s("{");
    for _ in 0..n { json_ns(t, e, kinds, names, form, &mut first) }
    t.s("}");
}
/// params: namespaces, kinds, names, form of numbers, seed, bits
#[no_mangle]
#[inline(never)]
pub fn json_simple() {
    let (seed, bits) = (sym::param(4) as u32, sym::param(5) as u8);
    let p = JsonParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, seed, bits, Arc::new(Pool::new()));
    let (mut t, mut e) = (Txt::new(true), Exp::new(seed, bits));
    let form = sym::param(3) as u32;
    let mut label = None;
    let lab = sym::choice("label", if sym::param(0) == 1 { 7 } else { 2 });
    let mut tail = false;
    t.s("{");
    match lab {
        0 => {}
        1 => { t.s("\"label\": {\"value\": "); let v = t.num(form); t.s(", \"weight\":"); let w = t.num(form); t.s("}, "); label = Some((v, w)) }
        2 => { t.s("\"label\": null,") }
        3 => { t.s("\"label\":"); let v = t.num(form); t.s(","); label = Some((v, 1.0)) }
        4 => { t.s("\"label\" : {\"weight\" : "); let w = t.num(form); t.s(", \"value\":"); let v = t.num(form); t.s("}, "); label = Some((v, w)) }
        5 => { t.s("\"label\": {\"value\": "); let v = t.num(form); t.s("}, "); label = Some((v, 1.0)) }
        _ => tail = true,
    }
    t.s("\"features\": ");
    json_feats(&mut t, &mut e, sym::param(0), sym::param(1) as u32, sym::param(2) as u32, form);
    if tail { t.s(", \"label\": "); let v = t.num(form); label = Some((v, 1.0)) }
    t.s("}");
    let text = t.text();
    let chunk = only(&p, &text);
    let (f, l) = p.parse_chunk(&chunk).unwrap();
    check_label(&l, label);
    let f: &SparseFeatures = f.as_inner().unwrap();
    e.check(f);
    sym::reach("end");
}
/// params: actions, kinds, form of numbers, seed, bits
#[no_mangle]
#[inline(never)]
pub fn json_cb() {
    let (seed, bits) = (sym::param(3) as u32, sym::param(4) as u8);
    let p = JsonParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, seed, bits, Arc::new(Pool::new()));
    let mut t = Txt::new(true);
    let (n, kinds, form) = (sym::param(0) as usize, sym::param(1) as u32, sym::param(2) as u32);
    let mut label = None;
    t.s("{");
    let mut sh = None;
    match sym::choice("shared", 3) {
        0 => {}
        1 => { let mut e = Exp::new(seed, bits); t.s("\"shared\": "); json_feats(&mut t, &mut e, 1, kinds, 2, form); t.s(","); sh = Some(e) }
        _ => t.s("\"shared\": null, "),
    }
    match sym::choice("label", 3) {
        0 => {}
        1 => {
            let a = sym::choice("action", n as u32 + 1) as usize;
            t.s("\"label\": {\"action\": "); t.s(["0", "1", "2", "3"][a]);
            t.s(", \"cost\": "); let c = t.num(form); t.s(", \"probability\": "); let q = t.num(2); t.s("},");
            label = Some((a, c, q));
        }
        _ => t.s("\"label\":null,"),
    }
    let mut ea = vec![];
    t.s("\"actions\": [");
    for a in 0..n {
        let mut e = Exp::new(seed, bits);
        json_feats(&mut t, &mut e, 1, kinds, 1, form);
        ea.push(e);
        if a + 1 < n { t.s(", ") }
    }
    t.s("]}");
    let text = t.text();
    let chunk = only(&p, &text);
    let (f, l) = p.parse_chunk(&chunk).unwrap();
    check_cb_label(&l, label);
    let f: &CBAdfFeatures = f.as_inner().unwrap();
    check_cb(f, sh.as_ref(), &ea);
    sym::reach("end");
}

// ---------------------------------------------------------------- DSJSON
/// one key of an object in the context whose namespace is ns; ends with a comma
fn ds_key(t: &mut Txt, e: &mut Exp, ns: &str, depth: u64, kinds: u32, form: u32) {
    match sym::choice("key", kinds) {
        0 => {}
        1 => { t.s("\"x\": "); let v = t.num(form); t.s(","); e.named(ns, "x", v) }
        2 => { t.s("\"list\": ["); let a = t.num(form); t.s(", null, "); let b = t.num(form); t.s("],"); e.pos("list", 0, a); e.pos("list", 2, b) }
        3 if depth > 0 => { t.s("\"obj\": {"); ds_key(t, e, "obj", depth - 1, kinds, form); t.s("\"z\": 2},"); e.named("obj", "z", 2.0) }
        4 if depth > 0 => { t.s("\"arr\": [{"); ds_key(t, e, "arr", depth - 1, kinds, form); t.s("\"z\": 2}, {\"w\":true}],"); e.named("arr", "z", 2.0); e.named("arr", "w", 1.0) }
        5 => { t.s("\"y\":\"red\","); e.text(ns, "y", "red", 1.0) }
        6 => { t.s("\"yes\":true, \"no\": false,"); e.named(ns, "yes", 1.0) }
        7 => t.s("\"_ignored\": {\"x\": 1}, \"_\": [1], \"_tag\": \"t\","),
        8 => t.s("\"empty\": [], \"none\": {},"),
        _ => { t.s("\"qA\":\"\\\"\","); e.text(ns, "qA", "\"", 1.0) }
    }
}
/// params: actions, depth, kinds (shared), kinds (actions), form of numbers, seed, bits
#[no_mangle]
#[inline(never)]
pub fn ds_line() {
    let (seed, bits) = (sym::param(5) as u32, sym::param(6) as u8);
    let p = DsJsonParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, seed, bits, Arc::new(Pool::new()));
    let mut t = Txt::new(true);
    let (n, depth, ks, ka, form) = (sym::param(0) as usize, sym::param(1), sym::param(2) as u32, sym::param(3) as u32, sym::param(4) as u32);
    let lab = sym::choice("label", n as u32 + 1) as usize;
    let mut label = None;
    t.s("{");
    let idx = |t: &mut Txt| if lab < n { t.s("\"_label_Action\": 9, \"_labelIndex\": "); t.s(["0", "1", "2"][lab]); t.s(",") };
    if lab < n {
        t.s("\"_label_cost\": "); let c = t.num(form); t.s(", \"_label_probability\":"); let q = t.num(2); t.s(",");
        label = Some((lab, c, q));
    }
    idx(&mut t);
    t.s("\"Version\": \"1\", \"a\": [4, 2], \"c\": {");
    let mut e = Exp::new(seed, bits);
    ds_key(&mut t, &mut e, " ", depth, ks, form);
    let mut ea = vec![];
    t.s("\"_multi\": [");
    for a in 0..n {
        let mut x = Exp::new(seed, bits);
        t.s("{");
        ds_key(&mut t, &mut x, " ", depth, ka, form);
        t.s("\"id\": \"i\"}"); x.text(" ", "id", "i", 1.0);
        ea.push(x);
        if a + 1 < n { t.s(",") }
    }
    t.s("]}, \"p\": [0.5, 0.5]}");
    let text = t.text();
    let chunk = only(&p, &text);
    let (f, l) = p.parse_chunk(&chunk).unwrap();
    check_cb_label(&l, label);
    let f: &CBAdfFeatures = f.as_inner().unwrap();
    check_cb(f, Some(&e), &ea);
    sym::reach("end");
}

// ---------------------------------------------------------------- chunks
fn white(b: u8) -> bool { (b == b' ') | ((b >= 9) & (b <= 13)) }
pub fn trimmed(x: &[u8]) -> &[u8] { let mut n = x.len(); while n > 0 && white(x[n - 1]) { n -= 1 } &x[..n] }
/// a reader that hands out at most k bytes at a time
pub struct Drip<'a>(pub &'a [u8], pub usize);
impl std::io::Read for Drip<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { let n = b.len().min(self.1).min(self.0.len()); b[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) }
}
impl std::io::BufRead for Drip<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> { Ok(&self.0[..self.0.len().min(self.1)]) }
    fn consume(&mut self, n: usize) { self.0 = &self.0[n..] }
}
/// params: parser (0 vw line, 1 vw multi-line, 2 json, 3 dsjson), length, bytes per read, alphabet (0 any ASCII, 1 a few)
#[no_mangle]
#[inline(never)]
pub fn chunking() {
    let (which, n, k, alpha) = (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3));
    let mut bytes = vec![];
    for i in 0..n {
        let b = sym::u8(&nm("byte", i));
        if alpha == 0 { sym::assume(b < 128) } else { sym::assume((b == b'\n') | (b == b' ') | (b == b'x')) }
        bytes.push(b);
    }
    // what the chunks are: trimmed non-blank lines, or runs of them
    let mut want: Vec<Vec<u8>> = vec![];
    let mut open = false;
    let mut start = 0;
    for i in 0..=n {
        if i < n && bytes[i] != b'\n' { continue }
        let line = trimmed(&bytes[start..i]);
        start = i + 1;
        if line.is_empty() { open = false; continue }
        if which == 1 && open { let w = want.last_mut().unwrap(); w.push(b'\n'); w.extend_from_slice(line) } else { want.push(line.to_vec()) }
        open = true;
    }
    let pool = Arc::new(Pool::new());
    let mk = |ft, lt| (ft, lt, 0u32, 18u8, pool.clone());
    let mut r = Drip(&bytes, k);
    let mut got: Vec<Vec<u8>> = vec![];
    let mut buf = String::from("stale");
    let p: Box<dyn TextModeParser> = match which {
        0 => { let a = mk(FeaturesType::SparseSimple, LabelType::Simple); Box::new(VwTextParserFactory::default().create(a.0, a.1, a.2, a.3, a.4)) }
        1 => { let a = mk(FeaturesType::SparseCBAdf, LabelType::CB); Box::new(VwTextParserFactory::default().create(a.0, a.1, a.2, a.3, a.4)) }
        2 => { let a = mk(FeaturesType::SparseSimple, LabelType::Simple); Box::new(JsonParserFactory::default().create(a.0, a.1, a.2, a.3, a.4)) }
        _ => { let a = mk(FeaturesType::SparseCBAdf, LabelType::CB); Box::new(DsJsonParserFactory::default().create(a.0, a.1, a.2, a.3, a.4)) }
    };
    for _ in 0..=n + 1 {
        match p.get_next_chunk(&mut r, buf).unwrap() { None => { buf = String::new(); break } Some(c) => { got.push(trimmed(c.as_bytes()).to_vec()); buf = c } }
    }
    sym::check(p.get_next_chunk(&mut r, buf).unwrap().is_none(), "nothing comes after the end of the input");
    sym::check(got.len() == want.len(), "as many chunks as there are examples in the input");
    for (g, w) in got.iter().zip(want.iter()) {
        sym::check(g.len() == w.len(), "the chunk is the text of the example");
        let mut same = true;
        for i in 0..g.len() { same &= g[i] == w[i] }
        sym::check(same, "the chunk is the text of the example");
    }
    if got.len() >= 2 { sym::reach("two chunks") }
    sym::reach("end");
}
/// keys written with an escape sequence
/// params: parser (2 json, 3 dsjson)
#[no_mangle]
#[inline(never)]
pub fn json_escaped_key() {
    let (key, name) = [("a\\\"b", "a\"b"), ("\\u0041", "A"), ("t\\n", "t\n"), ("a\\\\", "a\\")][sym::choice("escape", 4) as usize];
    let deep = sym::choice("depth", 2) == 1;
    let (mut t, mut e) = (Txt::new(true), Exp::new(0, 18));
    if sym::param(0) == 2 {
        let p = JsonParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, 0, 18, Arc::new(Pool::new()));
        t.s("{\"features\": {\""); t.s(if deep { "a" } else { key }); t.s("\": {\""); t.s(if deep { key } else { "x" }); t.s("\": 1}}}");
        if deep { e.named("a", name, 1.0) } else { e.named(name, "x", 1.0) }
        let (f, _) = p.parse_chunk(&t.text()).unwrap();
        e.check(f.as_inner().unwrap());
    } else {
        let p = DsJsonParserFactory::default().create(FeaturesType::SparseCBAdf, LabelType::CB, 0, 18, Arc::new(Pool::new()));
        t.s("{\"c\": {\""); t.s(if deep { "a" } else { key }); t.s("\": {\""); t.s(if deep { key } else { "x" }); t.s("\": 1}, \"_multi\": []}}");
        if deep { e.named("a", name, 1.0) } else { e.named(name, "x", 1.0) }
        let (f, _) = p.parse_chunk(&t.text()).unwrap();
        let f: &CBAdfFeatures = f.as_inner().unwrap();
        e.check(f.shared.as_ref().unwrap());
    }
    sym::reach("end");
}
