//! Path-forking symbolic interpreter for the whole-program LLVM IR.
use crate::expr::*;
use crate::interval::*;
use crate::ir::*;
use crate::z3::{Mode, Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub const GL_BASE: u64 = 0x1000_0000;
pub const HEAP_BASE: u64 = 0x4000_0000;
pub const STACK_BASE: u64 = 0x1_0000_0000;
pub const STACK_SIZE: u64 = 0x1000_0000;

#[derive(Clone)]
pub struct Page {
    data: [u8; 4096],
    sym: Option<Box<HashMap<u16, (E, u8), BuildFx>>>,
}
#[derive(Clone, Default)]
pub struct Mem {
    reg: [Vec<Option<Rc<Page>>>; 3],
}
fn region(a: u64) -> Option<(usize, u64)> {
    if a >= STACK_BASE {
        if a < STACK_BASE + STACK_SIZE { Some((2, a - STACK_BASE)) } else { None }
    } else if a >= HEAP_BASE {
        Some((1, a - HEAP_BASE))
    } else if (GL_BASE..FN_BASE).contains(&a) {
        Some((0, a - GL_BASE))
    } else {
        None
    }
}
impl Mem {
    fn page(&self, a: u64) -> Option<&Page> {
        let (r, o) = region(a)?;
        self.reg[r].get((o >> 12) as usize).and_then(|p| p.as_deref())
    }
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let (r, o) = region(a).unwrap();
        let i = (o >> 12) as usize;
        let v = &mut self.reg[r];
        if v.len() <= i { v.resize(i + 1, None); }
        let p = v[i].get_or_insert_with(|| Rc::new(Page { data: [0; 4096], sym: None }));
        Rc::make_mut(p)
    }
    pub fn ok(&self, a: u64, n: u64) -> bool {
        region(a).is_some() && (n == 0 || region(a.wrapping_add(n - 1)).is_some())
    }
    fn byte(&self, a: u64) -> (u8, Option<(E, u8)>) {
        match self.page(a) {
            None => (0, None),
            Some(p) => {
                let o = (a & 4095) as usize;
                match &p.sym { Some(m) => (p.data[o], m.get(&(o as u16)).copied()), None => (p.data[o], None) }
            }
        }
    }
    fn load(&self, cx: &mut Ctx, a: u64, n: u64) -> Val {
        let o = (a & 4095) as usize;
        let mut has_sym = false;
        if o + n as usize <= 4096 {
            match self.page(a) {
                None => return Val::C(0),
                Some(p) => {
                    if let Some(m) = &p.sym { has_sym = (0..n).any(|i| m.contains_key(&((o as u64 + i) as u16))); }
                    if !has_sym {
                        let mut v = 0u128;
                        for i in (0..n as usize).rev() { v = (v << 8) | p.data[o + i] as u128; }
                        return Val::C(v);
                    }
                }
            }
        }
        let mut bs: Vec<(u8, Option<(E, u8)>)> = Vec::with_capacity(n as usize);
        for i in 0..n { bs.push(self.byte(a + i)); }
        if !has_sym && bs.iter().all(|b| b.1.is_none()) {
            let mut v = 0u128;
            for b in bs.iter().rev() { v = (v << 8) | b.0 as u128; }
            return Val::C(v);
        }
        if let Some((e, 0)) = bs[0].1 {
            if cx.w(e) as u64 == 8 * n && (0..n).all(|i| bs[i as usize].1 == Some((e, i as u8))) { return Val::E(e); }
        }
        let mut acc: Option<E> = None;
        for b in bs.iter() {
            let x = match b.1 { Some((e, i)) => cx.ext(e, 8 * i as u32, 8), None => cx.c(b.0 as u128, 8) };
            acc = Some(match acc { None => x, Some(l) => cx.bin(B::Concat, x, l) });
        }
        let e = acc.unwrap();
        match cx.konst(e) { Some(v) => Val::C(v), None => Val::E(e) }
    }
    fn store(&mut self, cx: &mut Ctx, a: u64, n: u64, v: &Val) {
        match v {
            Val::C(x) => {
                let mut i = 0;
                while i < n {
                    let p = self.page_mut(a + i);
                    let o = ((a + i) & 4095) as usize;
                    let k = ((4096 - o) as u64).min(n - i);
                    for j in 0..k as usize { p.data[o + j] = (x >> (8 * (i as usize + j)).min(127)) as u8; }
                    if let Some(m) = &mut p.sym {
                        for j in 0..k as usize { m.remove(&((o + j) as u16)); }
                        if m.is_empty() { p.sym = None; }
                    }
                    i += k;
                }
            }
            Val::E(e) => {
                let e = if (cx.w(*e) as u64) < 8 * n { cx.zext(*e, 8 * n as u32) } else { *e };
                // pieces that are constant stay concrete
                for i in 0..n {
                    let b = cx.ext(e, 8 * i as u32, 8);
                    let p = self.page_mut(a + i);
                    let o = (a + i) & 4095;
                    match cx.konst(b) {
                        Some(k) => {
                            p.data[o as usize] = k as u8;
                            if let Some(m) = &mut p.sym { m.remove(&(o as u16)); }
                        }
                        None => { p.sym.get_or_insert_with(|| Box::new(HashMap::with_hasher(BuildFx))).insert(o as u16, (e, i as u8)); }
                    }
                }
            }
            Val::A(_) => panic!("store agg"),
        }
    }
    fn set_raw(&mut self, a: u64, d: &[u8]) {
        let mut i = 0usize;
        while i < d.len() {
            let p = self.page_mut(a + i as u64);
            let o = ((a + i as u64) & 4095) as usize;
            let k = (4096 - o).min(d.len() - i);
            p.data[o..o + k].copy_from_slice(&d[i..i + k]);
            if let Some(m) = &mut p.sym { for j in 0..k { m.remove(&((o + j) as u16)); } }
            i += k;
        }
    }
    fn copy(&mut self, dst: u64, src: u64, n: u64) {
        let mut raw = vec![0u8; n as usize];
        let mut syms: Vec<(u64, (E, u8))> = vec![];
        let mut i = 0u64;
        while i < n {
            let o = ((src + i) & 4095) as usize;
            let k = ((4096 - o) as u64).min(n - i);
            if let Some(p) = self.page(src + i) {
                raw[i as usize..(i + k) as usize].copy_from_slice(&p.data[o..o + k as usize]);
                if let Some(m) = &p.sym {
                    if (m.len() as u64) < k {
                        for (off, v) in m.iter() { let off = *off as usize; if off >= o && off < o + k as usize { syms.push((i + (off - o) as u64, *v)); } }
                    } else {
                        for j in 0..k { if let Some(v) = m.get(&((o as u64 + j) as u16)) { syms.push((i + j, *v)); } }
                    }
                }
            }
            i += k;
        }
        self.set_raw(dst, &raw);
        for (o, v) in syms {
            let a = dst + o;
            self.page_mut(a).sym.get_or_insert_with(|| Box::new(HashMap::with_hasher(BuildFx))).insert((a & 4095) as u16, v);
        }
    }
    pub fn cbytes(&self, a: u64, n: u64) -> Vec<u8> {
        (0..n).map(|i| self.byte(a + i).0).collect()
    }
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    blk: u32,
    ip: u32,
    prev: u32,
    regs: Vec<Val>,
    ret: Option<u32>,
    ret_normal: Option<u32>,
    sp: u64,
    nobjs: usize,
}
#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pub pc: Vec<E>,
    known: HashSet<E, BuildFx>,
    fixed: BTreeSet<u32>,
    pub model: Option<Rc<Vec<u128>>>,
    /// the last assignment known to satisfy a prefix of the path
    pub hint: Option<Rc<Vec<u128>>>,
    pub tried: usize,
    brk: u64,
    allocs: Rc<Vec<(u64, u64)>>,
    stack_objs: Vec<(u64, u64)>,
    sp: u64,
    pub inputs: Vec<(String, E)>,
    pub obs: Vec<(String, Val)>,
    pub allow_panic: Option<String>,
    pub steps: u64,
    pub depth: u32,
    tls_keys: u32,
    pub asserts: u32,
    reach: Vec<String>,
    rnd: u64,
    facts: Rc<Facts>,
    ivm: Memo,
}
#[derive(Debug, Clone)]
pub enum End {
    Done,
    AssumeFalse,
    Panic(String),
    Fault(String),
    Unsupported(String),
    Killed,
}
pub struct Violation {
    pub kind: String,
    pub model: Vec<u128>,
    pub inputs: Vec<(String, E)>,
}
#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub done: u64,
    pub assumed_away: u64,
    pub panics_allowed: u64,
    pub forks: u64,
    pub steps: u64,
    pub asserts_static: u64,
    pub asserts_interval: u64,
    pub asserts_solver: u64,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub errors: Vec<String>,
    pub reached: BTreeMap<String, u64>,
    pub samples: Vec<(Vec<(String, u128)>, Vec<(String, u128)>)>,
    pub sample_pool: u64,
    pub infeasible: u64,
    pub inputs_max: usize,
    pub unchecked_paths: u64,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum H {
    None,
    Fn,
    Panic,
    PanicHead,
    Nop,
    Named, // dispatch by name
}
pub struct Limits {
    pub deadline: std::time::Instant,
    pub max_steps: u64,
    pub max_paths: u64,
    pub conc_limit: u32,
    pub query_ms: u32,
    pub feas_ms: u32,
    pub stop_on_violation: bool,
}
pub struct Engine {
    pub m: &'static Module,
    pub syms: &'static Syms,
    pub cx: Ctx,
    pub z3: Z3,
    funcs: Vec<Option<Rc<Func>>>,
    kind: Vec<Option<H>>,
    globals: Vec<(u64, u64)>,
    base: Mem,
    pub work: Vec<State>,
    pub rep: Report,
    pub lim: Limits,
    pub params: Vec<u64>,
    pub dbg_seen: Vec<bool>,
    pub fn_seen: Vec<bool>,
    conc_count: HashMap<(u32, u32, u32), u32>,
    qcache: HashMap<Vec<E>, Res>,
    hasfp: HashMap<E, bool, BuildFx>,
    seed: u64,
    pub trace: bool,
    pub max_samples: usize,
    pub split: bool,
}
type R<T> = Result<T, End>;

fn cval(v: u128) -> Val { Val::C(v) }

impl Engine {
    pub fn new(m: &'static Module, syms: &'static Syms, lim: Limits) -> Engine {
        let n = syms.names.len();
        let mut e = Engine {
            m, syms, cx: Ctx::new(), z3: Z3::new(), funcs: vec![None; n], kind: vec![None; n], globals: vec![], base: Mem::default(), work: vec![], rep: Report::default(), lim,
            params: vec![], dbg_seen: vec![], fn_seen: vec![false; n], conc_count: HashMap::new(), qcache: HashMap::new(), hasfp: HashMap::with_hasher(BuildFx), seed: 1, trace: false, max_samples: 24, split: true,
        };
        for g in &m.globals {
            match parse_global(m, syms, (g.1, g.2)) {
                Ok(Some((t, v, _))) => {
                    let id = syms.by_name[g.0];
                    let a = syms.addr[id as usize];
                    let sz = t.size();
                    let mut buf = vec![0u8; sz as usize];
                    bytes_of(&v, &t, &mut buf);
                    e.base.set_raw(a, &buf);
                    e.globals.push((a, sz));
                }
                Ok(None) => {}
                Err(x) => { if !g.0.starts_with("llvm.") { eprintln!("global {}: {x}", g.0) } }
            }
        }
        e.globals.sort();
        e
    }
    fn sym_id(&self, n: &str) -> Option<u32> { self.syms.by_name.get(n).copied() }

    /// run harness function `name` to completion of all paths
    pub fn run(&mut self, name: &str) {
        let mut st = State {
            frames: vec![], mem: self.base.clone(), pc: vec![], known: HashSet::with_hasher(BuildFx), fixed: BTreeSet::new(), model: Some(Rc::new(vec![])), hint: None, tried: 0, brk: HEAP_BASE, allocs: Rc::new(vec![]), stack_objs: vec![],
            sp: STACK_BASE + 4096, inputs: vec![], obs: vec![], allow_panic: None, steps: 0, depth: 0, tls_keys: 0, asserts: 0, reach: vec![], rnd: 0, facts: Rc::new(Facts::default()), ivm: Memo::default(),
        };
        // static constructors
        let mut ctors: Vec<(String, u64)> = vec![];
        for g in &self.m.globals {
            let l = std::str::from_utf8(&self.m.text[g.1..g.2]).unwrap_or("");
            if let Some(k) = l.find("section \".init_array") {
                let sec = l[k + 9..].split('"').next().unwrap().to_string();
                if let Ok(Some((_, Val::C(a), _))) = parse_global(self.m, self.syms, (g.1, g.2)) {
                    if !g.0.contains("ARGV_INIT_ARRAY") { ctors.push((sec, a as u64)); }
                }
            }
        }
        ctors.sort();
        for (_, a) in ctors {
            let id = self.syms.fn_of_addr(a).unwrap();
            if let Err(e) = self.push_frame(&mut st, id, vec![], None, None) { self.rep.errors.push(format!("ctor: {e:?}")); return; }
            match self.run_state(&mut st) {
                End::Done => {}
                e => { self.rep.errors.push(format!("static constructor failed: {e:?}")); return; }
            }
        }
        let id = match self.sym_id(name) { Some(i) => i, None => { self.rep.errors.push(format!("no such harness function {name}")); return; } };
        if let Err(e) = self.push_frame(&mut st, id, vec![], None, None) { self.rep.errors.push(format!("{e:?}")); return; }
        st.steps = 0;
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if std::time::Instant::now() > self.lim.deadline { self.rep.unchecked_paths = self.work.len() as u64 + 1; self.rep.inconclusive.push(format!("time limit reached with {} unexplored path(s)", self.work.len() + 1)); self.work.clear(); break; }
            if self.rep.paths >= self.lim.max_paths { self.rep.unchecked_paths = self.work.len() as u64 + 1; self.rep.inconclusive.push(format!("path limit reached with {} unexplored path(s)", self.work.len() + 1)); self.work.clear(); break; }
            if self.lim.stop_on_violation && !self.rep.violations.is_empty() { break; }
            let s0 = st.steps;
            let end = self.run_state(&mut st);
            self.rep.steps += st.steps - s0;
            self.finish(st, end);
        }
    }
    fn finish(&mut self, st: State, end: End) {
        self.rep.paths += 1;
        if self.trace { eprintln!("path {} end {:?} pc={} steps={} model={}", self.rep.paths, end, st.pc.len(), st.steps, st.model.is_some()); }
        match end {
            End::Done => {
                self.rep.done += 1;
                for r in &st.reach { *self.rep.reached.entry(r.clone()).or_insert(0) += 1; }
                self.rep.inputs_max = self.rep.inputs_max.max(st.inputs.len());
                let model = match &st.model { Some(m) => Some(m.clone()), None => match self.solve_pc(&st, None, self.lim.feas_ms) { Res::Sat(m) => Some(Rc::new(self.merge(&st, m))), Res::Unsat => { self.rep.infeasible += 1; None } _ => None } };
                if let Some(m) = model {
                    // reservoir sample of completed paths for native replay
                    self.rep.sample_pool += 1;
                    let mut memo = HashMap::with_hasher(BuildFx);
                    let k = self.rep.samples.len();
                    let slot = if k < self.max_samples { Some(k) } else { self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); let r = (self.seed >> 33) % self.rep.sample_pool; if (r as usize) < self.max_samples { Some(r as usize) } else { None } };
                    if let Some(s) = slot {
                        let ins = st.inputs.iter().map(|(n, e)| (n.clone(), self.cx.eval(*e, &m, &mut memo))).collect();
                        let obs = st.obs.iter().map(|(n, v)| (n.clone(), match v { Val::C(c) => *c, Val::E(e) => self.cx.eval(*e, &m, &mut memo), _ => 0 })).collect();
                        if s == k { self.rep.samples.push((ins, obs)); } else { self.rep.samples[s] = (ins, obs); }
                    }
                }
            }
            End::AssumeFalse => self.rep.assumed_away += 1,
            End::Killed => {}
            End::Panic(loc) => {
                if let Some(p) = &st.allow_panic {
                    if p.is_empty() || p.split('|').any(|q| loc.contains(q)) { self.rep.panics_allowed += 1; return; }
                }
                self.path_violation(&st, format!("panic at {loc}"));
            }
            End::Fault(s) => self.path_violation(&st, format!("memory fault: {s}")),
            End::Unsupported(s) => {
                // only matters if the path is feasible
                if st.model.is_none() { if let Res::Unsat = self.solve_pc(&st, None, self.lim.query_ms) { self.rep.infeasible += 1; return; } }
                let s = format!("unsupported: {s}");
                if !self.rep.errors.contains(&s) { self.rep.errors.push(s); }
            }
        }
    }
    fn path_violation(&mut self, st: &State, what: String) {
        let m = match &st.model {
            Some(m) => Some((**m).clone()),
            None => match self.solve_pc(st, None, self.lim.query_ms) {
                Res::Sat(m) => Some(self.merge(st, m)),
                Res::Unsat => { self.rep.infeasible += 1; return; }
                Res::Unknown => None,
            },
        };
        match m {
            Some(m) => self.rep.violations.push(Violation { kind: what, model: m, inputs: st.inputs.clone() }),
            None => { if self.rep.inconclusive.len() < 50 { self.rep.inconclusive.push(format!("cannot decide feasibility of: {what}")); } }
        }
    }
    fn merge(&self, st: &State, m: Vec<(u32, u128)>) -> Vec<u128> {
        let mut v: Vec<u128> = match &st.model { Some(x) => (**x).clone(), None => vec![] };
        let n = self.cx.vars.len();
        if v.len() < n { v.resize(n, 0); }
        for (i, x) in m { v[i as usize] = x; }
        v
    }

    // ---------------------------------------------------------------- solver interface
    fn has_fp(&mut self, e: E) -> bool {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if self.hasfp.contains_key(&x) { st.pop(); continue; }
            let (own, kids): (bool, Vec<E>) = match self.cx.nodes[x as usize] {
                N::C(_) | N::Var(_) => (false, vec![]),
                N::Un(op, a) => (!matches!(op, U::ZExt | U::SExt | U::FIsNan), vec![a]),
                N::Ext(a, _) => (false, vec![a]),
                N::Bin(op, a, b) => (matches!(op, B::FAdd | B::FSub | B::FMul | B::FDiv | B::FRem | B::FPow), vec![a, b]),
                N::Ite(a, b, c) => (false, vec![a, b, c]),
                N::Fma(a, b, c) => (true, vec![a, b, c]),
            };
            if own { self.hasfp.insert(x, true); st.pop(); continue; }
            let pend: Vec<E> = kids.iter().copied().filter(|k| !self.hasfp.contains_key(k)).collect();
            if pend.is_empty() {
                let r = kids.iter().any(|k| self.hasfp[k]);
                self.hasfp.insert(x, r);
                st.pop();
            } else { st.extend(pend); }
        }
        self.hasfp[&e]
    }
    fn slice(&mut self, pc: &[E], seed: &[E]) -> Vec<E> {
        let mut vars: HashSet<u32> = HashSet::new();
        for e in seed { vars.extend(self.cx.vars_in(*e).iter()); }
        let mut inc = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, e) in pc.iter().enumerate() {
                if inc[i] { continue; }
                let vs = self.cx.vars_in(*e);
                if vs.iter().any(|v| vars.contains(v)) { inc[i] = true; ch = true; vars.extend(vs.iter()); }
            }
            if !ch { break; }
        }
        let mut out: Vec<E> = pc.iter().enumerate().filter(|(i, _)| inc[*i]).map(|(_, e)| *e).collect();
        out.extend(seed);
        out
    }
    /// pc /\ extra; a Sat result carries a model that has been checked by concrete evaluation
    pub fn solve_pc(&mut self, st: &State, extra: Option<E>, ms: u32) -> Res {
        let cs = match extra {
            Some(e) => { if let Some(k) = self.cx.konst(e) { if k == 0 { return Res::Unsat; } } self.slice(&st.pc, &[e]) }
            None => st.pc.clone(),
        };
        let mut key = cs.clone();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.qcache.get(&key) { if !(*r == Res::Unknown && ms > self.lim.feas_ms) { return r.clone(); } }
        let base = st.model.clone().or_else(|| st.hint.clone());
        let lem = self.lemmas(&cs, st);
        let r = self.solve(&cs, &lem, base.as_deref().map(|v| &v[..]), ms, &st.facts);
        self.qcache.insert(key, r.clone());
        r
    }
    fn holds(&self, cs: &[E], asg: &[u128]) -> bool {
        let mut memo = HashMap::with_hasher(BuildFx);
        cs.iter().rev().all(|e| self.cx.eval(*e, asg, &mut memo) == 1)
    }
    /// bounds of the float operations occurring in a query, from the facts of the path
    fn lemmas(&mut self, cs: &[E], st: &State) -> Vec<E> {
        let facts = &st.facts;
        let mut out = vec![];
        let mut seen: HashSet<E, BuildFx> = HashSet::with_hasher(BuildFx);
        let mut todo: Vec<E> = cs.to_vec();
        let mut memo = Facts::default();
        while let Some(x) = todo.pop() {
            if !seen.insert(x) { continue; }
            let n = self.cx.nodes[x as usize];
            match n {
                N::C(_) | N::Var(_) => {}
                N::Un(_, a) | N::Ext(a, _) => todo.push(a),
                N::Bin(_, a, b) => { todo.push(a); todo.push(b); }
                N::Ite(a, b, c) | N::Fma(a, b, c) => { todo.push(a); todo.push(b); todo.push(c); }
            }
            let w = self.cx.w(x);
            if w != 32 && w != 64 { continue; }
            if !matches!(n, N::Bin(B::FAdd | B::FSub | B::FMul | B::FDiv, ..) | N::Fma(..) | N::Un(U::FExt | U::FTrunc | U::FSqrt | U::FExp | U::FExpm1 | U::FLn | U::FLn1p | U::FTanh | U::FFloor | U::FCeil | U::FTruncInt | U::FRound | U::FRoundEven | U::UiToFp | U::SiToFp, _)) { continue; }
            // sums and differences whose value is known on this path in terms of their operands
            if let N::Bin(op @ (B::FAdd | B::FSub), a, b) = n {
                let (p, q) = (iv(&self.cx, facts, &mut memo, a), iv(&self.cx, facts, &mut memo, b));
                let zero = |v: &Iv| !v.nan && v.lo == 0.0 && v.hi == 0.0;
                let fin = |v: &Iv| !v.nan && v.lo.is_finite() && v.hi.is_finite();
                let mut eq = None;
                if zero(&p) && q.nz && !q.nan {
                    if op == B::FAdd { eq = Some(b); }
                    else if self.cx.konst(a).is_none() { let z = self.cx.c(0, w); eq = Some(self.cx.bin(B::FSub, z, b)); }
                } else if zero(&q) && p.nz && !p.nan { eq = Some(a); }
                else if op == B::FSub && (p.nz || q.nz) && fin(&p) && fin(&q) { let k = self.cx.bin(B::FOeq, a, b); if st.known.contains(&k) { eq = Some(self.cx.c(0, w)); } }
                if op == B::FSub && eq.is_none() && fin(&p) && fin(&q) && self.cx.konst(a).is_none() && self.cx.konst(b).is_none() && a != b {
                    let k = self.cx.eq(a, b);
                    let k = self.cx.not(k);
                    let z = self.cx.c(0, w);
                    let l = self.cx.eq(x, z);
                    out.push(self.cx.bin(B::Or, k, l));
                }
                if let Some(v) = eq { let l = self.cx.eq(x, v); if self.cx.konst(l).is_none() { out.push(l); } }
            }
            let i = iv(&self.cx, facts, &mut memo, x);
            if i.full() || i.lo > i.hi { continue; }
            if !i.nan { let q = self.cx.un(U::FIsNan, x, 1); let q = self.cx.not(q); out.push(q); }
            let k = |f: f64| if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
            if i.lo > f64::NEG_INFINITY { let c = self.cx.c(k(i.lo), w); let q = self.cx.bin(B::FOlt, x, c); let q = self.cx.not(q); out.push(q); }
            if i.hi < f64::INFINITY { let c = self.cx.c(k(i.hi), w); let q = self.cx.bin(B::FOlt, c, x); let q = self.cx.not(q); out.push(q); }
            if i.nz && i.lo < 0.0 && i.hi > 0.0 { let c = self.cx.c(0, w); let q = self.cx.bin(B::FOeq, x, c); let q = self.cx.not(q); out.push(q); }
        }
        out
    }
    fn solve(&mut self, cs: &[E], lem: &[E], base: Option<&[u128]>, ms: u32, facts: &Facts) -> Res {
        let mut vars: Vec<u32> = vec![];
        let mut fp = false;
        for e in cs { vars.extend(self.cx.vars_in(*e).iter()); fp |= self.has_fp(*e); }
        vars.sort_unstable();
        vars.dedup();
        let n = self.cx.vars.len();
        let full = |m: &Vec<(u32, u128)>| { let mut a = base.map(|b| b.to_vec()).unwrap_or_default(); a.resize(n, 0); for (i, v) in m { a[*i as usize] = *v; } a };
        // a few cheap candidates before the solver: only ever used to exhibit satisfiability
        let plan = if fp { Some(self.cx.plan(cs)) } else { None };
        if let Some(p) = &plan { if let Some(m) = self.witness(cs, p, &vars, base, facts, 40) { return Res::Sat(m); } }
        let r = if lem.is_empty() { self.z3.check(&self.cx, cs, Mode::Uf, &vars, ms) } else {
            let mut all = cs.to_vec();
            all.extend(lem);
            self.z3.check(&self.cx, &all, Mode::Uf, &vars, ms)
        };
        match r {
            Res::Unsat => return Res::Unsat,
            Res::Sat(m) => {
                if self.holds(cs, &full(&m)) { return Res::Sat(m); }
                if !fp { self.rep.errors.push("solver model does not satisfy the constraints (encoding error)".into()); return Res::Unknown; }
            }
            Res::Unknown => if !fp { return Res::Unknown; },
        }
        if let Some(p) = &plan { if let Some(m) = self.witness(cs, p, &vars, base, facts, 1500) { return Res::Sat(m); } }
        // floats as rationals with a rounding error bound, when every float involved is finite on this path
        if fp && self.real_ok(cs, facts) {
            let mut all = cs.to_vec();
            all.extend(lem);
            let r = self.z3.check(&self.cx, &all, Mode::Lin, &vars, ms.min(5_000));
            if r == Res::Unsat { return Res::Unsat; }
            let r = self.z3.check(&self.cx, &all, Mode::Real, &vars, if ms <= self.lim.feas_ms { ms } else { ms.min(20_000) });
            if r == Res::Unsat { return Res::Unsat; }
        }
        // bit-level float reasoning does not scale to long arithmetic; a short budget is not worth spending on it
        if ms <= self.lim.feas_ms && self.fp_cost(cs) > 40 { return Res::Unknown; }
        match self.z3.check(&self.cx, cs, Mode::Bits, &vars, ms) {
            Res::Unsat => Res::Unsat,
            Res::Sat(m) => if self.holds(cs, &full(&m)) { Res::Sat(m) } else { Res::Unknown },
            Res::Unknown => Res::Unknown,
        }
    }
    /// are all float terms of the query known to be finite?
    fn real_ok(&self, cs: &[E], facts: &Facts) -> bool {
        let mut memo = Facts::default();
        let mut seen: HashSet<E, BuildFx> = HashSet::with_hasher(BuildFx);
        let mut todo: Vec<(E, bool)> = cs.iter().map(|e| (*e, false)).collect();
        while let Some((x, f)) = todo.pop() {
            if !seen.insert(x) { continue; }
            let n = self.cx.nodes[x as usize];
            if !f {
                match n {
                    N::Bin(B::And | B::Or | B::Xor, a, b) if self.cx.w(x) == 1 => { todo.push((a, false)); todo.push((b, false)); }
                    N::Ite(a, b, c) if self.cx.w(x) == 1 => for k in [a, b, c] { todo.push((k, false)); },
                    N::Bin(B::FOeq | B::FOlt | B::FOle, a, b) => for k in [a, b] { if self.cx.konst(k).is_none() { todo.push((k, true)); } },
                    N::Un(U::FIsNan, a) => if self.cx.konst(a).is_none() { todo.push((a, true)); },
                    _ => {}
                }
                continue;
            }
            let i = if let N::C(v) = n { let w = self.cx.w(x); let v = if w == 32 { f32b(v) as f64 } else { f64b(v) }; if !v.is_finite() { return false; } continue; } else { iv(&self.cx, facts, &mut memo, x) };
            if i.nan || !i.lo.is_finite() || !i.hi.is_finite() { return false; }
            match n {
                N::Bin(B::FAdd | B::FSub | B::FMul | B::FDiv, a, b) => { todo.push((a, true)); todo.push((b, true)); }
                N::Un(U::FSqrt | U::FExt | U::FTrunc | U::FExp, a) => todo.push((a, true)),
                N::Ite(c, a, b) => { todo.push((c, false)); todo.push((a, true)); todo.push((b, true)); }
                N::Bin(B::Xor | B::And, a, b) if self.cx.konst(b).is_some() => { let w = self.cx.w(x); let k = self.cx.konst(b).unwrap(); if k == 1u128 << (w - 1) || k == mask(w - 1) { todo.push((a, true)); } }
                _ => {}
            }
        }
        true
    }
    /// rough cost of a query at bit level
    fn fp_cost(&self, cs: &[E]) -> u32 {
        let mut seen: HashSet<E, BuildFx> = HashSet::with_hasher(BuildFx);
        let mut todo: Vec<E> = cs.to_vec();
        let mut c = 0;
        while let Some(x) = todo.pop() {
            if !seen.insert(x) { continue; }
            match self.cx.nodes[x as usize] {
                N::C(_) | N::Var(_) => {}
                N::Un(o, a) => { if o == U::FSqrt { c += 10 } todo.push(a) }
                N::Ext(a, _) => todo.push(a),
                N::Bin(o, a, b) => { c += match o { B::FAdd | B::FSub => 1, B::FMul => 3, B::FDiv => 10, _ => 0 }; todo.push(a); todo.push(b); }
                N::Ite(a, b, d) | N::Fma(a, b, d) => { todo.push(a); todo.push(b); todo.push(d); }
            }
        }
        c
    }
    /// local search for a satisfying assignment: mutate variables of violated conjuncts, keep what does not make it worse
    fn witness(&mut self, cs: &[E], p: &Plan, vars: &[u32], base: Option<&[u128]>, facts: &Facts, tries: usize) -> Option<Vec<(u32, u128)>> {
        const FV: [f64; 20] = [0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, 0.25, -0.5, 10.0, 0.1, 4.0, -3.0, 100.0, 1e-3, 1e3, 0.75, 1.5, -10.0, 5.0];
        let tries = tries.min(2 + 4_000_000 / (p.len() + 1));
        let mut a = base.map(|b| b.to_vec()).unwrap_or_default();
        a.resize(self.cx.vars.len(), 0);
        let (mut buf, mut bad, mut cand) = (Vec::with_capacity(p.len()), vec![], vec![]);
        let bound = |s: &Self, v: u32| match facts.get(&s.cx.var_node[v as usize]) { Some(i) => (i.lo, i.hi), None => (f64::NEG_INFINITY, f64::INFINITY) };
        let num = |k: u128, w: u32| if w == 32 { f32::from_bits(k as u32) as f64 } else { f64::from_bits(k as u64) };
        let bits = |f: f64, w: u32| if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
        for v in vars {
            let (_, w, isf) = self.cx.vars[*v as usize];
            if !isf { continue; }
            let (lo, hi) = bound(self, *v);
            let x = num(a[*v as usize], w);
            if !(x >= lo && x <= hi) { a[*v as usize] = bits(if lo.is_finite() && hi.is_finite() { lo + (hi - lo) * 0.5 } else if lo.is_finite() { lo.max(1.0) } else { hi.min(1.0) }, w); }
        }
        p.violated(&a, &mut buf, &mut bad);
        let mut score = bad.len();
        for _ in 0..tries {
            if score == 0 { return Some(vars.iter().map(|v| (*v, a[*v as usize])).collect()); }
            let mut rnd = || { self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.seed >> 33 };
            let c = bad[rnd() as usize % bad.len()];
            let (r0, r1, r2, r3) = (rnd(), rnd(), rnd(), rnd());
            let cv = self.cx.vars_in(cs[c as usize]);
            if cv.is_empty() { return None; }
            let n = 1 + (r0 % 3) as usize * (r0 & 8 != 0) as usize;
            let mut undo = vec![];
            for t in 0..n {
                let rr = r1.rotate_left(7 * t as u32) ^ (r2 << t);
                let v = cv[(r3 as usize ^ (t * 7919)) % cv.len()];
                let (_, w, isf) = self.cx.vars[v as usize];
                let old = a[v as usize];
                let k = if isf {
                    let (lo, hi) = bound(self, v);
                    let x = num(old, w);
                    let f = match rr % 10 {
                        0 => lo, 1 => hi, 2 => FV[((rr >> 5) % 20) as usize], 3 => x * 2.0, 4 => x * 0.5, 5 => -x,
                        6 => x * (1.0 + (((rr >> 5) & 0xff) as f64 - 128.0) / 1024.0),
                        _ => if lo.is_finite() && hi.is_finite() { lo + (hi - lo) * (((rr >> 5) & 0xffff) as f64 / 65536.0) } else { FV[((rr >> 5) % 20) as usize] },
                    };
                    bits(f.clamp(lo, hi), w)
                } else if rr & 1 == 0 { ((rr >> 2) as u128) & mask(w.min(1 + (rr & 7) as u32 * 4)) } else { old ^ (1 << ((rr >> 3) as u32 % w)) };
                undo.push((v, old));
                a[v as usize] = k & mask(w);
            }
            p.violated(&a, &mut buf, &mut cand);
            if cand.len() <= score { score = cand.len(); std::mem::swap(&mut bad, &mut cand); }
            else { for (v, o) in undo.into_iter().rev() { a[v as usize] = o; } }
        }
        if score == 0 { return Some(vars.iter().map(|v| (*v, a[*v as usize])).collect()); }
        None
    }
    fn eval_model(&self, m: &[u128], e: E) -> u128 {
        let mut memo = HashMap::with_hasher(BuildFx);
        self.cx.eval(e, m, &mut memo)
    }
    /// condition decided without the solver: constant, already on the path, or by interval facts
    fn quick(&mut self, st: &mut State, c: E) -> Option<bool> {
        if let Some(k) = self.cx.konst(c) { return Some(k == 1); }
        if st.known.contains(&c) { return Some(true); }
        let nc = self.cx.not(c);
        if st.known.contains(&nc) { return Some(false); }
        truth(&self.cx, &st.facts, &mut st.ivm.0, c, 0)
    }
    /// is this condition about floating-point values?
    fn fp_cond(&self, c: E) -> bool {
        match self.cx.nodes[c as usize] {
            N::Bin(B::FOlt | B::FOle | B::FOeq, ..) | N::Un(U::FIsNan, _) => true,
            N::Bin(B::And | B::Or | B::Xor, a, b) => self.fp_cond(a) || self.fp_cond(b),
            _ => false,
        }
    }
    /// comparison results that interval facts decide become constants
    fn fold(&mut self, st: &mut State, v: Val) -> Val {
        match v {
            Val::E(e) if self.cx.w(e) == 1 => match self.quick(st, e) { Some(b) => Val::C(b as u128), None => Val::E(e) },
            Val::A(xs) => { let o: Vec<Val> = xs.iter().map(|x| self.fold(st, x.clone())).collect(); Val::A(Rc::new(o)) }
            v => v,
        }
    }
    /// comparison results of floats that are about to be counted: decided, forking the path
    fn fork_bits(&mut self, st: &mut State, v: Val) -> R<Val> {
        Ok(match v {
            Val::E(e) if self.cx.w(e) == 1 && self.fp_cond(e) => Val::C(self.decide(st, e)? as u128),
            Val::A(xs) => { let mut o = vec![]; for x in xs.iter() { o.push(self.fork_bits(st, x.clone())?); } Val::A(Rc::new(o)) }
            v => v,
        })
    }
    /// if-then-else in this path; conditions on floats fork the path (unless split=0)
    fn sel(&mut self, st: &mut State, c: E, t: E, f: E) -> R<E> {
        if t == f { return Ok(t); }
        if let Some(k) = self.quick(st, c) { return Ok(if k { t } else { f }); }
        if self.split && self.cx.w(t) > 8 && self.fp_cond(c) { return Ok(if self.decide(st, c)? { t } else { f }); }
        Ok(self.cx.ite(c, t, f))
    }
    fn add_pc(&mut self, st: &mut State, e: E) {
        if st.known.insert(e) {
            st.pc.push(e);
            let mut ch = false;
            { let f = Rc::make_mut(&mut st.facts); learn(&self.cx, f, &mut st.ivm.0, e, true, &mut ch); }
            if ch { st.ivm.0.clear(); }
            // remember variables pinned to a constant
            if let N::Bin(B::Eq, a, b) = self.cx.nodes[e as usize] {
                if self.cx.konst(b).is_some() { if let N::Var(v) = self.cx.nodes[a as usize] { st.fixed.insert(v); } }
            }
            if self.cx.w(e) == 1 { if let N::Var(v) = self.cx.nodes[e as usize] { st.fixed.insert(v); } if let Some(x) = self.cx.is_not(e) { if let N::Var(v) = self.cx.nodes[x as usize] { st.fixed.insert(v); } } }
            // split conjunctions so that slicing and lookup see the parts
            if let N::Bin(B::And, a, b) = self.cx.nodes[e as usize] { if self.cx.w(e) == 1 { st.known.insert(a); st.known.insert(b); } }
        }
    }
    /// try to find a model again for a path that lost it
    fn repair(&mut self, st: &mut State) {
        if st.model.is_some() { st.hint = st.model.clone(); return; }
        if st.tried >= st.pc.len() { return; }
        st.tried = st.pc.len();
        let plan = self.cx.plan(&st.pc);
        let mut vars: Vec<u32> = vec![];
        for e in &st.pc { vars.extend(self.cx.vars_in(*e).iter()); }
        vars.sort_unstable();
        vars.dedup();
        let h = st.hint.clone();
        let pc = st.pc.clone();
        let facts = st.facts.clone();
        if let Some(m) = self.witness(&pc, &plan, &vars, h.as_deref().map(|v| &v[..]), &facts, 400) { st.model = Some(Rc::new(self.merge(st, m))); st.hint = st.model.clone(); }
    }
    /// decide a symbolic condition in this path, forking when both sides are possible
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.quick(st, c) { return Ok(k); }
        let nc = self.cx.not(c);
        self.repair(st);
        let (b, other) = match &st.model {
            Some(m) => {
                let m = m.clone();
                let b = self.eval_model(&m, c) == 1;
                let vs = self.cx.vars_in(c);
                if vs.iter().all(|v| st.fixed.contains(v)) { return Ok(b); }
                let oc = if b { nc } else { c };
                (b, self.solve_pc(st, Some(oc), self.lim.feas_ms))
            }
            None => {
                // no validated model: ask for both sides
                match self.solve_pc(st, Some(c), self.lim.feas_ms) {
                    Res::Unsat => { self.add_pc(st, nc); return Ok(false); }
                    Res::Sat(_m) => {}
                    Res::Unknown => {}
                }
                (true, self.solve_pc(st, Some(nc), self.lim.feas_ms))
            }
        };
        let (tc, oc) = if b { (c, nc) } else { (nc, c) };
        if self.trace {
            let f = st.frames.last().unwrap();
            let r = match &other { Res::Sat(_) => "sat", Res::Unsat => "unsat", Res::Unknown => "unknown" };
            eprintln!("branch {r} model={} in {} : {}", st.model.is_some(), f.f.name, self.show(&st.facts, c, 6));
        }
        match other {
            Res::Unsat => {}
            Res::Sat(m) => {
                let mut o = st.clone();
                o.model = if st.model.is_some() { Some(Rc::new(self.merge(st, m))) } else { None };
                o.depth += 1;
                self.add_pc(&mut o, oc);
                self.rep.forks += 1;
                self.work.push(o);
            }
            Res::Unknown => {
                let mut o = st.clone();
                o.model = None;
                o.depth += 1;
                self.add_pc(&mut o, oc);
                self.rep.forks += 1;
                self.work.push(o);
            }
        }
        self.add_pc(st, tc);
        Ok(b)
    }
    fn conc(&mut self, st: &mut State, e: E) -> R<u128> {
        if let Some(k) = self.cx.konst(e) { return Ok(k); }
        let w = self.cx.w(e);
        if w == 1 { return Ok(self.decide(st, e)? as u128); }
        let m = match &st.model {
            Some(m) => m.clone(),
            None => match self.solve_pc(st, None, self.lim.query_ms) {
                Res::Sat(m) => { let v = Rc::new(self.merge(st, m)); st.model = Some(v.clone()); v }
                Res::Unsat => { self.rep.infeasible += 1; return Err(End::Killed); }
                Res::Unknown => return Err(End::Unsupported("cannot find a value to concretise".into())),
            },
        };
        let v = self.eval_model(&m, e);
        let f = st.frames.last().unwrap();
        let key = (f.f.id, f.blk, f.ip);
        let k = self.cx.c(v, w);
        let eq = self.cx.eq(e, k);
        if st.known.contains(&eq) { return Ok(v); }
        let n = self.conc_count.entry(key).or_insert(0);
        *n += 1;
        if *n > self.lim.conc_limit { return Err(End::Unsupported(format!("more than {} concretised values at one instruction in {}", self.lim.conc_limit, f.f.name))); }
        let b = self.decide(st, eq)?;
        debug_assert!(b);
        Ok(v)
    }
    fn show(&self, facts: &Facts, e: E, d: u32) -> String {
        let w = self.cx.w(e);
        let mut memo = Facts::default();
        let note = if (w == 32 || w == 64) && self.cx.konst(e).is_none() { let i = iv(&self.cx, facts, &mut memo, e); if i.full() { String::new() } else { format!("[{},{}{}{}]", i.lo, i.hi, if i.nan { " nan" } else { "" }, if i.nz { " nz" } else { "" }) } } else { String::new() };
        if d == 0 { return format!("#{e}{note}"); }
        match self.cx.nodes[e as usize] {
            N::C(v) => if w == 32 { format!("{v:x}({})", f32::from_bits(v as u32)) } else { format!("{v:x}") },
            N::Var(v) => format!("{}{note}", self.cx.vars[v as usize].0),
            N::Un(o, a) => format!("{o:?}({}){note}", self.show(facts, a, d - 1)),
            N::Ext(a, l) => format!("ext{l}:{w}({})", self.show(facts, a, d - 1)),
            N::Bin(o, a, b) => format!("{o:?}({}, {}){note}", self.show(facts, a, d - 1), self.show(facts, b, d - 1)),
            N::Ite(a, b, c) => format!("ite({}, {}, {}){note}", self.show(facts, a, d - 1), self.show(facts, b, d - 1), self.show(facts, c, d - 1)),
            N::Fma(..) => format!("fma#{e}"),
        }
    }
    fn cv(&mut self, st: &mut State, v: &Val) -> R<u128> {
        match v { Val::C(x) => Ok(*x), Val::E(e) => self.conc(st, *e), Val::A(_) => Err(End::Unsupported("aggregate as scalar".into())) }
    }
    fn e(&mut self, v: &Val, w: u32) -> E {
        match v { Val::C(x) => self.cx.c(*x, w), Val::E(e) => *e, Val::A(_) => panic!("agg") }
    }
    fn v(&self, e: E) -> Val {
        match self.cx.konst(e) { Some(k) => Val::C(k), None => Val::E(e) }
    }

    // ---------------------------------------------------------------- memory with symbolic addresses
    fn object_of(&self, st: &State, a: u64) -> Option<(u64, u64)> {
        if a >= STACK_BASE { return st.stack_objs.iter().rev().find(|(b, s)| a >= *b && a < b + s).copied(); }
        let v: &Vec<(u64, u64)> = if a >= HEAP_BASE { &st.allocs } else { &self.globals };
        let i = v.partition_point(|x| x.0 <= a);
        if i == 0 { return None; }
        let (b, s) = v[i - 1];
        if a < b + s { Some((b, s)) } else { None }
    }
    /// candidate addresses for a symbolic address; after return the path constrains the address to them
    fn candidates(&mut self, st: &mut State, ae: E, n: u64) -> R<Vec<u64>> {
        if st.model.is_none() {
            match self.solve_pc(st, None, self.lim.query_ms) {
                Res::Sat(m) => { let v = Rc::new(self.merge(st, m)); st.model = Some(v); }
                Res::Unsat => { self.rep.infeasible += 1; return Err(End::Killed); }
                Res::Unknown => return Err(End::Unsupported("no model for a symbolic address".into())),
            }
        }
        let m = st.model.clone().unwrap();
        let v0 = self.eval_model(&m, ae) as u64;
        let (b, s) = match self.object_of(st, v0) {
            Some(x) => x,
            None => { let _ = self.conc(st, ae)?; return Ok(vec![v0]); }
        };
        if s < n || s / n > 4096 { let v = self.conc(st, ae)? as u64; return Ok(vec![v]); }
        let first = b + (v0 - b) % n;
        let last = first + (b + s - n - first) / n * n;
        // in range and aligned?
        let f = self.cx.c(first as u128, 64);
        let d = self.cx.bin(B::Sub, ae, f);
        let lim = self.cx.c((last - first + 1) as u128, 64);
        let inr = self.cx.bin(B::Ult, d, lim);
        let mut cond = inr;
        if n > 1 && n.is_power_of_two() {
            let mk = self.cx.c(n as u128 - 1, 64);
            let lo = self.cx.bin(B::And, d, mk);
            let z = self.cx.c(0, 64);
            let al = self.cx.eq(lo, z);
            cond = self.cx.and(cond, al);
        }
        if !self.decide(st, cond)? { return Err(End::Unsupported("symbolic address resolution".into())); }
        Ok((0..=(last - first) / n).map(|i| first + i * n).collect())
    }
    fn load_addr(&mut self, st: &mut State, p: &Val, n: u64, w: u32) -> R<Val> {
        match p {
            Val::C(a) => {
                let a = *a as u64;
                if !st.mem.ok(a, n) { return Err(End::Fault(format!("load of {n} bytes at {a:#x}"))); }
                let lv = st.mem.load(&mut self.cx, a, n);
                Ok(self.trunc_to(lv, w, n))
            }
            Val::E(ae) => {
                let cs = self.candidates(st, *ae, n)?;
                for a in &cs { if !st.mem.ok(*a, n) { return Err(End::Fault(format!("load of {n} bytes at {a:#x}"))); } }
                let mut acc: Option<E> = None;
                let mut runs: Vec<(u64, E)> = vec![]; // start address, value
                for a in &cs {
                    let v = st.mem.load(&mut self.cx, *a, n);
                    let e = self.e(&v, 8 * n as u32);
                    if runs.last().map(|r| r.1) != Some(e) { runs.push((*a, e)); }
                }
                for i in (0..runs.len()).rev() {
                    let (_, v) = runs[i];
                    acc = Some(match acc {
                        None => v,
                        Some(rest) => { let lim = self.cx.c(runs[i + 1].0 as u128, 64); let c = self.cx.bin(B::Ult, *ae, lim); self.cx.ite(c, v, rest) }
                    });
                }
                let v = self.v(acc.unwrap());
                Ok(self.trunc_to(v, w, n))
            }
            Val::A(_) => Err(End::Unsupported("vector address".into())),
        }
    }
    fn trunc_to(&mut self, v: Val, w: u32, n: u64) -> Val {
        if w as u64 == 8 * n { return v; }
        match v { Val::C(x) => Val::C(x & mask(w)), Val::E(e) => { let x = self.cx.ext(e, 0, w); self.v(x) } a => a }
    }
    fn store_addr(&mut self, st: &mut State, p: &Val, n: u64, v: &Val) -> R<()> {
        match p {
            Val::C(a) => {
                let a = *a as u64;
                if !st.mem.ok(a, n) { return Err(End::Fault(format!("store of {n} bytes at {a:#x}"))); }
                st.mem.store(&mut self.cx, a, n, v);
                Ok(())
            }
            Val::E(ae) => {
                let cs = self.candidates(st, *ae, n)?;
                for a in &cs { if !st.mem.ok(*a, n) { return Err(End::Fault(format!("store of {n} bytes at {a:#x}"))); } }
                let nv = self.e(v, 8 * n as u32);
                let nv = if (self.cx.w(nv) as u64) < 8 * n { self.cx.zext(nv, 8 * n as u32) } else { nv };
                if cs.len() == 1 { let x = self.v(nv); st.mem.store(&mut self.cx, cs[0], n, &x); return Ok(()); }
                for a in cs {
                    let old = st.mem.load(&mut self.cx, a, n);
                    let oe = self.e(&old, 8 * n as u32);
                    let k = self.cx.c(a as u128, 64);
                    let c = self.cx.eq(*ae, k);
                    let x = self.cx.ite(c, nv, oe);
                    let x = self.v(x);
                    st.mem.store(&mut self.cx, a, n, &x);
                }
                Ok(())
            }
            Val::A(_) => Err(End::Unsupported("vector address".into())),
        }
    }
    fn load_ty(&mut self, st: &mut State, t: &Ty, p: &Val) -> R<Val> {
        if t.scalar() { return self.load_addr(st, p, t.store(), t.bits()); }
        if let Ty::Vec(n, et) = t {
            if et.bits() % 8 != 0 {
                let by = t.store();
                let v = self.load_addr(st, p, by, 8 * by as u32)?;
                return Ok(self.unflatten(&v, 8 * by as u32, *n as usize, et.bits()));
            }
        }
        let base = self.cv(st, p)? as u64;
        let mut out = vec![];
        for i in 0..t.count() { out.push(self.load_ty(st, t.elem(i), &Val::C((base + t.field_off(i)) as u128))?); }
        Ok(Val::A(Rc::new(out)))
    }
    fn store_ty(&mut self, st: &mut State, t: &Ty, v: &Val, p: &Val) -> R<()> {
        if t.scalar() {
            let n = t.store();
            let v2;
            let vv = if (t.bits() as u64) < 8 * n { if let Val::E(e) = v { let x = self.cx.zext(*e, 8 * n as u32); v2 = self.v(x); &v2 } else { v } } else { v };
            return self.store_addr(st, p, n, vv);
        }
        if let Ty::Vec(_, et) = t {
            if et.bits() % 8 != 0 {
                let by = t.store();
                let f = self.flatten(v, t);
                let fe = self.e(&f, t.count() as u32 * et.bits());
                let fe = self.cx.zext(fe, 8 * by as u32);
                let fv = self.v(fe);
                return self.store_addr(st, p, by, &fv);
            }
        }
        let base = self.cv(st, p)? as u64;
        match v {
            Val::A(vs) => { for (i, x) in vs.iter().enumerate() { self.store_ty(st, t.elem(i), x, &Val::C((base + t.field_off(i)) as u128))?; } Ok(()) }
            _ => Err(End::Unsupported("store aggregate".into())),
        }
    }
    /// bits of a value of type t as one scalar (vectors: element 0 least significant)
    fn flatten(&mut self, v: &Val, t: &Ty) -> Val {
        match v {
            Val::A(vs) => {
                let ew = t.elem(0).bits();
                if vs.iter().all(|x| matches!(x, Val::C(_))) && ew as usize * vs.len() <= 128 {
                    let mut r = 0u128;
                    for (i, x) in vs.iter().enumerate() { if let Val::C(c) = x { r |= c << (ew * i as u32).min(127); } }
                    return Val::C(r);
                }
                let mut acc: Option<E> = None;
                for x in vs.iter() { let e = self.e(x, ew); acc = Some(match acc { None => e, Some(l) => self.cx.bin(B::Concat, e, l) }); }
                let e = acc.unwrap();
                self.v(e)
            }
            x => x.clone(),
        }
    }
    fn unflatten(&mut self, v: &Val, w: u32, n: usize, ew: u32) -> Val {
        let mut out = vec![];
        for i in 0..n {
            match v {
                Val::C(c) => out.push(Val::C((c >> (ew * i as u32)) & mask(ew))),
                _ => { let e = self.e(v, w); let x = self.cx.ext(e, ew * i as u32, ew); out.push(self.v(x)); }
            }
        }
        Val::A(Rc::new(out))
    }

    // ---------------------------------------------------------------- interpreter
    fn func(&mut self, id: u32) -> Option<Rc<Func>> {
        if self.funcs[id as usize].is_none() {
            let f = parse_fn(self.m, self.syms, &self.syms.names[id as usize], id)?;
            self.funcs[id as usize] = Some(Rc::new(f));
        }
        self.funcs[id as usize].clone()
    }
    fn push_frame(&mut self, st: &mut State, id: u32, args: Vec<Val>, ret: Option<u32>, normal: Option<u32>) -> R<()> {
        let f = match self.func(id) { Some(f) => f, None => return Err(End::Unsupported(format!("no body for {}", self.syms.names[id as usize]))) };
        self.fn_seen[id as usize] = true;
        if st.frames.len() > 2000 { return Err(End::Fault("call depth".into())); }
        let mut regs = vec![Val::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() { regs[*p as usize] = args[i].clone(); }
        let (sp, nobjs) = (st.sp, st.stack_objs.len());
        st.frames.push(Frame { f, blk: 0, ip: 0, prev: u32::MAX, regs, ret, ret_normal: normal, sp, nobjs });
        Ok(())
    }
    fn goto(&mut self, st: &mut State, b: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let f = fr.f.clone();
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for (d, srcs) in &blk.phis {
                let o = &srcs.iter().find(|s| s.0 == from).expect("phi predecessor").1;
                vals.push((*d, match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(k) => k.clone() }));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.prev = from;
        fr.blk = b;
        fr.ip = 0;
    }
    pub fn run_state(&mut self, st: &mut State) -> End {
        loop {
            match self.step_block(st) {
                Ok(false) => {}
                Ok(true) => return End::Done,
                Err(e) => return e,
            }
            if st.steps > self.lim.max_steps { return End::Unsupported(format!("step limit in {}", st.frames.last().map(|f| f.f.name.clone()).unwrap_or_default())); }
            if st.steps & 0xfff < 16 && std::time::Instant::now() > self.lim.deadline { return End::Unsupported("time limit inside a path".into()); }
        }
    }
    /// execute until control leaves the current straight-line run; Ok(true) = outermost return
    fn step_block(&mut self, st: &mut State) -> R<bool> {
        let f = st.frames.last().unwrap().f.clone();
        let fi = st.frames.len() - 1;
        let mut bi = st.frames[fi].blk as usize;
        loop {
            let blk = &f.blocks[bi];
            let ip = st.frames[fi].ip as usize;
            let ins = &blk.code[ip];
            let dbg = blk.dbg[ip];
            if dbg != 0 {
                if self.dbg_seen.len() <= dbg as usize { self.dbg_seen.resize(dbg as usize + 1024, false); }
                self.dbg_seen[dbg as usize] = true;
            }
            st.steps += 1;
            macro_rules! get { ($o:expr) => { match $o { Op::R(r) => st.frames[fi].regs[*r as usize].clone(), Op::K(k) => k.clone() } }; }
            macro_rules! set { ($d:expr, $v:expr) => {{ let vv = $v; st.frames[fi].regs[$d as usize] = vv; }}; }
            match ins {
                I::Bin(op, t, d, a, b) => {
                    let (x, y) = (get!(a), get!(b));
                    let r = self.bin(st, *op, t, &x, &y)?;
                    set!(*d, r);
                }
                I::ICmp(c, t, d, a, b) => {
                    let (x, y) = (get!(a), get!(b));
                    let r = self.icmp(*c, t, &x, &y);
                    set!(*d, r);
                }
                I::FCmp(c, t, d, a, b) => {
                    let (x, y) = (get!(a), get!(b));
                    let r = self.fcmp(*c, t, &x, &y);
                    let r = self.fold(st, r);
                    set!(*d, r);
                }
                I::FNeg(t, d, a) => {
                    let x = get!(a);
                    let w = t.bits();
                    let e = self.e(&x, w);
                    let k = self.cx.c(1u128 << (w - 1), w);
                    let r = self.cx.bin(B::Xor, e, k);
                    set!(*d, self.v(r));
                }
                I::Cast(c, ft, tt, d, a) => {
                    let mut x = get!(a);
                    if self.split && matches!(c, Cast::ZExt | Cast::SExt | Cast::UiToFp | Cast::SiToFp) && (if matches!(tt, Ty::Vec(..)) { tt.elem(0).bits() } else { tt.bits() }) > 8 { x = self.fork_bits(st, x)?; }
                    let r = self.cast(*c, ft, tt, &x)?;
                    set!(*d, r);
                }
                I::Load(t, d, p) => {
                    let a = get!(p);
                    let r = self.load_ty(st, t, &a)?;
                    set!(*d, r);
                }
                I::Store(t, v, p) => {
                    let (x, a) = (get!(v), get!(p));
                    self.store_ty(st, t, &x, &a)?;
                }
                I::Gep(d, base, off, dynv) => {
                    let b = get!(base);
                    let mut r = match b {
                        Val::C(c) => Val::C((c as u64).wrapping_add(*off as u64) as u128),
                        Val::E(e) => { let k = self.cx.c(*off as u64 as u128, 64); let x = self.cx.bin(B::Add, e, k); self.v(x) }
                        _ => return Err(End::Unsupported("gep base".into())),
                    };
                    for (o, w, sc) in dynv {
                        let iv = get!(o);
                        r = match (&r, &iv) {
                            (Val::C(p), Val::C(i)) => Val::C((*p as u64).wrapping_add((sx(*i, *w) as u64).wrapping_mul(*sc)) as u128),
                            _ => {
                                let p = self.e(&r, 64);
                                let i = self.e(&iv, *w);
                                let i = self.cx.sext(i, 64);
                                let k = self.cx.c(*sc as u128, 64);
                                let x = self.cx.bin(B::Mul, i, k);
                                let x = self.cx.bin(B::Add, p, x);
                                self.v(x)
                            }
                        };
                    }
                    set!(*d, r);
                }
                I::Alloca(d, sz, al, n) => {
                    let k = match get!(n) { Val::C(c) => c as u64, _ => return Err(End::Unsupported("alloca size".into())) };
                    let a = st.sp.next_multiple_of((*al).max(8));
                    st.sp = a + sz * k;
                    if st.sp > STACK_BASE + STACK_SIZE - 4096 { return Err(End::Fault("stack overflow".into())); }
                    st.stack_objs.push((a, sz * k));
                    set!(*d, Val::C(a as u128));
                }
                I::Select(t, d, c, a, b, vecc) => {
                    let cv = get!(c);
                    let (x, y) = (get!(a), get!(b));
                    let r = if *vecc {
                        match (&cv, &x, &y) {
                            (Val::A(cs), Val::A(xs), Val::A(ys)) => {
                                let w = t.elem(0).bits();
                                let mut out = vec![];
                                for i in 0..cs.len() {
                                    let c = self.e(&cs[i], 1);
                                    let p = self.e(&xs[i], w);
                                    let q = self.e(&ys[i], w);
                                    let r = self.sel(st, c, p, q)?;
                                    out.push(self.v(r));
                                }
                                Val::A(Rc::new(out))
                            }
                            _ => return Err(End::Unsupported("vector select".into())),
                        }
                    } else {
                        match cv {
                            Val::C(k) => if k & 1 == 1 { x } else { y },
                            Val::E(ce) => {
                                let same = matches!((&x, &y), (Val::C(p), Val::C(q)) if p == q) || matches!((&x, &y), (Val::E(p), Val::E(q)) if p == q);
                                if same { x }
                                else if t.scalar() && *t != Ty::Ptr {
                                    let w = t.bits();
                                    let p = self.e(&x, w);
                                    let q = self.e(&y, w);
                                    let r = self.sel(st, ce, p, q)?;
                                    self.v(r)
                                } else if self.decide(st, ce)? { x } else { y }
                            }
                            _ => return Err(End::Unsupported("select".into())),
                        }
                    };
                    set!(*d, r);
                }
                I::ExtractV(d, a, ix) => {
                    let mut v = get!(a);
                    for i in ix { v = match v { Val::A(vs) => vs[*i].clone(), _ => return Err(End::Unsupported("extractvalue".into())) }; }
                    set!(*d, v);
                }
                I::InsertV(d, a, x, ix, t) => {
                    let base = get!(a);
                    let v = get!(x);
                    fn ins(b: &Val, t: &Ty, ix: &[usize], v: Val) -> Val {
                        if ix.is_empty() { return v; }
                        let mut vs: Vec<Val> = match b { Val::A(vs) => (**vs).clone(), _ => match P::zero(t) { Val::A(vs) => (*vs).clone(), _ => vec![] } };
                        vs[ix[0]] = ins(&vs[ix[0]].clone(), t.elem(ix[0]), &ix[1..], v);
                        Val::A(Rc::new(vs))
                    }
                    let r = ins(&base, t, ix, v);
                    set!(*d, r);
                }
                I::ExtractE(d, a, i) => {
                    let (v, iv) = (get!(a), get!(i));
                    let k = self.cv(st, &iv)? as usize;
                    match v { Val::A(vs) => set!(*d, vs[k].clone()), _ => return Err(End::Unsupported("extractelement".into())) }
                }
                I::InsertE(d, a, x, i) => {
                    let (v, xv, iv) = (get!(a), get!(x), get!(i));
                    let k = self.cv(st, &iv)? as usize;
                    match v { Val::A(vs) => { let mut w = (*vs).clone(); w[k] = xv; set!(*d, Val::A(Rc::new(w))) } _ => return Err(End::Unsupported("insertelement".into())) }
                }
                I::Shuffle(d, a, b, m) => {
                    match (get!(a), get!(b)) {
                        (Val::A(x), Val::A(y)) => {
                            let r = m.iter().map(|i| { let i = *i as usize; if i < x.len() { x[i].clone() } else { y[(i - x.len()).min(y.len() - 1)].clone() } }).collect();
                            set!(*d, Val::A(Rc::new(r)))
                        }
                        _ => return Err(End::Unsupported("shuffle".into())),
                    }
                }
                I::Copy(d, a) => { let v = get!(a); set!(*d, v); }
                I::Nop => {}
                I::Rmw(op, t, d, p, v) => {
                    let (a, x) = (get!(p), get!(v));
                    let old = self.load_ty(st, t, &a)?;
                    let w = t.bits();
                    let (oe, xe) = (self.e(&old, w), self.e(&x, w));
                    let ne = match op {
                        Rmw::Xchg => xe,
                        Rmw::Add => self.cx.bin(B::Add, oe, xe),
                        Rmw::Sub => self.cx.bin(B::Sub, oe, xe),
                        Rmw::And => self.cx.bin(B::And, oe, xe),
                        Rmw::Or => self.cx.bin(B::Or, oe, xe),
                        Rmw::Xor => self.cx.bin(B::Xor, oe, xe),
                        Rmw::Nand => { let y = self.cx.bin(B::And, oe, xe); self.cx.not(y) }
                        Rmw::UMax => { let c = self.cx.bin(B::Ult, oe, xe); self.cx.ite(c, xe, oe) }
                        Rmw::UMin => { let c = self.cx.bin(B::Ult, oe, xe); self.cx.ite(c, oe, xe) }
                        Rmw::Max => { let c = self.cx.bin(B::Slt, oe, xe); self.cx.ite(c, xe, oe) }
                        Rmw::Min => { let c = self.cx.bin(B::Slt, oe, xe); self.cx.ite(c, oe, xe) }
                    };
                    let nv = self.v(ne);
                    self.store_ty(st, t, &nv, &a)?;
                    set!(*d, old);
                }
                I::CmpXchg(t, d, p, c, n) => {
                    let (a, x, y) = (get!(p), get!(c), get!(n));
                    let old = self.load_ty(st, t, &a)?;
                    let w = t.bits();
                    let (oe, xe) = (self.e(&old, w), self.e(&x, w));
                    let eq = self.cx.eq(oe, xe);
                    let k = self.conc(st, eq)?;
                    if k == 1 { self.store_ty(st, t, &y, &a)?; }
                    set!(*d, Val::A(Rc::new(vec![old, Val::C(k)])));
                }
                I::Br(b) => { self.goto(st, *b); bi = *b as usize; if st.steps & 0xff == 0 { return Ok(false); } continue; }
                I::CondBr(c, a, b) => {
                    let cv = get!(c);
                    let k = match cv { Val::C(k) => k & 1 == 1, Val::E(e) => self.decide(st, e)?, _ => return Err(End::Unsupported("br".into())) };
                    let t = if k { *a } else { *b };
                    self.goto(st, t);
                    bi = t as usize;
                    if st.steps & 0xff == 0 { return Ok(false); }
                    continue;
                }
                I::Switch(w, v, def, cases) => {
                    let x = get!(v);
                    let t = match x {
                        Val::C(k) => cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def),
                        Val::E(e) => {
                            // group the cases by target: one decision per distinct target
                            let mut targets: Vec<(u32, E)> = vec![];
                            for (k, l) in cases {
                                let ke = self.cx.c(*k, *w);
                                let c = self.cx.eq(e, ke);
                                match targets.iter_mut().find(|t| t.0 == *l) { Some(t) => t.1 = self.cx.or(t.1, c), None => targets.push((*l, c)) }
                            }
                            let mut r = None;
                            for (l, c) in targets { if self.decide(st, c)? { r = Some(l); break; } }
                            r.unwrap_or(*def)
                        }
                        _ => return Err(End::Unsupported("switch".into())),
                    };
                    self.goto(st, t);
                    bi = t as usize;
                    continue;
                }
                I::Unreachable => return Err(End::Fault(format!("unreachable executed in {}", f.name))),
                I::Ret(v) => {
                    let rv = match v { Some(o) => Some(get!(o)), None => None };
                    let fr = st.frames.pop().unwrap();
                    st.sp = fr.sp;
                    st.stack_objs.truncate(fr.nobjs);
                    if st.frames.is_empty() { return Ok(true); }
                    if let (Some(d), Some(v)) = (fr.ret, rv) { st.frames.last_mut().unwrap().regs[d as usize] = v; }
                    if let Some(n) = fr.ret_normal { self.goto(st, n); } else { st.frames.last_mut().unwrap().ip += 1; }
                    return Ok(false);
                }
                I::Call(d, rt, callee, args, normal) => {
                    let mut av: Vec<Val> = Vec::with_capacity(args.len());
                    for (_, o) in args { av.push(get!(o)); }
                    let id = match callee {
                        Callee::Fn(i) => *i,
                        Callee::Ind(o) => {
                            let p = get!(o);
                            let a = self.cv(st, &p)? as u64;
                            match self.syms.fn_of_addr(a) { Some(i) => i, None => return Err(End::Fault(format!("call of {a:#x}"))) }
                        }
                        Callee::Asm(s) => {
                            // cpuid and friends: no optional CPU features
                            let r = match rt {
                                Ty::Void => Val::C(0),
                                t if s.contains("cpuid") || s.contains("xgetbv") => P::zero(t),
                                t if s == "\"\"" => { let _ = t; av.first().cloned().unwrap_or(Val::C(0)) }
                                _ => return Err(End::Unsupported(format!("inline asm {s}"))),
                            };
                            if let Some(d) = d { set!(*d, r); }
                            st.frames[fi].ip += 1;
                            continue;
                        }
                    };
                    let h = match self.kind[id as usize] { Some(h) => h, None => { let h = self.classify(id); self.kind[id as usize] = Some(h); h } };
                    match h {
                        H::Fn => {
                            self.push_frame(st, id, av, *d, *normal)?;
                            return Ok(false);
                        }
                        H::Panic => {
                            let loc = self.location(st, av.last());
                            return Err(End::Panic(loc));
                        }
                        H::PanicHead => return Err(End::Panic(self.syms.names[id as usize].clone())),
                        H::Nop => { if let Some(d) = d { set!(*d, P::zero(rt)); } }
                        H::Named => {
                            let name: &'static str = &self.syms.names[id as usize];
                            let r = self.external(st, name, rt, args, &av)?;
                            if let Some(d) = d { set!(*d, r.unwrap_or(Val::C(0))); }
                        }
                        H::None => return Err(End::Unsupported(format!("external function {}", self.syms.names[id as usize]))),
                    }
                    if let Some(n) = normal { self.goto(st, *n); bi = *n as usize; continue; }
                }
                I::Bad(s) => return Err(End::Unsupported(format!("instruction {s} in {}", f.name))),
            }
            st.frames[fi].ip += 1;
        }
    }
    fn location(&mut self, st: &State, v: Option<&Val>) -> String {
        if let Some(Val::C(a)) = v {
            let a = *a as u64;
            if st.mem.ok(a, 24) && a >= GL_BASE && a < FN_BASE {
                let g = |o: u64, n: u64| { let mut v = 0u64; for i in (0..n).rev() { v = (v << 8) | st.mem.byte(a + o + i).0 as u64; } v };
                let (p, l, line) = (g(0, 8), g(8, 8), g(16, 4));
                if l < 400 && st.mem.ok(p, l) { return format!("{}:{}", String::from_utf8_lossy(&st.mem.cbytes(p, l)), line); }
            }
        }
        "unknown location".into()
    }
    fn classify(&self, id: u32) -> H {
        let n = self.syms.names[id as usize].as_str();
        if self.m.fn_at.contains_key(n) {
            if n.contains("4core9panicking9panic_fmt") { return H::Panic; }
            if n.contains("4core9panicking18panic_nounwind_fmt") || n.contains("4core9panicking14panic_nounwind") || n.contains("rust_begin_unwind") || n.contains("18handle_alloc_error") || n.contains("3std7process5abort") || n.contains("rust_panic") || n.contains("19panic_cannot_unwind") { return H::PanicHead; }
            return H::Fn;
        }
        if n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg") || n == "llvm.x86.sse2.pause" || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") || n == "llvm.donothing" { return H::Nop; }
        if n == "abort" || n == "llvm.trap" { return H::PanicHead; }
        H::Named
    }
    fn bin(&mut self, st: &mut State, op: BinOp, t: &Ty, x: &Val, y: &Val) -> R<Val> {
        if let (Val::A(a), Val::A(b)) = (x, y) {
            let et = t.elem(0).clone();
            let mut out = Vec::with_capacity(a.len());
            for i in 0..a.len() { out.push(self.bin(st, op, &et, &a[i], &b[i])?); }
            return Ok(Val::A(Rc::new(out)));
        }
        let w = t.bits();
        let bop = match op {
            BinOp::Add => B::Add, BinOp::Sub => B::Sub, BinOp::Mul => B::Mul, BinOp::UDiv => B::UDiv, BinOp::SDiv => B::SDiv, BinOp::URem => B::URem, BinOp::SRem => B::SRem,
            BinOp::And => B::And, BinOp::Or => B::Or, BinOp::Xor => B::Xor, BinOp::Shl => B::Shl, BinOp::LShr => B::LShr, BinOp::AShr => B::AShr,
            BinOp::FAdd => B::FAdd, BinOp::FSub => B::FSub, BinOp::FMul => B::FMul, BinOp::FDiv => B::FDiv, BinOp::FRem => B::FRem,
        };
        if matches!(bop, B::UDiv | B::SDiv | B::URem | B::SRem) {
            let z = match y { Val::C(c) => *c == 0, Val::E(e) => { let k = self.cx.c(0, w); let c = self.cx.eq(*e, k); self.decide(st, c)? } _ => false };
            if z { return Err(End::Fault("division by zero".into())); }
        }
        if let (Val::C(a), Val::C(b)) = (x, y) { return Ok(Val::C(ev_bin(bop, w, w, *a, *b))); }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let mut r = self.cx.bin(bop, a, b);
        if matches!(bop, B::FAdd | B::FSub | B::FMul | B::FDiv) { r = self.fsimp(st, bop, a, b, r); }
        Ok(self.v(r))
    }
    /// float results pinned by the interval facts of this path become constants
    fn fsimp(&mut self, st: &mut State, op: B, a: E, b: E, r: E) -> E {
        let w = self.cx.w(r);
        if self.cx.konst(r).is_some() || (w != 32 && w != 64) { return r; }
        let i = iv(&self.cx, &st.facts, &mut st.ivm.0, r);
        let k = |f: f64| if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
        if !i.nan && i.lo == i.hi && i.lo != 0.0 { return self.cx.c(k(i.lo), w); }
        let (x, y) = (iv(&self.cx, &st.facts, &mut st.ivm.0, a), iv(&self.cx, &st.facts, &mut st.ivm.0, b));
        let zero = |v: &Iv| !v.nan && v.lo == 0.0 && v.hi == 0.0;
        match op {
            B::FAdd => {
                if zero(&x) && y.nz && !y.nan { return b; }
                if zero(&y) && x.nz && !x.nan { return a; }
            }
            B::FSub => {
                if zero(&y) && x.nz && !x.nan { return a; }
                if !x.nan && x.lo.is_finite() && x.hi.is_finite() {
                    if a == b { return self.cx.c(0, w); }
                    // equal on this path and not both zero
                    let q = self.cx.bin(B::FOeq, a, b);
                    if (x.nz || y.nz) && st.known.contains(&q) { return self.cx.c(0, w); }
                }
                // sign of a difference from a comparison already made on this path
                if i.lo < 0.0 && i.hi > 0.0 && !i.nan {
                    let (l, g) = (self.cx.bin(B::FOle, a, b), self.cx.bin(B::FOle, b, a));
                    let (sl, sg) = (self.cx.bin(B::FOlt, a, b), self.cx.bin(B::FOlt, b, a));
                    let (nsl, nsg) = (self.cx.not(sl), self.cx.not(sg));
                    let mut le = st.known.contains(&l) || st.known.contains(&sl) || st.known.contains(&nsg);
                    let mut ge = st.known.contains(&g) || st.known.contains(&sg) || st.known.contains(&nsl);
                    if !le && !ge { le = self.ordered(st, a, b); ge = !le && self.ordered(st, b, a); }
                    if le || ge {
                        let f = Rc::make_mut(&mut st.facts);
                        let old = f.get(&r).copied().unwrap_or(i);
                        f.insert(r, old.meet(if le { Iv { lo: f64::NEG_INFINITY, hi: 0.0, nan: false, nz: false } } else { Iv { lo: 0.0, hi: f64::INFINITY, nan: false, nz: false } }));
                        st.ivm.0.clear();
                    }
                }
            }
            B::FMul | B::FDiv => if zero(&i) {
                let sg = |e: E, v: &Iv| match self.cx.konst(e) { Some(c) => Some(c >> (w - 1) == 1), None => if v.nan || !v.nz { None } else if v.lo >= 0.0 { Some(false) } else if v.hi <= 0.0 { Some(true) } else { None } };
                if let (Some(p), Some(q)) = (sg(a, &x), sg(b, &y)) { return self.cx.c(if p != q { 1u128 << (w - 1) } else { 0 }, w); }
            },
            _ => {}
        }
        r
    }
    /// does a <= b follow from the comparisons on this path by transitivity?
    fn ordered(&mut self, st: &mut State, a: E, b: E) -> bool {
        let mut edges: Vec<(E, E)> = vec![];
        for e in st.known.iter() {
            match self.cx.nodes[*e as usize] {
                N::Bin(B::FOle | B::FOlt, x, y) => edges.push((x, y)),
                N::Bin(B::FOeq, x, y) => { edges.push((x, y)); edges.push((y, x)); }
                _ => if let Some(k) = self.cx.is_not(*e) { if let N::Bin(B::FOle | B::FOlt, x, y) = self.cx.nodes[k as usize] {
                    if !iv(&self.cx, &st.facts, &mut st.ivm.0, x).nan && !iv(&self.cx, &st.facts, &mut st.ivm.0, y).nan { edges.push((y, x)); }
                } },
            }
        }
        let mut seen = vec![a];
        let mut i = 0;
        while i < seen.len() {
            if seen[i] == b { return true; }
            for (x, y) in &edges { if *x == seen[i] && !seen.contains(y) && self.cx.konst(*y).is_none() { seen.push(*y); } }
            i += 1;
        }
        false
    }
    fn icmp(&mut self, c: ICmp, t: &Ty, x: &Val, y: &Val) -> Val {
        if let (Val::A(a), Val::A(b)) = (x, y) {
            let et = t.elem(0).clone();
            return Val::A(Rc::new((0..a.len()).map(|i| self.icmp(c, &et, &a[i], &b[i])).collect()));
        }
        let w = t.bits();
        if let (Val::C(a), Val::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sx(a, w), sx(b, w));
            let r = match c { ICmp::Eq => a == b, ICmp::Ne => a != b, ICmp::Ugt => a > b, ICmp::Uge => a >= b, ICmp::Ult => a < b, ICmp::Ule => a <= b, ICmp::Sgt => sa > sb, ICmp::Sge => sa >= sb, ICmp::Slt => sa < sb, ICmp::Sle => sa <= sb };
            return Val::C(r as u128);
        }
        let (a, b) = (self.e(x, w), self.e(y, w));
        let r = match c {
            ICmp::Eq => self.cx.eq(a, b),
            ICmp::Ne => { let q = self.cx.eq(a, b); self.cx.not(q) }
            ICmp::Ugt => self.cx.bin(B::Ult, b, a),
            ICmp::Uge => self.cx.bin(B::Ule, b, a),
            ICmp::Ult => self.cx.bin(B::Ult, a, b),
            ICmp::Ule => self.cx.bin(B::Ule, a, b),
            ICmp::Sgt => self.cx.bin(B::Slt, b, a),
            ICmp::Sge => self.cx.bin(B::Sle, b, a),
            ICmp::Slt => self.cx.bin(B::Slt, a, b),
            ICmp::Sle => self.cx.bin(B::Sle, a, b),
        };
        self.v(r)
    }
    fn fcmp(&mut self, c: FCmp, t: &Ty, x: &Val, y: &Val) -> Val {
        if let (Val::A(a), Val::A(b)) = (x, y) {
            let et = t.elem(0).clone();
            return Val::A(Rc::new((0..a.len()).map(|i| self.fcmp(c, &et, &a[i], &b[i])).collect()));
        }
        let w = t.bits();
        let (a, b) = (self.e(x, w), self.e(y, w));
        let cx = &mut self.cx;
        let na = cx.un(U::FIsNan, a, 1);
        let nb = cx.un(U::FIsNan, b, 1);
        let uno = cx.or(na, nb);
        let r = match c {
            FCmp::False => cx.c(0, 1),
            FCmp::True => cx.c(1, 1),
            FCmp::Oeq => cx.bin(B::FOeq, a, b),
            FCmp::Ogt => cx.bin(B::FOlt, b, a),
            FCmp::Oge => cx.bin(B::FOle, b, a),
            FCmp::Olt => cx.bin(B::FOlt, a, b),
            FCmp::Ole => cx.bin(B::FOle, a, b),
            FCmp::One => { let l = cx.bin(B::FOlt, a, b); let g = cx.bin(B::FOlt, b, a); cx.or(l, g) }
            FCmp::Ord => cx.not(uno),
            FCmp::Uno => uno,
            FCmp::Ueq => { let l = cx.bin(B::FOlt, a, b); let g = cx.bin(B::FOlt, b, a); let o = cx.or(l, g); cx.not(o) }
            FCmp::Ugt => { let q = cx.bin(B::FOle, a, b); cx.not(q) }
            FCmp::Uge => { let q = cx.bin(B::FOlt, a, b); cx.not(q) }
            FCmp::Ult => { let q = cx.bin(B::FOle, b, a); cx.not(q) }
            FCmp::Ule => { let q = cx.bin(B::FOlt, b, a); cx.not(q) }
            FCmp::Une => { let q = cx.bin(B::FOeq, a, b); cx.not(q) }
        };
        self.v(r)
    }
    fn cast(&mut self, c: Cast, ft: &Ty, tt: &Ty, x: &Val) -> R<Val> {
        if c == Cast::Bit {
            match (ft, tt) {
                (Ty::Vec(..), Ty::Vec(n, et)) => {
                    // element-wise if widths agree, otherwise regroup through bits
                    if ft.count() as u64 == *n { return Ok(x.clone()); }
                    let w = ft.count() as u32 * ft.elem(0).bits();
                    if w > 128 { return self.rebits(x, ft, *n as usize, et.bits()); }
                    let f = self.flatten(x, ft);
                    return Ok(self.unflatten(&f, w, *n as usize, et.bits()));
                }
                (Ty::Vec(..), _) => return Ok(self.flatten(x, ft)),
                (_, Ty::Vec(n, et)) => { let w = ft.bits(); return Ok(self.unflatten(x, w, *n as usize, et.bits())); }
                _ => {
                    let (wf, wt) = (ft.bits(), tt.bits());
                    if wf == wt { return Ok(x.clone()); }
                    return Ok(match x { Val::C(v) => Val::C(v & mask(wt)), Val::E(e) => { let r = if wt < wf { self.cx.ext(*e, 0, wt) } else { self.cx.zext(*e, wt) }; self.v(r) } a => a.clone() });
                }
            }
        }
        if let Val::A(a) = x {
            let (fe, te) = (ft.elem(0).clone(), tt.elem(0).clone());
            let mut out = vec![];
            for v in a.iter() { out.push(self.cast(c, &fe, &te, v)?); }
            return Ok(Val::A(Rc::new(out)));
        }
        let (wf, wt) = (ft.bits(), tt.bits());
        if let Val::C(v) = x {
            match c {
                Cast::Trunc => return Ok(Val::C(v & mask(wt))),
                Cast::ZExt => return Ok(Val::C(*v)),
                Cast::SExt => return Ok(Val::C((sx(*v, wf) as u128) & mask(wt))),
                _ => {}
            }
        }
        let e = self.e(x, wf);
        let r = match c {
            Cast::Trunc => self.cx.ext(e, 0, wt),
            Cast::ZExt => self.cx.zext(e, wt),
            Cast::SExt => self.cx.sext(e, wt),
            Cast::FpExt => self.cx.un(U::FExt, e, wt),
            Cast::FpTrunc => self.cx.un(U::FTrunc, e, wt),
            Cast::SiToFp => self.cx.un(U::SiToFp, e, wt),
            Cast::UiToFp => self.cx.un(U::UiToFp, e, wt),
            Cast::FpToSi => self.cx.un(U::FToSiSat, e, wt),
            Cast::FpToUi => self.cx.un(U::FToUiSat, e, wt),
            Cast::Bit => unreachable!(),
        };
        Ok(self.v(r))
    }
    fn rebits(&mut self, x: &Val, ft: &Ty, n: usize, ew: u32) -> R<Val> {
        // vectors wider than 128 bits: regroup element-wise
        let fw = ft.elem(0).bits();
        let vs = match x { Val::A(v) => v.clone(), _ => return Err(End::Unsupported("bitcast".into())) };
        let mut out = vec![];
        for i in 0..n {
            let lo = i as u32 * ew;
            if fw >= ew {
                let src = (lo / fw) as usize;
                let e = self.e(&vs[src], fw);
                let r = self.cx.ext(e, lo % fw, ew);
                out.push(self.v(r));
            } else {
                let k = ew / fw;
                let mut acc: Option<E> = None;
                for j in 0..k { let e = self.e(&vs[(lo / fw + j) as usize], fw); acc = Some(match acc { None => e, Some(l) => self.cx.bin(B::Concat, e, l) }); }
                let r = acc.unwrap();
                out.push(self.v(r));
            }
        }
        Ok(Val::A(Rc::new(out)))
    }
    pub fn malloc(&mut self, st: &mut State, n: u64, al: u64) -> u64 {
        let a = st.brk.next_multiple_of(al.max(16));
        st.brk = a + n.max(1) + 16;
        Rc::make_mut(&mut st.allocs).push((a, n));
        a
    }
    fn cstr(&mut self, st: &mut State, p: &Val, n: &Val) -> R<String> {
        let (a, l) = (self.cv(st, p)? as u64, self.cv(st, n)? as u64);
        Ok(String::from_utf8_lossy(&st.mem.cbytes(a, l)).into_owned())
    }
    fn fresh(&mut self, st: &mut State, name: String, w: u32, isf: bool) -> E {
        let k = st.inputs.iter().filter(|(n, _)| *n == name || n.starts_with(&format!("{name}#"))).count();
        let nm = if k == 0 { name } else { format!("{name}#{k}") };
        let e = self.cx.var(&nm, w, isf);
        st.inputs.push((nm, e));
        e
    }
    fn do_assert(&mut self, st: &mut State, c: Val, msg: String) -> R<()> {
        st.asserts += 1;
        match c {
            Val::C(1) => { self.rep.asserts_static += 1; Ok(()) }
            Val::C(_) => { self.path_violation(st, format!("assertion failed: {msg}")); Err(End::Killed) }
            Val::E(e) => {
                if st.known.contains(&e) { self.rep.asserts_static += 1; return Ok(()); }
                let ne = self.cx.not(e);
                let by_bounds = truth(&self.cx, &st.facts, &mut st.ivm.0, e, 0) == Some(true);
                if let Some(m) = &st.model { if self.eval_model(&m.clone(), ne) == 1 { let m = (**m).clone(); self.rep.violations.push(Violation { kind: format!("assertion failed: {msg}"), model: m, inputs: st.inputs.clone() }); return Err(End::Killed); } }
                self.rep.asserts_solver += 1;
                match self.solve_pc(st, Some(ne), if by_bounds { self.lim.query_ms.min(2000) } else { self.lim.query_ms }) {
                    Res::Unsat => Ok(()),
                    Res::Sat(m) => {
                        if st.model.is_some() {
                            let m = self.merge(st, m);
                            self.rep.violations.push(Violation { kind: format!("assertion failed: {msg}"), model: m, inputs: st.inputs.clone() });
                        } else {
                            // path feasibility itself is not validated: decide the whole conjunction
                            let mut o = st.clone();
                            self.add_pc(&mut o, ne);
                            self.path_violation(&o, format!("assertion failed: {msg}"));
                        }
                        self.add_pc(st, e);
                        Ok(())
                    }
                    Res::Unknown if by_bounds => { self.rep.asserts_interval += 1; self.rep.asserts_solver -= 1; self.add_pc(st, e); Ok(()) }
                    Res::Unknown => {
                        if st.model.is_none() { let mut o = st.clone(); self.add_pc(&mut o, ne); self.path_violation(&o, format!("assertion failed: {msg}")); }
                        else {
                            if self.trace { let t = self.show(&st.facts, e, 14); eprintln!("assert unknown: {msg}: {t}"); }
                            if self.rep.inconclusive.len() < 50 { self.rep.inconclusive.push(format!("solver gave no answer for: {msg}")); }
                        }
                        self.add_pc(st, e);
                        Ok(())
                    }
                }
            }
            _ => Err(End::Unsupported("assert".into())),
        }
    }
    fn f_minmax(&mut self, st: &mut State, a: E, b: E, max: bool) -> R<E> {
        // IEEE minimumNumber/maximumNumber as used by f32::min/max (NaN operand is ignored)
        let lt = if max { self.cx.bin(B::FOlt, a, b) } else { self.cx.bin(B::FOlt, b, a) };
        let nb = self.cx.un(U::FIsNan, b, 1);
        let na = self.cx.un(U::FIsNan, a, 1);
        let (mut na, mut nb) = (na, nb);
        if let Some(k) = self.quick(st, na) { na = self.cx.c(k as u128, 1); }
        if let Some(k) = self.quick(st, nb) { nb = self.cx.c(k as u128, 1); }
        if self.split && self.cx.konst(na).is_none() { let k = self.decide(st, na)?; na = self.cx.c(k as u128, 1); }
        if self.split && self.cx.konst(nb).is_none() { let k = self.decide(st, nb)?; nb = self.cx.c(k as u128, 1); }
        if self.cx.konst(na) == Some(1) { return Ok(b); }
        if self.cx.konst(nb) == Some(1) { return Ok(a); }
        let r = self.sel(st, lt, b, a)?;
        let r = self.cx.ite(nb, a, r);
        Ok(self.cx.ite(na, b, r))
    }
    fn external(&mut self, st: &mut State, name: &'static str, rt: &Ty, args: &[(Ty, Op)], av: &[Val]) -> R<Option<Val>> {
        if let Some(n) = name.strip_prefix("llvm.") { return self.intrinsic(st, n, rt, args, av); }
        let none = Ok(None);
        match name {
            "sym_u8" | "sym_u32" | "sym_u64" | "sym_f32" | "sym_bool" => {
                let n = self.cstr(st, &av[0], &av[1])?;
                let (w, f) = match name { "sym_u8" => (8, false), "sym_u32" => (32, false), "sym_u64" => (64, false), "sym_bool" => (1, false), _ => (32, true) };
                let e = self.fresh(st, n, w, f);
                let e = if name == "sym_bool" { self.cx.zext(e, rt.bits()) } else { e };
                Ok(Some(Val::E(e)))
            }
            "sym_choice" => {
                // symbolic choice among k values, resolved by forking
                let n = self.cstr(st, &av[0], &av[1])?;
                let k = self.cv(st, &av[2])?;
                let idx = st.inputs.len();
                // the variable may already exist when this instruction is re-executed after a fork
                let e = self.fresh(st, n, 32, false);
                let kk = self.cx.c(k, 32);
                let c = self.cx.bin(B::Ult, e, kk);
                self.assume(st, c)?;
                // pin the value now: fork once per alternative
                let saved_inputs = st.inputs.clone();
                st.inputs.truncate(idx);
                let v = { let r = self.conc(st, e); st.inputs = saved_inputs; r? };
                Ok(Some(Val::C(v)))
            }
            "sym_param" => { let i = self.cv(st, &av[0])? as usize; Ok(Some(Val::C(*self.params.get(i).unwrap_or(&0) as u128))) }
            "sym_assume" => {
                let c = match &av[0] { Val::C(c) => { if c & 1 == 1 { return none; } return Err(End::AssumeFalse); } Val::E(e) => self.cx.ext(*e, 0, 1), _ => return Err(End::Unsupported("assume".into())) };
                self.assume(st, c)?;
                none
            }
            "sym_assert" => {
                let m = self.cstr(st, &av[1], &av[2])?;
                let c = match &av[0] { Val::C(c) => Val::C(c & 1), Val::E(e) => { let x = self.cx.ext(*e, 0, 1); self.v(x) } a => a.clone() };
                self.do_assert(st, c, m)?;
                none
            }
            "sym_reach" => { let m = self.cstr(st, &av[0], &av[1])?; if !st.reach.contains(&m) { st.reach.push(m); } none }
            "sym_allow_panic" => { let m = self.cstr(st, &av[0], &av[1])?; st.allow_panic = if m == "-" { None } else { Some(m) }; none }
            "sym_observe" => {
                let m = self.cstr(st, &av[0], &av[1])?;
                st.obs.push((m, av[2].clone()));
                none
            }
            "sym_implies_eq_f32" => none,
            "sym_real_begin" => none,
            "malloc" => { let n = self.cv(st, &av[0])? as u64; Ok(Some(cval(self.malloc(st, n, 16) as u128))) }
            "calloc" => { let n = (self.cv(st, &av[0])? * self.cv(st, &av[1])?) as u64; Ok(Some(cval(self.malloc(st, n, 16) as u128))) }
            "posix_memalign" => { let (al, n) = (self.cv(st, &av[1])? as u64, self.cv(st, &av[2])? as u64); let a = self.malloc(st, n, al); self.store_addr(st, &av[0], 8, &cval(a as u128))?; Ok(Some(cval(0))) }
            "aligned_alloc" | "memalign" => { let (al, n) = (self.cv(st, &av[0])? as u64, self.cv(st, &av[1])? as u64); Ok(Some(cval(self.malloc(st, n, al) as u128))) }
            "realloc" => {
                let (p, n) = (self.cv(st, &av[0])? as u64, self.cv(st, &av[1])? as u64);
                let old = if p == 0 { 0 } else { self.object_of(st, p).map(|o| o.1).unwrap_or(0) };
                let a = self.malloc(st, n, 16);
                st.mem.copy(a, p, old.min(n));
                Ok(Some(cval(a as u128)))
            }
            "free" => none,
            "memcmp" | "bcmp" => {
                let n = self.cv(st, &av[2])? as u64;
                let (a, b) = (self.cv(st, &av[0])? as u64, self.cv(st, &av[1])? as u64);
                let mut r = self.cx.c(0, 32);
                for i in (0..n).rev() {
                    let (x, y) = (st.mem.load(&mut self.cx, a + i, 1), st.mem.load(&mut self.cx, b + i, 1));
                    if let (Val::C(p), Val::C(q)) = (&x, &y) {
                        if p != q { r = self.cx.c(if p < q { 0xffffffff } else { 1 }, 32); }
                        continue;
                    }
                    let (x, y) = (self.e(&x, 8), self.e(&y, 8));
                    let eq = self.cx.eq(x, y);
                    let one = self.cx.c(1, 32);
                    let ne = if name == "bcmp" { one } else { let lt = self.cx.bin(B::Ult, x, y); let m1 = self.cx.c(0xffffffff, 32); self.cx.ite(lt, m1, one) };
                    r = self.cx.ite(eq, r, ne);
                }
                Ok(Some(self.v(r)))
            }
            "strlen" => {
                let a = self.cv(st, &av[0])? as u64;
                let mut n = 0;
                while st.mem.byte(a + n).0 != 0 { n += 1; }
                Ok(Some(cval(n as u128)))
            }
            "write" => Ok(Some(av[2].clone())),
            "writev" => Ok(Some(cval(1))),
            "getenv" => Ok(Some(cval(0))),
            "getcwd" | "realpath" => Ok(Some(cval(0))),
            "__errno_location" => { let a = self.malloc(st, 8, 8); Ok(Some(cval(a as u128))) }
            "syscall" => {
                let nr = self.cv(st, &av[0])?;
                match nr {
                    318 => { let (p, n) = (self.cv(st, &av[1])? as u64, self.cv(st, &av[2])? as u64); self.fill_random(st, p, n); Ok(Some(cval(n as u128))) }
                    202 => Ok(Some(cval(0))),
                    186 => Ok(Some(cval(4242))),
                    _ => Err(End::Unsupported(format!("syscall {nr}"))),
                }
            }
            "getrandom" => { let (p, n) = (self.cv(st, &av[0])? as u64, self.cv(st, &av[1])? as u64); self.fill_random(st, p, n); Ok(Some(cval(n as u128))) }
            "gettid" => Ok(Some(cval(4242))),
            "pthread_self" => Ok(Some(cval(0x7777))),
            "pthread_key_create" => { st.tls_keys += 1; let k = st.tls_keys; self.store_addr(st, &av[0], 4, &cval(k as u128))?; Ok(Some(cval(0))) }
            "pthread_key_delete" | "pthread_setspecific" => Ok(Some(cval(0))),
            "__cxa_thread_atexit_impl" | "sched_yield" | "poll" | "sigaction" | "mprotect" | "munmap" => Ok(Some(cval(0))),
            "clock_gettime" => { self.store_addr(st, &av[1], 8, &cval(1000))?; let p = self.cv(st, &av[1])?; self.store_addr(st, &cval(p + 8), 8, &cval(0))?; Ok(Some(cval(0))) }
            "sysconf" => Ok(Some(cval(4096))),
            "expf" | "exp" => self.un_f(&av[0], U::FExp, rt),
            "logf" | "log" => self.un_f(&av[0], U::FLn, rt),
            "tanhf" | "tanh" => self.un_f(&av[0], U::FTanh, rt),
            "log1pf" | "log1p" => self.un_f(&av[0], U::FLn1p, rt),
            "expm1f" | "expm1" => self.un_f(&av[0], U::FExpm1, rt),
            "sinf" | "sin" => self.un_f(&av[0], U::FSin, rt),
            "cosf" | "cos" => self.un_f(&av[0], U::FCos, rt),
            "log2f" | "log2" => self.un_f(&av[0], U::FLog2, rt),
            "log10f" | "log10" => self.un_f(&av[0], U::FLog10, rt),
            "powf" | "pow" => { let w = rt.bits(); let (a, b) = (self.e(&av[0], w), self.e(&av[1], w)); let r = self.pow(a, b); Ok(Some(self.v(r))) }
            "fmodf" | "fmod" => { let w = rt.bits(); let (a, b) = (self.e(&av[0], w), self.e(&av[1], w)); let r = self.cx.bin(B::FRem, a, b); Ok(Some(self.v(r))) }
            _ => Err(End::Unsupported(format!("external function {name}"))),
        }
    }
    fn fill_random(&mut self, st: &mut State, p: u64, n: u64) {
        let d: Vec<u8> = (0..n).map(|i| { st.rnd = st.rnd.wrapping_mul(6364136223846793005).wrapping_add(0x9e3779b97f4a7c15 ^ i); (st.rnd >> 40) as u8 }).collect();
        st.mem.set_raw(p, &d);
    }
    fn pow(&mut self, a: E, b: E) -> E {
        // exact identities of IEEE pow
        if let Some(k) = self.cx.konst(b) {
            let w = self.cx.w(b);
            let f = if w == 32 { f32b(k) as f64 } else { f64b(k) };
            if f == 0.0 { let one = if w == 32 { 0x3f800000 } else { 0x3ff0000000000000 }; return self.cx.c(one, w); }
            if f == 1.0 { return a; }
        }
        self.cx.bin(B::FPow, a, b)
    }
    fn un_f(&mut self, a: &Val, op: U, rt: &Ty) -> R<Option<Val>> {
        let w = rt.bits();
        let e = self.e(a, w);
        let r = self.cx.un(op, e, w);
        Ok(Some(self.v(r)))
    }
    fn assume(&mut self, st: &mut State, c: E) -> R<()> {
        if let Some(k) = self.cx.konst(c) { return if k == 1 { Ok(()) } else { Err(End::AssumeFalse) }; }
        if st.known.contains(&c) { return Ok(()); }
        if let Some(m) = &st.model { if self.eval_model(&m.clone(), c) == 1 { self.add_pc(st, c); return Ok(()); } }
        match self.solve_pc(st, Some(c), self.lim.query_ms) {
            Res::Unsat => Err(End::AssumeFalse),
            Res::Sat(m) => { if st.model.is_some() { st.model = Some(Rc::new(self.merge(st, m))); } self.add_pc(st, c); Ok(()) }
            Res::Unknown => { st.hint = st.model.take().or(st.hint.take()); self.add_pc(st, c); Ok(()) }
        }
    }
    fn intrinsic(&mut self, st: &mut State, n: &str, rt: &Ty, args: &[(Ty, Op)], av: &[Val]) -> R<Option<Val>> {
        let base = n.split('.').next().unwrap();
        match base {
            "memcpy" | "memmove" => {
                let l = self.cv(st, &av[2])? as u64;
                if l == 0 { return Ok(None); }
                let (d, s) = (self.cv(st, &av[0])? as u64, self.cv(st, &av[1])? as u64);
                if !st.mem.ok(d, l) || !st.mem.ok(s, l) { return Err(End::Fault(format!("memcpy {d:#x} {s:#x} {l}"))); }
                if l <= 16 { let v = st.mem.load(&mut self.cx, s, l); st.mem.store(&mut self.cx, d, l, &v); } else { st.mem.copy(d, s, l); }
                return Ok(None);
            }
            "memset" => {
                let l = self.cv(st, &av[2])? as u64;
                let d = self.cv(st, &av[0])? as u64;
                if l == 0 { return Ok(None); }
                if !st.mem.ok(d, l) { return Err(End::Fault(format!("memset {d:#x} {l}"))); }
                match &av[1] { Val::C(b) => st.mem.set_raw(d, &vec![*b as u8; l as usize]), v => { for i in 0..l { st.mem.store(&mut self.cx, d + i, 1, v); } } }
                return Ok(None);
            }
            "threadlocal" => return Ok(Some(av[0].clone())),
            "is" if n.starts_with("is.constant") => return Ok(Some(Val::C(0))),
            "expect" => return Ok(Some(av[0].clone())),
            "objectsize" => return Ok(Some(Val::C(u64::MAX as u128))),
            _ => {}
        }
        // element-wise on vectors
        if let (Ty::Vec(..), Val::A(v0)) = (rt, &av[0]) {
            let et = rt.elem(0).clone();
            let mut out = vec![];
            for i in 0..v0.len() {
                let a2: Vec<Val> = av.iter().map(|v| if let Val::A(x) = v { x[i].clone() } else { v.clone() }).collect();
                let args2: Vec<(Ty, Op)> = args.iter().map(|(t, o)| (if let Ty::Vec(..) = t { t.elem(0).clone() } else { t.clone() }, o.clone())).collect();
                out.push(self.intrinsic(st, n, &et, &args2, &a2)?.unwrap());
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        if n.starts_with("vector.reduce.") {
            if let (Val::A(vs), Ty::Vec(..)) = (&av[0], &args[0].0) {
                let et = args[0].0.elem(0).clone();
                let w = et.bits();
                let op = n.split('.').nth(2).unwrap();
                let mut acc = self.e(&vs[0], w);
                for v in &vs[1..] {
                    let e = self.e(v, w);
                    acc = match op {
                        "add" => self.cx.bin(B::Add, acc, e), "or" => self.cx.bin(B::Or, acc, e), "and" => self.cx.bin(B::And, acc, e), "xor" => self.cx.bin(B::Xor, acc, e), "mul" => self.cx.bin(B::Mul, acc, e),
                        "umax" => { let c = self.cx.bin(B::Ult, acc, e); self.cx.ite(c, e, acc) }
                        "umin" => { let c = self.cx.bin(B::Ult, acc, e); self.cx.ite(c, acc, e) }
                        _ => return Err(End::Unsupported(format!("intrinsic {n}"))),
                    };
                }
                return Ok(Some(self.v(acc)));
            }
        }
        let w = args[0].0.bits();
        let mut es: Vec<E> = vec![];
        for (i, v) in av.iter().enumerate() { if args[i].0.scalar() { let e = self.e(v, args[i].0.bits()); es.push(e); } }
        let a = es[0];
        let bb = es.get(1).copied().unwrap_or(a);
        macro_rules! ret { ($e:expr) => {{ let e = $e; return Ok(Some(self.v(e))); }}; }
        match base {
            "umin" => { let c = self.cx.bin(B::Ult, a, bb); ret!(self.cx.ite(c, a, bb)) }
            "umax" => { let c = self.cx.bin(B::Ult, a, bb); ret!(self.cx.ite(c, bb, a)) }
            "smin" => { let c = self.cx.bin(B::Slt, a, bb); ret!(self.cx.ite(c, a, bb)) }
            "smax" => { let c = self.cx.bin(B::Slt, a, bb); ret!(self.cx.ite(c, bb, a)) }
            "abs" => { let z = self.cx.c(0, w); let c = self.cx.bin(B::Slt, a, z); let ng = self.cx.bin(B::Sub, z, a); ret!(self.cx.ite(c, ng, a)) }
            "usub" if n.starts_with("usub.sat") => { let c = self.cx.bin(B::Ult, a, bb); let d = self.cx.bin(B::Sub, a, bb); let z = self.cx.c(0, w); ret!(self.cx.ite(c, z, d)) }
            "uadd" if n.starts_with("uadd.sat") => { let s = self.cx.bin(B::Add, a, bb); let c = self.cx.bin(B::Ult, s, a); let m = self.cx.c(mask(w), w); ret!(self.cx.ite(c, m, s)) }
            "sadd" | "ssub" if n.contains(".sat") => {
                let (x, y) = (self.cx.sext(a, w + 1), self.cx.sext(bb, w + 1));
                let s = self.cx.bin(if base == "sadd" { B::Add } else { B::Sub }, x, y);
                let hi = self.cx.c(mask(w) >> 1, w + 1);
                let lo = self.cx.c(mask(w + 1) & !(mask(w) >> 1), w + 1);
                let c1 = self.cx.bin(B::Slt, hi, s);
                let c2 = self.cx.bin(B::Slt, s, lo);
                let r = self.cx.ite(c2, lo, s);
                let r = self.cx.ite(c1, hi, r);
                ret!(self.cx.ext(r, 0, w))
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if n.contains("with.overflow") => {
                let (r, o) = self.overflow(base, a, bb, w);
                let (rv, ov) = (self.v(r), self.v(o));
                Ok(Some(Val::A(Rc::new(vec![rv, ov]))))
            }
            "ctpop" => {
                if let Some(k) = self.cx.konst(a) { return Ok(Some(Val::C(k.count_ones() as u128))); }
                let mut s = self.cx.c(0, w);
                for i in 0..w { let b = self.cx.ext(a, i, 1); let z = self.cx.zext(b, w); s = self.cx.bin(B::Add, s, z); }
                ret!(s)
            }
            "ctlz" => {
                if let Some(k) = self.cx.konst(a) { return Ok(Some(Val::C(if k == 0 { w as u128 } else { (k.leading_zeros() - (128 - w)) as u128 }))); }
                let mut r = self.cx.c(w as u128, w);
                for i in 0..w { let b = self.cx.ext(a, i, 1); let k = self.cx.c((w - 1 - i) as u128, w); r = self.cx.ite(b, k, r); }
                ret!(r)
            }
            "cttz" => {
                if let Some(k) = self.cx.konst(a) { return Ok(Some(Val::C(if k == 0 { w as u128 } else { k.trailing_zeros() as u128 }))); }
                let mut r = self.cx.c(w as u128, w);
                for i in (0..w).rev() { let b = self.cx.ext(a, i, 1); let k = self.cx.c(i as u128, w); r = self.cx.ite(b, k, r); }
                // positions found by word-at-a-time byte searches: nearly always determined by the path
                if w == 64 { return Ok(Some(Val::C(self.conc(st, r)?))); }
                ret!(r)
            }
            "bswap" => {
                let mut acc: Option<E> = None;
                for i in 0..w / 8 { let b = self.cx.ext(a, 8 * i, 8); acc = Some(match acc { None => b, Some(h) => self.cx.bin(B::Concat, h, b) }); }
                ret!(acc.unwrap())
            }
            "bitreverse" => {
                let mut acc: Option<E> = None;
                for i in 0..w { let b = self.cx.ext(a, i, 1); acc = Some(match acc { None => b, Some(h) => self.cx.bin(B::Concat, h, b) }); }
                ret!(acc.unwrap())
            }
            "fshl" | "fshr" => {
                let s = self.cx.c(w as u128, w);
                let sh = self.cx.bin(B::URem, es[2], s);
                let cc = self.cx.bin(B::Concat, a, bb);
                let sh2 = self.cx.zext(sh, 2 * w);
                if w > 64 { return Err(End::Unsupported("wide funnel shift".into())); }
                if base == "fshl" { let r = self.cx.bin(B::Shl, cc, sh2); ret!(self.cx.ext(r, w, w)) } else { let r = self.cx.bin(B::LShr, cc, sh2); ret!(self.cx.ext(r, 0, w)) }
            }
            "ucmp" | "scmp" => {
                let rw = rt.bits();
                let (l, g) = if base == "ucmp" { (self.cx.bin(B::Ult, a, bb), self.cx.bin(B::Ult, bb, a)) } else { (self.cx.bin(B::Slt, a, bb), self.cx.bin(B::Slt, bb, a)) };
                let (m1, z, p1) = (self.cx.c(mask(rw), rw), self.cx.c(0, rw), self.cx.c(1, rw));
                let r = self.cx.ite(g, p1, z);
                ret!(self.cx.ite(l, m1, r))
            }
            "fabs" => { let k = self.cx.c(mask(w - 1), w); ret!(self.cx.bin(B::And, a, k)) }
            "copysign" => {
                let k = self.cx.c(mask(w - 1), w);
                let x = self.cx.bin(B::And, a, k);
                let k2 = self.cx.c(1u128 << (w - 1), w);
                let y = self.cx.bin(B::And, bb, k2);
                ret!(self.cx.bin(B::Or, x, y))
            }
            "minnum" | "minimumnum" => { let r = self.f_minmax(st, a, bb, false)?; ret!(r) },
            "maxnum" | "maximumnum" => { let r = self.f_minmax(st, a, bb, true)?; ret!(r) },
            "sqrt" => ret!(self.cx.un(U::FSqrt, a, w)),
            "floor" => ret!(self.cx.un(U::FFloor, a, w)),
            "ceil" => ret!(self.cx.un(U::FCeil, a, w)),
            "trunc" => ret!(self.cx.un(U::FTruncInt, a, w)),
            "round" => ret!(self.cx.un(U::FRound, a, w)),
            "roundeven" | "rint" | "nearbyint" => ret!(self.cx.un(U::FRoundEven, a, w)),
            "exp" => ret!(self.cx.un(U::FExp, a, w)),
            "exp2" => ret!(self.cx.un(U::FExp2, a, w)),
            "log" => ret!(self.cx.un(U::FLn, a, w)),
            "log2" => ret!(self.cx.un(U::FLog2, a, w)),
            "log10" => ret!(self.cx.un(U::FLog10, a, w)),
            "sin" => ret!(self.cx.un(U::FSin, a, w)),
            "cos" => ret!(self.cx.un(U::FCos, a, w)),
            "tanh" => ret!(self.cx.un(U::FTanh, a, w)),
            "pow" => ret!(self.pow(a, bb)),
            "powi" => {
                let k = match self.cx.konst(bb) { Some(k) => sx(k, 32) as i32, None => return Err(End::Unsupported("symbolic powi".into())) };
                let one = if w == 32 { 0x3f800000 } else { 0x3ff0000000000000 };
                // compiler-rt's algorithm: square and multiply
                let mut r = self.cx.c(one, w);
                let mut x = a;
                let mut b = k;
                loop {
                    if b & 1 != 0 { r = self.cx.bin(B::FMul, r, x); }
                    b /= 2;
                    if b == 0 { break; }
                    x = self.cx.bin(B::FMul, x, x);
                }
                if k < 0 { let o = self.cx.c(one, w); r = self.cx.bin(B::FDiv, o, r); }
                ret!(r)
            }
            "fma" => { let e = if let (Some(x), Some(y), Some(z)) = (self.cx.konst(a), self.cx.konst(bb), self.cx.konst(es[2])) { let v = if w == 32 { f32b(x).mul_add(f32b(y), f32b(z)).to_bits() as u128 } else { f64b(x).mul_add(f64b(y), f64b(z)).to_bits() as u128 }; self.cx.c(v, w) } else { self.cx.mk(N::Fma(a, bb, es[2]), w) }; ret!(e) }
            "fmuladd" => { let p = self.cx.bin(B::FMul, a, bb); ret!(self.cx.bin(B::FAdd, p, es[2])) }
            "fptoui" => ret!(self.cx.un(U::FToUiSat, a, rt.bits())),
            "fptosi" => ret!(self.cx.un(U::FToSiSat, a, rt.bits())),
            "is" if n.starts_with("is.fpclass") => {
                let mk = self.cx.konst(bb).unwrap_or(0) as u32;
                let nan = self.cx.un(U::FIsNan, a, 1);
                let sign = self.cx.ext(a, w - 1, 1);
                let km = self.cx.c(mask(w - 1), w);
                let mag = self.cx.bin(B::And, a, km);
                let (inf, minn) = if w == 32 { (0x7f800000u128, 0x00800000u128) } else { (0x7ff0000000000000, 0x0010000000000000) };
                let ki = self.cx.c(inf, w);
                let kn = self.cx.c(minn, w);
                let z = self.cx.c(0, w);
                let isinf = self.cx.eq(mag, ki);
                let iszero = self.cx.eq(mag, z);
                let ltn = self.cx.bin(B::Ult, mag, kn);
                let nz = self.cx.not(iszero);
                let sub = self.cx.and(ltn, nz);
                let lti = self.cx.bin(B::Ult, mag, ki);
                let gen = self.cx.not(ltn);
                let norm = self.cx.and(lti, gen);
                let ns = self.cx.not(sign);
                let mut acc = self.cx.c(0, 1);
                if mk & 3 == 3 { acc = self.cx.or(acc, nan); }
                else if mk & 3 != 0 { return Err(End::Unsupported("is.fpclass snan/qnan".into())); }
                for (bit, c, neg) in [(2, isinf, true), (3, norm, true), (4, sub, true), (5, iszero, true), (6, iszero, false), (7, sub, false), (8, norm, false), (9, isinf, false)] {
                    if mk >> bit & 1 == 1 { let s = if neg { sign } else { ns }; let x = self.cx.and(c, s); acc = self.cx.or(acc, x); }
                }
                ret!(acc)
            }
            _ => Err(End::Unsupported(format!("intrinsic llvm.{n}"))),
        }
    }
    fn overflow(&mut self, base: &str, a: E, b: E, w: u32) -> (E, E) {
        let op = &base[1..];
        let signed = base.starts_with('s');
        let bop = match op { "add" => B::Add, "sub" => B::Sub, _ => B::Mul };
        let r = self.cx.bin(bop, a, b);
        if let (Some(x), Some(y)) = (self.cx.konst(a), self.cx.konst(b)) {
            let o = if signed {
                let (x, y) = (sx(x, w), sx(y, w));
                let v = match op { "add" => x.checked_add(y), "sub" => x.checked_sub(y), _ => x.checked_mul(y) };
                match v { Some(v) => sx((v as u128) & mask(w), w) != v, None => true }
            } else {
                match op { "add" => x.checked_add(y).map(|v| v > mask(w)).unwrap_or(true), "sub" => x < y, _ => x.checked_mul(y).map(|v| v > mask(w)).unwrap_or(true) }
            };
            let o = self.cx.c(o as u128, 1);
            return (r, o);
        }
        let o = match (signed, op) {
            (false, "add") => self.cx.bin(B::Ult, r, a),
            (false, "sub") => self.cx.bin(B::Ult, a, b),
            _ => {
                let w2 = if op == "mul" { 2 * w } else { w + 1 };
                let (x, y) = if signed { (self.cx.sext(a, w2), self.cx.sext(b, w2)) } else { (self.cx.zext(a, w2), self.cx.zext(b, w2)) };
                let full = self.cx.bin(bop, x, y);
                let back = if signed { self.cx.sext(r, w2) } else { self.cx.zext(r, w2) };
                let e = self.cx.eq(full, back);
                self.cx.not(e)
            }
        };
        (r, o)
    }
}
