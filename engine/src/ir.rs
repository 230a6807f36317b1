//! Lazy parser for the textual LLVM IR of the whole program.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Struct(Rc<Vec<Ty>>, bool),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr)
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => { let b = (*n * t.bits() as u64).div_ceil(8); b.next_power_of_two() }
            _ => 1,
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => self.store().next_multiple_of(self.align()),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in f.iter() {
                    if !packed { o = o.next_multiple_of(t.align()); }
                    o += t.size();
                }
                if !packed { o = o.next_multiple_of(self.align()); }
                o
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (*n * t.bits() as u64).div_ceil(8).next_power_of_two(),
            _ => 0,
        }
    }
    pub fn store(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => (self.bits() as u64).div_ceil(8),
            Ty::Vec(n, t) => (*n * t.bits() as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (k, t) in f.iter().enumerate() {
                    if !packed { o = o.next_multiple_of(t.align()); }
                    if k == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field_off"),
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => panic!("elem of {self:?}"),
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    E(u32),
    A(Rc<Vec<Val>>),
}
#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, FpExt, FpTrunc, SiToFp, UiToFp, FpToSi, FpToUi, Bit }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum ICmp { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FCmp { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }
#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32), // symbol id
    Ind(Op),
    Asm(String),
}
#[derive(Debug)]
pub enum I {
    Bin(BinOp, Ty, u32, Op, Op),
    FNeg(Ty, u32, Op),
    ICmp(ICmp, Ty, u32, Op, Op),
    FCmp(FCmp, Ty, u32, Op, Op),
    Cast(Cast, Ty, Ty, u32, Op),
    Load(Ty, u32, Op),
    Store(Ty, Op, Op),
    /// base, constant offset, (index, index width, scale)
    Gep(u32, Op, i64, Vec<(Op, u32, u64)>),
    Alloca(u32, u64, u64, Op),
    Call(Option<u32>, Ty, Callee, Vec<(Ty, Op)>, Option<u32>), // trailing: normal destination for invoke
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    Select(Ty, u32, Op, Op, Op, bool),
    ExtractV(u32, Op, Vec<usize>),
    InsertV(u32, Op, Op, Vec<usize>, Ty),
    ExtractE(u32, Op, Op),
    InsertE(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<i64>),
    Copy(u32, Op),
    Rmw(Rmw, Ty, u32, Op, Op),
    CmpXchg(Ty, u32, Op, Op, Op),
    Nop,
    Bad(String),
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>, // dst, (pred block, value)
    pub code: Vec<I>,
    pub dbg: Vec<u32>,
}
#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub sub: u32, // DISubprogram id
    pub id: u32,
}

pub struct Module {
    pub text: &'static [u8],
    pub fn_at: HashMap<&'static str, (usize, usize)>, // name -> byte range of body
    pub globals: Vec<(&'static str, usize, usize)>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub decl: HashMap<&'static str, bool>, // declared functions -> extern_weak
    pub named_ty: HashMap<&'static str, (usize, usize)>,
    pub aliases: HashMap<&'static str, &'static str>,
}
fn name_at(t: &'static [u8], i: usize) -> (&'static str, usize) {
    // t[i] is just after '@' or '%'
    if t[i] == b'"' {
        let mut j = i + 1;
        while t[j] != b'"' { j += 1; }
        (std::str::from_utf8(&t[i + 1..j]).unwrap(), j + 1)
    } else {
        let mut j = i;
        while j < t.len() && (t[j].is_ascii_alphanumeric() || matches!(t[j], b'_' | b'.' | b'$' | b'-')) { j += 1; }
        (std::str::from_utf8(&t[i..j]).unwrap(), j)
    }
}
pub fn index(text: &'static [u8]) -> Module {
    let mut m = Module { text, fn_at: HashMap::new(), globals: vec![], meta: HashMap::new(), decl: HashMap::new(), named_ty: HashMap::new(), aliases: HashMap::new() };
    let n = text.len();
    let mut i = 0;
    let mut cur: Option<(&'static str, usize)> = None;
    while i < n {
        let e = match text[i..].iter().position(|c| *c == b'\n') { Some(k) => i + k, None => n };
        let line = &text[i..e];
        if !line.is_empty() {
            match line[0] {
                b'd' if line.starts_with(b"define ") => {
                    let k = line.iter().position(|c| *c == b'@').unwrap();
                    cur = Some((name_at(text, i + k + 1).0, i));
                }
                b'}' => {
                    if let Some((nm, s)) = cur.take() { m.fn_at.insert(nm, (s, e)); }
                }
                b'd' if line.starts_with(b"declare ") => {
                    let k = line.iter().position(|c| *c == b'@').unwrap();
                    let weak = line.starts_with(b"declare extern_weak");
                    m.decl.insert(name_at(text, i + k + 1).0, weak);
                }
                b'@' => {
                    let (nm, _) = name_at(text, i + 1);
                    let s = std::str::from_utf8(line).unwrap();
                    if s.contains(" alias ") {
                        let k = s.rfind('@').unwrap();
                        m.aliases.insert(nm, name_at(text, i + k + 1).0);
                    } else { m.globals.push((nm, i, e)); }
                }
                b'%' => { let (nm, _) = name_at(text, i + 1); m.named_ty.insert(nm, (i, e)); }
                b'!' if line.len() > 1 && line[1].is_ascii_digit() => {
                    let mut v = 0u32;
                    let mut j = 1;
                    while line[j].is_ascii_digit() { v = v * 10 + (line[j] - b'0') as u32; j += 1; }
                    m.meta.insert(v, (i, e));
                }
                _ => {}
            }
        }
        i = e + 1;
    }
    m
}

/// Symbol table: addresses of functions and globals.
pub struct Syms {
    pub by_name: HashMap<String, u32>,
    pub names: Vec<String>,
    pub addr: Vec<u64>,
}
pub const FN_BASE: u64 = 0x2000_0000;
impl Syms {
    pub fn fn_of_addr(&self, a: u64) -> Option<u32> {
        if a >= FN_BASE && (a - FN_BASE) % 16 == 0 {
            let i = ((a - FN_BASE) / 16) as u32;
            if (i as usize) < self.names.len() && self.addr[i as usize] == a { return Some(i); }
        }
        None
    }
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
    pub syms: &'a Syms,
    pub m: &'a Module,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    pub fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\n' || self.s[self.i] == b'\t') { self.i += 1; }
        if self.s[self.i..].starts_with(b"/*") {
            while self.i < self.s.len() && !self.s[self.i..].starts_with(b"*/") { self.i += 1; }
            self.i = (self.i + 2).min(self.s.len());
            self.ws();
        }
    }
    pub fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() { self.s[self.i] } else { 0 }
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c { self.i += 1; true } else { false }
    }
    pub fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' at ...{}", c as char, self.rest())) }
    }
    pub fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 60)]).into_owned()
    }
    fn is_w(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'+' }
    pub fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && Self::is_w(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    pub fn peek_word(&mut self) -> &'a str {
        self.ws();
        let k = self.i;
        let w = self.word();
        self.i = k;
        w
    }
    pub fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w { self.word(); true } else { false }
    }
    pub fn ident(&mut self) -> String {
        // after % or @
        if self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else {
            let st = self.i;
            while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'$' | b'-')) { self.i += 1; }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    pub fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_ty_word(w: &str) -> bool {
        matches!(w, "void" | "ptr" | "float" | "double" | "half" | "x86_fp80" | "metadata" | "token" | "label")
            || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
    }
    pub fn at_ty(&mut self) -> bool {
        match self.peek() {
            b'{' | b'<' | b'[' => true,
            b'%' => true,
            _ => { let w = self.peek_word(); Self::is_ty_word(w) }
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        match self.peek() {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if !self.eat(b'}') {
                    loop { v.push(self.ty()?); if !self.eat(b',') { break; } }
                    self.expect(b'}')?;
                }
                Ok(Ty::Struct(Rc::new(v), false))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    if let Ty::Struct(f, _) = t { return Ok(Ty::Struct(f, true)); }
                    return Err("packed".into());
                }
                let n: u64 = self.word().parse().map_err(|_| "vec len")?;
                if !self.eat_word("x") { return Err("vec x".into()); }
                let t = self.ty()?;
                self.expect(b'>')?;
                Ok(Ty::Vec(n, Rc::new(t)))
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "arr len")?;
                if !self.eat_word("x") { return Err("arr x".into()); }
                let t = self.ty()?;
                self.expect(b']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            b'%' => {
                self.i += 1;
                let n = self.ident();
                let (s, e) = *self.m.named_ty.get(n.as_str()).ok_or(format!("type %{n}"))?;
                let txt = &self.m.text[s..e];
                let k = txt.windows(6).position(|w| w == b"= type").ok_or("type def")?;
                let mut p = P { s: &txt[k + 6..], i: 0, syms: self.syms, m: self.m };
                p.ty()
            }
            _ => {
                let w = self.word();
                Ok(match w {
                    "void" => Ty::Void,
                    "ptr" => {
                        if self.peek_word() == "addrspace" { self.word(); self.ws(); self.skip_parens(); }
                        Ty::Ptr
                    }
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    _ if w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                    "metadata" | "token" | "label" | "half" | "x86_fp80" => Ty::Other,
                    _ => return Err(format!("type {w:?} at {}", self.rest())),
                })
            }
        }
    }
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => Val::A(Rc::new((0..t.count()).map(|i| Self::zero(t.elem(i))).collect())),
            _ => Val::C(0),
        }
    }
    /// constant of type t (no registers)
    pub fn konst(&mut self, t: &Ty) -> R<Val> {
        match self.peek() {
            b'@' => {
                self.i += 1;
                let n = self.ident();
                let n = self.m.aliases.get(n.as_str()).map(|s| s.to_string()).unwrap_or(n);
                let id = *self.syms.by_name.get(&n).ok_or(format!("symbol @{n}"))?;
                Ok(Val::C(self.syms.addr[id as usize] as u128))
            }
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => {
                self.i += 2;
                let mut v = vec![];
                while self.s[self.i] != b'"' {
                    if self.s[self.i] == b'\\' {
                        let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                        if self.s[self.i + 1] == b'\\' { v.push(Val::C(b'\\' as u128)); self.i += 2; continue; }
                        v.push(Val::C(u8::from_str_radix(h, 16).map_err(|_| "hex")? as u128));
                        self.i += 3;
                    } else { v.push(Val::C(self.s[self.i] as u128)); self.i += 1; }
                }
                self.i += 1;
                Ok(Val::A(Rc::new(v)))
            }
            b'{' | b'[' | b'<' => {
                let mut close = vec![];
                loop {
                    match self.peek() {
                        b'<' => { self.i += 1; close.push(b'>'); if self.peek() != b'{' { break; } }
                        b'{' => { self.i += 1; close.push(b'}'); break; }
                        b'[' => { self.i += 1; close.push(b']'); break; }
                        _ => return Err("agg".into()),
                    }
                }
                let mut v = vec![];
                if self.peek() != *close.last().unwrap() {
                    loop {
                        let et = self.ty()?;
                        v.push(self.konst(&et)?);
                        if !self.eat(b',') { break; }
                    }
                }
                while let Some(c) = close.pop() { self.expect(c)?; }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Ok(Val::C(1)),
                    "false" | "null" | "none" => Ok(Val::C(0)),
                    "undef" | "poison" | "zeroinitializer" => Ok(Self::zero(t)),
                    "splat" => {
                        self.expect(b'(')?;
                        let et = self.ty()?;
                        let v = self.konst(&et)?;
                        self.expect(b')')?;
                        Ok(Val::A(Rc::new(vec![v; t.count()])))
                    }
                    "getelementptr" => {
                        while self.peek() != b'(' { let x = self.word(); if x == "inrange" { self.ws(); self.skip_parens(); } }
                        self.expect(b'(')?;
                        let bt = self.ty()?;
                        self.expect(b',')?;
                        let pt = self.ty()?;
                        let base = self.konst(&pt)?;
                        let mut a = match base { Val::C(v) => v as u64, _ => return Err("gep base".into()) };
                        let mut cur = bt.clone();
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty()?;
                            let v = match self.konst(&it)? { Val::C(v) => crate::expr::sx(v, it.bits()) as i64, _ => return Err("gep idx".into()) };
                            if first { a = a.wrapping_add((v as u64).wrapping_mul(cur.size())); first = false; }
                            else { a = a.wrapping_add(cur.field_off(v as usize)); let e = cur.elem(v as usize).clone(); cur = e; }
                        }
                        self.expect(b')')?;
                        Ok(Val::C(a as u128))
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "zext" => {
                        while self.peek() != b'(' { self.word(); }
                        self.expect(b'(')?;
                        let ft = self.ty()?;
                        let v = self.konst(&ft)?;
                        if !self.eat_word("to") { return Err("cast to".into()); }
                        let tt = self.ty()?;
                        self.expect(b')')?;
                        match v { Val::C(x) => Ok(Val::C(x & crate::expr::mask(tt.bits()))), v => Ok(v) }
                    }
                    "sub" | "add" | "xor" | "mul" => {
                        while self.peek() != b'(' { self.word(); }
                        self.expect(b'(')?;
                        let ta = self.ty()?;
                        let a = self.konst(&ta)?;
                        self.expect(b',')?;
                        let tb = self.ty()?;
                        let b = self.konst(&tb)?;
                        self.expect(b')')?;
                        match (a, b) {
                            (Val::C(x), Val::C(y)) => {
                                let r = match w { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), "xor" => x ^ y, _ => x.wrapping_mul(y) };
                                Ok(Val::C(r & crate::expr::mask(ta.bits())))
                            }
                            _ => Err("const arith".into()),
                        }
                    }
                    _ => {
                        let v = Self::number(w, t)?;
                        if let Some(_r) = self.s.get(self.i) { if *_r == b'(' { self.skip_parens(); } }
                        Ok(Val::C(v))
                    }
                }
            }
        }
    }
    fn number(w: &str, t: &Ty) -> R<u128> {
        match t {
            Ty::F32 | Ty::F64 => {
                if let Some(h) = w.strip_prefix("f0x") { return u128::from_str_radix(h, 16).map_err(|e| e.to_string()); }
                if let Some(h) = w.strip_prefix("0x") {
                    let b = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                    return Ok(if *t == Ty::F32 { (f64::from_bits(b) as f32).to_bits() as u128 } else { b as u128 });
                }
                let f: f64 = match w {
                    "+inf" | "inf" => f64::INFINITY,
                    "-inf" => f64::NEG_INFINITY,
                    "+qnan" | "qnan" | "+nan" | "nan" => return Ok(if *t == Ty::F32 { 0x7fc00000 } else { 0x7ff8000000000000 }),
                    "-qnan" | "-nan" => return Ok(if *t == Ty::F32 { 0xffc00000 } else { 0xfff8000000000000 }),
                    _ => w.parse().map_err(|_| format!("float {w}"))?,
                };
                Ok(if *t == Ty::F32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 })
            }
            Ty::Int(b) => {
                if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) { return u128::from_str_radix(h, 16).map_err(|e| e.to_string()); }
                let v: u128 = if let Some(n) = w.strip_prefix('-') { n.parse::<u128>().map_err(|_| format!("int {w}"))?.wrapping_neg() } else { w.parse().map_err(|_| format!("int {w}"))? };
                Ok(v & crate::expr::mask(*b))
            }
            _ => Err(format!("number {w} for {t:?}")),
        }
    }
}

struct FP<'a> {
    p: P<'a>,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn val(&mut self, t: &Ty) -> R<Op> {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.ident();
            return Ok(Op::R(self.reg(n)));
        }
        Ok(Op::K(self.p.konst(t)?))
    }
    fn tval(&mut self) -> R<(Ty, Op)> {
        let t = self.p.ty()?;
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn label(&mut self) -> R<u32> {
        if !self.p.eat_word("label") { return Err("label".into()); }
        self.p.expect(b'%')?;
        let n = self.p.ident();
        self.blocks.get(&n).copied().ok_or(format!("block {n}"))
    }
    /// skip attribute words until a type begins
    fn skip_attrs_to_ty(&mut self) {
        loop {
            if self.p.at_ty() { return; }
            let w = self.p.word();
            if w.is_empty() { return; }
            if w == "cc" || w == "align" { if self.p.peek() != b'(' { self.p.word(); } }
            if self.p.s.get(self.p.i) == Some(&b'(') { self.p.skip_parens(); }
        }
    }
    fn skip_attrs_to_val(&mut self) {
        loop {
            let c = self.p.peek();
            if matches!(c, b'%' | b'@' | b'{' | b'<' | b'[' | b'-' | b'+' | b'!' | b'"') || c.is_ascii_digit() { return; }
            if c == b'c' && self.p.s.get(self.p.i + 1) == Some(&b'"') { return; }
            let w = self.p.peek_word();
            if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "mul" | "inf" | "nan" | "qnan") || w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") { return; }
            if w.is_empty() { return; }
            self.p.word();
            if w == "align" { self.p.word(); }
            if self.p.s.get(self.p.i) == Some(&b'(') { self.p.skip_parens(); }
        }
    }
    fn call(&mut self, dst: Option<String>) -> R<I> {
        self.skip_attrs_to_ty();
        let rt = self.p.ty()?;
        if self.p.peek() == b'(' { self.p.skip_parens(); }
        let callee = match self.p.peek() {
            b'@' => {
                self.p.i += 1;
                let n = self.p.ident();
                let n = self.p.m.aliases.get(n.as_str()).map(|s| s.to_string()).unwrap_or(n);
                Callee::Fn(*self.p.syms.by_name.get(&n).ok_or(format!("callee @{n}"))?)
            }
            b'%' => { self.p.i += 1; let n = self.p.ident(); Callee::Ind(Op::R(self.reg(n))) }
            _ => {
                if self.p.eat_word("asm") {
                    while self.p.peek() != b'"' { self.p.word(); }
                    let st = self.p.i;
                    self.p.i += 1;
                    while self.p.s[self.p.i] != b'"' { self.p.i += 1; }
                    let s = String::from_utf8_lossy(&self.p.s[st..self.p.i + 1]).into_owned();
                    self.p.i += 1;
                    self.p.expect(b',')?;
                    self.p.ws();
                    self.p.i += 1;
                    while self.p.s[self.p.i] != b'"' { self.p.i += 1; }
                    self.p.i += 1;
                    Callee::Asm(s)
                } else {
                    let k = self.p.konst(&Ty::Ptr)?;
                    Callee::Ind(Op::K(k))
                }
            }
        };
        self.p.expect(b'(')?;
        let mut args = vec![];
        if !self.p.eat(b')') {
            loop {
                if self.p.peek() == b'.' { self.p.word(); break; }
                let t = self.p.ty()?;
                if t == Ty::Other {
                    // metadata argument: skip to , or )
                    let mut d = 0;
                    while self.p.i < self.p.s.len() {
                        match self.p.s[self.p.i] { b'(' => d += 1, b')' if d == 0 => break, b')' => d -= 1, b',' if d == 0 => break, _ => {} }
                        self.p.i += 1;
                    }
                    args.push((t, Op::K(Val::C(0))));
                } else {
                    self.skip_attrs_to_val();
                    let v = self.val(&t)?;
                    args.push((t, v));
                }
                if !self.p.eat(b',') { break; }
            }
            self.p.expect(b')')?;
        }
        let d = match (dst, &rt) { (Some(n), t) if *t != Ty::Void => Some(self.reg(n)), _ => None };
        Ok(I::Call(d, rt, callee, args, None))
    }
    fn flags(&mut self, fl: &[&str]) {
        loop {
            let w = self.p.peek_word();
            if fl.contains(&w) { self.p.word(); } else { return; }
        }
    }
    fn inst(&mut self, dst: Option<String>) -> R<I> {
        let op = self.p.word();
        const AF: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "inbounds", "nusw", "volatile", "atomic", "weak"];
        macro_rules! d { () => {{ let n = dst.clone().ok_or("no dst")?; self.reg(n) }}; }
        let bo = match op {
            "add" => Some(BinOp::Add), "sub" => Some(BinOp::Sub), "mul" => Some(BinOp::Mul), "udiv" => Some(BinOp::UDiv), "sdiv" => Some(BinOp::SDiv),
            "urem" => Some(BinOp::URem), "srem" => Some(BinOp::SRem), "and" => Some(BinOp::And), "or" => Some(BinOp::Or), "xor" => Some(BinOp::Xor),
            "shl" => Some(BinOp::Shl), "lshr" => Some(BinOp::LShr), "ashr" => Some(BinOp::AShr), "fadd" => Some(BinOp::FAdd), "fsub" => Some(BinOp::FSub),
            "fmul" => Some(BinOp::FMul), "fdiv" => Some(BinOp::FDiv), "frem" => Some(BinOp::FRem), _ => None,
        };
        if let Some(b) = bo {
            self.flags(AF);
            let (t, x) = self.tval()?;
            self.p.expect(b',')?;
            let y = self.val(&t)?;
            return Ok(I::Bin(b, t, d!(), x, y));
        }
        let ca = match op {
            "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "fpext" => Some(Cast::FpExt), "fptrunc" => Some(Cast::FpTrunc),
            "sitofp" => Some(Cast::SiToFp), "uitofp" => Some(Cast::UiToFp), "fptosi" => Some(Cast::FpToSi), "fptoui" => Some(Cast::FpToUi),
            "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => Some(Cast::Bit), _ => None,
        };
        if let Some(cst) = ca {
            self.flags(AF);
            let (t, x) = self.tval()?;
            if !self.p.eat_word("to") { return Err("to".into()); }
            let tt = self.p.ty()?;
            return Ok(I::Cast(cst, t, tt, d!(), x));
        }
        match op {
            "fneg" => { self.flags(AF); let (t, x) = self.tval()?; Ok(I::FNeg(t, d!(), x)) }
            "icmp" => {
                self.flags(AF);
                let c = match self.p.word() { "eq" => ICmp::Eq, "ne" => ICmp::Ne, "ugt" => ICmp::Ugt, "uge" => ICmp::Uge, "ult" => ICmp::Ult, "ule" => ICmp::Ule, "sgt" => ICmp::Sgt, "sge" => ICmp::Sge, "slt" => ICmp::Slt, "sle" => ICmp::Sle, x => return Err(format!("icmp {x}")) };
                let (t, x) = self.tval()?;
                self.p.expect(b',')?;
                let y = self.val(&t)?;
                Ok(I::ICmp(c, t, d!(), x, y))
            }
            "fcmp" => {
                self.flags(AF);
                let c = match self.p.word() { "false" => FCmp::False, "oeq" => FCmp::Oeq, "ogt" => FCmp::Ogt, "oge" => FCmp::Oge, "olt" => FCmp::Olt, "ole" => FCmp::Ole, "one" => FCmp::One, "ord" => FCmp::Ord, "ueq" => FCmp::Ueq, "ugt" => FCmp::Ugt, "uge" => FCmp::Uge, "ult" => FCmp::Ult, "ule" => FCmp::Ule, "une" => FCmp::Une, "uno" => FCmp::Uno, "true" => FCmp::True, x => return Err(format!("fcmp {x}")) };
                let (t, x) = self.tval()?;
                self.p.expect(b',')?;
                let y = self.val(&t)?;
                Ok(I::FCmp(c, t, d!(), x, y))
            }
            "load" => {
                self.flags(AF);
                let t = self.p.ty()?;
                self.p.expect(b',')?;
                let (_, a) = self.tval()?;
                Ok(I::Load(t, d!(), a))
            }
            "store" => {
                self.flags(AF);
                let (t, v) = self.tval()?;
                self.p.expect(b',')?;
                let (_, a) = self.tval()?;
                Ok(I::Store(t, v, a))
            }
            "getelementptr" => {
                loop { let w = self.p.peek_word(); if AF.contains(&w) { self.p.word(); } else if w == "inrange" { self.p.word(); self.p.ws(); self.p.skip_parens(); } else { break; } }
                let bt = self.p.ty()?;
                self.p.expect(b',')?;
                let (pt, base) = self.tval()?;
                if pt != Ty::Ptr { return Err("vector gep".into()); }
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.p.eat(b',') {
                    if self.p.peek() == b'!' { break; }
                    let (it, v) = self.tval()?;
                    let sc = if first { cur.size() } else if let Ty::Struct(..) = cur { 0 } else { cur.elem(0).size() };
                    match v {
                        Op::K(Val::C(k)) => {
                            let k = crate::expr::sx(k, it.bits()) as i64;
                            if first { off = off.wrapping_add(k.wrapping_mul(sc as i64)); }
                            else { off += cur.field_off(k as usize) as i64; }
                            if !first { let e = cur.elem(if matches!(cur, Ty::Struct(..)) { k as usize } else { 0 }).clone(); cur = e; }
                        }
                        v => { dynv.push((v, it.bits(), sc)); if !first { let e = cur.elem(0).clone(); cur = e; } }
                    }
                    first = false;
                }
                Ok(I::Gep(d!(), base, off, dynv))
            }
            "alloca" => {
                let t = self.p.ty()?;
                let mut al = t.align();
                let mut n = Op::K(Val::C(1));
                while self.p.eat(b',') {
                    if self.p.eat_word("align") { al = self.p.word().parse().unwrap_or(16); }
                    else if self.p.peek() == b'!' { break; }
                    else if self.p.at_ty() { n = self.tval()?.1; }
                    else { break; }
                }
                Ok(I::Alloca(d!(), t.size(), al.max(1), n))
            }
            "tail" | "musttail" | "notail" => { self.p.word(); self.call(dst) }
            "call" => self.call(dst),
            "invoke" => {
                let c = self.call(dst)?;
                // to label %x unwind label %y
                while self.p.peek() != 0 && self.p.peek_word() != "to" { if self.p.peek() == b'#' { self.p.i += 1; } if self.p.word().is_empty() { self.p.i += 1; } }
                self.p.word();
                let l = self.label()?;
                if let I::Call(a, b, c, d, _) = c { Ok(I::Call(a, b, c, d, Some(l))) } else { Err("invoke".into()) }
            }
            "br" => {
                if self.p.peek_word() == "label" { return Ok(I::Br(self.label()?)); }
                let (_, c) = self.tval()?;
                self.p.expect(b',')?;
                let a = self.label()?;
                self.p.expect(b',')?;
                let b = self.label()?;
                Ok(I::CondBr(c, a, b))
            }
            "switch" => {
                let (t, v) = self.tval()?;
                self.p.expect(b',')?;
                let def = self.label()?;
                self.p.expect(b'[')?;
                let mut cs = vec![];
                while !self.p.eat(b']') {
                    let (_, k) = self.tval()?;
                    self.p.expect(b',')?;
                    let l = self.label()?;
                    match k { Op::K(Val::C(k)) => cs.push((k, l)), _ => return Err("switch case".into()) }
                }
                Ok(I::Switch(t.bits(), v, def, cs))
            }
            "ret" => {
                if self.p.peek_word() == "void" { return Ok(I::Ret(None)); }
                let (_, v) = self.tval()?;
                Ok(I::Ret(Some(v)))
            }
            "unreachable" => Ok(I::Unreachable),
            "select" => {
                self.flags(AF);
                let (ct, c) = self.tval()?;
                self.p.expect(b',')?;
                let (t, a) = self.tval()?;
                self.p.expect(b',')?;
                let (_, b) = self.tval()?;
                Ok(I::Select(t, d!(), c, a, b, matches!(ct, Ty::Vec(..))))
            }
            "extractvalue" => {
                let (_, v) = self.tval()?;
                let mut ix = vec![];
                while self.p.eat(b',') { if self.p.peek() == b'!' { break; } ix.push(self.p.word().parse().map_err(|_| "idx")?); }
                Ok(I::ExtractV(d!(), v, ix))
            }
            "insertvalue" => {
                let (t, v) = self.tval()?;
                self.p.expect(b',')?;
                let (_, x) = self.tval()?;
                let mut ix = vec![];
                while self.p.eat(b',') { if self.p.peek() == b'!' { break; } ix.push(self.p.word().parse().map_err(|_| "idx")?); }
                Ok(I::InsertV(d!(), v, x, ix, t))
            }
            "extractelement" => {
                let (_, v) = self.tval()?;
                self.p.expect(b',')?;
                let (_, i) = self.tval()?;
                Ok(I::ExtractE(d!(), v, i))
            }
            "insertelement" => {
                let (_, v) = self.tval()?;
                self.p.expect(b',')?;
                let (_, x) = self.tval()?;
                self.p.expect(b',')?;
                let (_, i) = self.tval()?;
                Ok(I::InsertE(d!(), v, x, i))
            }
            "shufflevector" => {
                let (_, a) = self.tval()?;
                self.p.expect(b',')?;
                let (_, b) = self.tval()?;
                self.p.expect(b',')?;
                let (_, k) = self.tval()?;
                let m = match k { Op::K(Val::A(v)) => v.iter().map(|x| if let Val::C(c) = x { *c as i64 } else { 0 }).collect(), _ => return Err("shuffle mask".into()) };
                Ok(I::Shuffle(d!(), a, b, m))
            }
            "freeze" => { let (_, v) = self.tval()?; Ok(I::Copy(d!(), v)) }
            "fence" => Ok(I::Nop),
            "atomicrmw" => {
                self.flags(AF);
                let o = match self.p.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => return Err(format!("rmw {x}")) };
                let (_, a) = self.tval()?;
                self.p.expect(b',')?;
                let (t, v) = self.tval()?;
                Ok(I::Rmw(o, t, d!(), a, v))
            }
            "cmpxchg" => {
                self.flags(AF);
                let (_, a) = self.tval()?;
                self.p.expect(b',')?;
                let (t, c) = self.tval()?;
                self.p.expect(b',')?;
                let (_, n) = self.tval()?;
                Ok(I::CmpXchg(t, d!(), a, c, n))
            }
            _ => Err(format!("opcode {op}")),
        }
    }
}

pub fn parse_fn(m: &Module, syms: &Syms, name: &str, id: u32) -> Option<Func> {
    let (s, e) = *m.fn_at.get(name)?;
    let text = &m.text[s..e];
    let hdr_end = text.iter().position(|c| *c == b'\n').unwrap();
    let mut fp = FP { p: P { s: &text[..hdr_end], i: 0, syms, m }, regs: HashMap::new(), blocks: HashMap::new() };
    // header: parameters
    let at = text.iter().position(|c| *c == b'@').unwrap();
    fp.p.i = at + 1;
    fp.p.ident();
    fp.p.expect(b'(').ok()?;
    let mut params = vec![];
    let mut unnamed = 0;
    if !fp.p.eat(b')') {
        loop {
            if fp.p.peek() == b'.' { break; }
            let _t = fp.p.ty().unwrap();
            loop {
                let c = fp.p.peek();
                if c == b'%' || c == b',' || c == b')' { break; }
                let w = fp.p.word();
                if w == "align" { fp.p.word(); }
                if fp.p.s.get(fp.p.i) == Some(&b'(') { fp.p.skip_parens(); }
                if w.is_empty() { fp.p.i += 1; }
            }
            let n = if fp.p.eat(b'%') { fp.p.ident() } else { format!("{unnamed}") };
            if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
            params.push(fp.reg(n));
            if !fp.p.eat(b',') { break; }
        }
    }
    let hdr = std::str::from_utf8(&text[..hdr_end]).unwrap();
    let sub = hdr.rfind("!dbg !").map(|k| hdr[k + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0)).unwrap_or(0);
    // first pass: split into logical lines and blocks
    let body = &text[hdr_end + 1..];
    let mut lines: Vec<(usize, usize)> = vec![];
    let mut k = 0;
    while k < body.len() {
        let e = body[k..].iter().position(|c| *c == b'\n').map(|x| k + x).unwrap_or(body.len());
        lines.push((k, e));
        k = e + 1;
    }
    let mut blocks: Vec<(String, Vec<(usize, usize)>)> = vec![];
    let mut i = 0;
    while i < lines.len() {
        let (a, b) = lines[i];
        let l = &body[a..b];
        i += 1;
        if l.is_empty() || l[0] == b';' { continue; }
        if l[0] != b' ' && l[0] != b'\t' {
            // label
            let st = std::str::from_utf8(l).unwrap();
            let nm = if l[0] == b'"' { st[1..].split('"').next().unwrap().to_string() } else { st.split(':').next().unwrap().to_string() };
            blocks.push((nm, vec![]));
            continue;
        }
        if blocks.is_empty() { blocks.push((format!("{unnamed}"), vec![])); }
        let t = l.iter().position(|c| *c != b' ').unwrap_or(0);
        let tl = &l[t..];
        if tl.is_empty() || tl.starts_with(b"#dbg") || tl[0] == b';' { continue; }
        let mut end = b;
        if tl.starts_with(b"switch ") && !tl.contains(&b']') {
            loop {
                let ln = &body[lines[i].0..lines[i].1];
                end = lines[i].1;
                i += 1;
                if ln.contains(&b']') { break; }
            }
        } else if tl.starts_with(b"invoke ") || tl.windows(10).take(40).any(|w| w == b" = invoke ") {
            end = lines[i].1;
            i += 1;
        } else if tl.windows(13).take(40).any(|w| w == b" = landingpad") {
            while i < lines.len() {
                let nl = &body[lines[i].0..lines[i].1];
                let q = nl.iter().position(|c| *c != b' ').unwrap_or(0);
                if q >= 8 { end = lines[i].1; i += 1; } else { break; }
            }
        }
        blocks.last_mut().unwrap().1.push((a, end));
    }
    for (i, b) in blocks.iter().enumerate() { fp.blocks.insert(b.0.clone(), i as u32); }
    let mut out = vec![];
    for (_, ls) in &blocks {
        let mut blk = Block { phis: vec![], code: vec![], dbg: vec![] };
        for (a, b) in ls {
            let l = &body[*a..*b];
            fp.p.s = l;
            fp.p.i = 0;
            let save = fp.p.i;
            let mut dst = None;
            if fp.p.peek() == b'%' {
                fp.p.i += 1;
                let n = fp.p.ident();
                if fp.p.eat(b'=') { dst = Some(n); } else { fp.p.i = save; }
            }
            if fp.p.peek_word() == "phi" {
                fp.p.word();
                fp.flags(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let r: R<(u32, Vec<(u32, Op)>)> = (|| {
                    let t = fp.p.ty()?;
                    let mut v = vec![];
                    loop {
                        if !fp.p.eat(b'[') { break; }
                        let x = fp.val(&t)?;
                        fp.p.expect(b',')?;
                        fp.p.expect(b'%')?;
                        let n = fp.p.ident();
                        fp.p.expect(b']')?;
                        v.push((*fp.blocks.get(&n).ok_or("phi block")?, x));
                        if !fp.p.eat(b',') { break; }
                    }
                    let d = fp.reg(dst.clone().unwrap());
                    Ok((d, v))
                })();
                match r { Ok(x) => blk.phis.push(x), Err(e) => { blk.code.push(I::Bad(format!("phi: {e}"))); blk.dbg.push(0); } }
                continue;
            }
            let ins = match fp.inst(dst) { Ok(i) => i, Err(e) => I::Bad(format!("{e} :: {}", String::from_utf8_lossy(&l[..l.len().min(160)]))) };
            let st = std::str::from_utf8(l).unwrap();
            let dbg = st.rfind("!dbg !").map(|k| st[k + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().unwrap_or(0)).unwrap_or(0);
            blk.code.push(ins);
            blk.dbg.push(dbg);
        }
        out.push(blk);
    }
    Some(Func { name: name.to_string(), nregs: fp.regs.len() as u32, params, blocks: out, sub, id })
}

/// write a constant into bytes
pub fn bytes_of(v: &Val, t: &Ty, out: &mut [u8]) {
    match v {
        Val::C(x) => {
            if t.scalar() {
                let n = t.store() as usize;
                for i in 0..n { out[i] = (x >> (8 * i)) as u8; }
            }
        }
        Val::A(vs) => {
            for (i, x) in vs.iter().enumerate() {
                let o = t.field_off(i) as usize;
                bytes_of(x, t.elem(i), &mut out[o..]);
            }
        }
        Val::E(_) => panic!("symbolic global"),
    }
}
/// parse the initializer of a global: (type, value, align)
pub fn parse_global(m: &Module, syms: &Syms, line: (usize, usize)) -> R<Option<(Ty, Val, u64)>> {
    let s = &m.text[line.0..line.1];
    let mut p = P { s, i: 1, syms, m };
    p.ident();
    p.expect(b'=')?;
    loop {
        let w = p.word();
        if w == "global" || w == "constant" { break; }
        if w.is_empty() {
            if p.peek() == b'(' { p.skip_parens(); } else { return Err("global kw".into()); }
        }
        if w == "external" || w == "extern_weak" { return Ok(None); }
    }
    let t = p.ty()?;
    let v = p.konst(&t)?;
    let rest = std::str::from_utf8(&s[p.i..]).unwrap_or("");
    let al = rest.find("align ").and_then(|k| rest[k + 6..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().ok()).unwrap_or(t.align());
    Ok(Some((t, v, al)))
}
/// type only (for layout before symbols have addresses)
pub fn global_size(m: &Module, syms: &Syms, line: (usize, usize)) -> R<Option<(u64, u64)>> {
    let s = &m.text[line.0..line.1];
    let mut p = P { s, i: 1, syms, m };
    p.ident();
    p.expect(b'=')?;
    loop {
        let w = p.word();
        if w == "global" || w == "constant" { break; }
        if w.is_empty() {
            if p.peek() == b'(' { p.skip_parens(); } else { return Err("global kw".into()); }
        }
        if w == "external" || w == "extern_weak" { return Ok(None); }
    }
    let t = p.ty()?;
    let rest = std::str::from_utf8(s).unwrap_or("");
    let al = rest.rfind(", align ").and_then(|k| rest[k + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse().ok()).unwrap_or(t.align());
    Ok(Some((t.size(), al)))
}
