//! Parser for textual LLVM IR (opaque pointers) as printed by `opt -S`.
use crate::expr::{mask, E};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void, Int(u16), Ptr, F32, F64, Label, Meta,
    Arr(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Vec(u32, Arc<Ty>),
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            Ty::Vec(..) => { let s = self.store_size(); s.next_power_of_two() }
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for t in f.iter() { if !*p { o = up(o, t.align()); } o += t.size(); }
                if *p { o } else { up(o, self.align()) }
            }
            Ty::Void | Ty::Label | Ty::Meta => 0,
            _ => up(self.store_size(), self.align()),
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !*p { o = up(o, t.align()); }
                    if j as u64 == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => t.size() * i,
            Ty::Vec(_, t) => t.size() * i,
            _ => panic!("field_off on {:?}", self),
        }
    }
    pub fn elem(&self, i: u64) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i as usize].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem on {:?}", self),
        }
    }
}
pub fn up(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }

#[derive(Clone, Debug)]
pub enum Val { I(u64), W(Box<u128>), S(E), A(Arc<Vec<Val>>) }
impl Default for Val { fn default() -> Self { Val::I(0) } }
pub fn vconst(v: u128, w: u16) -> Val {
    let v = v & mask(w);
    if w <= 64 { Val::I(v as u64) } else { Val::W(Box::new(v)) }
}
pub fn zero_of(t: &Ty) -> Val {
    match t {
        Ty::Arr(n, t) => Val::A(Arc::new(vec![zero_of(t); *n as usize])),
        Ty::Vec(n, t) => Val::A(Arc::new(vec![zero_of(t); *n as usize])),
        Ty::Struct(f, _) => Val::A(Arc::new(f.iter().map(zero_of).collect())),
        t => vconst(0, t.bits().max(1)),
    }
}

#[derive(Clone, Debug)]
pub enum Op { R(u32), C(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IBin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { Trunc, ZExt, SExt, PtrInt, Bitcast, FpToUi, FpToSi, UiToFp, SiToFp, FpTrunc, FpExt }
#[derive(Clone, Debug)]
pub struct Edge { pub blk: u32, pub copies: Box<[(u32, Op)]> }
#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ind(Op), Asm(String) }
#[derive(Debug)]
pub struct CallI { pub dst: Option<u32>, pub ret: Ty, pub callee: Callee, pub args: Vec<Op>, pub argw: Vec<Ty>, pub normal: Option<Edge> }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Debug)]
pub enum Inst {
    Bin { op: IBin, w: u16, dst: u32, a: Op, b: Op },
    VBin { op: IBin, w: u16, dst: u32, a: Op, b: Op },
    FBin { op: u8, w: u16, dst: u32, a: Op, b: Op },
    FNeg { w: u16, dst: u32, a: Op },
    ICmp { p: Pred, w: u16, dst: u32, a: Op, b: Op },
    VICmp { p: Pred, w: u16, dst: u32, a: Op, b: Op },
    FCmp { p: String, w: u16, dst: u32, a: Op, b: Op },
    Cast { k: CastK, from: Ty, to: Ty, dst: u32, a: Op },
    Select { dst: u32, c: Op, a: Op, b: Op, ty: Ty, cvec: bool },
    Load { dst: u32, w: u16, n: u16, addr: Op },
    LoadAgg { dst: u32, ty: Ty, addr: Op },
    Store { w: u16, n: u16, val: Op, addr: Op },
    StoreAgg { ty: Ty, val: Op, addr: Op },
    Gep { dst: u32, base: Op, off: u64, idx: Box<[(Op, u16, u64)]> },
    Alloca { dst: u32, size: u64, align: u64, n: Op },
    Call(Box<CallI>),
    ExtractValue { dst: u32, a: Op, idx: Vec<u32> },
    InsertValue { dst: u32, a: Op, v: Op, idx: Vec<u32> },
    ExtractElem { dst: u32, a: Op, i: Op },
    InsertElem { dst: u32, a: Op, v: Op, i: Op },
    Shuffle { dst: u32, a: Op, b: Op, n: usize, mask: Vec<i32>, ew: u16 },
    RmwI { dst: u32, op: Rmw, addr: Op, v: Op, w: u16 },
    CmpXchg { dst: u32, addr: Op, c: Op, v: Op, w: u16 },
    Copy { dst: u32, a: Op },
    Nop,
    LandingPad,
    Br(Edge),
    CondBr { c: Op, t: Edge, f: Edge },
    Switch { w: u16, v: Op, def: Edge, cases: Vec<(u128, Edge)> },
    Ret(Option<Op>),
    Unreachable,
    Resume,
}

pub struct Func {
    pub name: String,
    pub blocks: Vec<Vec<Inst>>,
    pub nregs: u32,
    pub params: Vec<u32>,
}
pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // byte range of the define (header+body)
    pub parsed: OnceLock<&'static Func>,
    pub weak: bool,
    pub id: u32,
}

pub struct Module {
    pub text: Vec<u8>,
    pub types: HashMap<String, Ty>,
    pub globals: HashMap<String, u64>, // address
    pub funcs: Vec<FuncDecl>,
    pub fidx: HashMap<String, u32>,
    pub init: Vec<(u64, Vec<u8>)>,
    pub data_end: u64,
}
pub const FN_BASE: u64 = 0x0100_0000; // function addresses: FN_BASE + 16*id
pub const GLOB_BASE: u64 = 0x0200_0000;

pub struct P<'a> { s: &'a [u8], i: usize, m: &'a Module }

impl<'a> P<'a> {
    fn new(s: &'a [u8], i: usize, m: &'a Module) -> Self { P { s, i, m } }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } }
                _ => break,
            }
        }
    }
    /// spaces only (stay on the line)
    fn sp(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') { self.i += 1; } }
    fn peek(&self) -> u8 { self.s.get(self.i).copied().unwrap_or(0) }
    fn err(&self, w: &str) -> ! {
        let a = self.i.saturating_sub(120);
        let b = (self.i + 120).min(self.s.len());
        panic!("IR parse error: {} near: {} <<<HERE>>> {}", w, String::from_utf8_lossy(&self.s[a..self.i]), String::from_utf8_lossy(&self.s[self.i..b]));
    }
    fn eat(&mut self, c: u8) -> bool { self.ws(); if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) { if !self.eat(c) { self.err(&format!("expected '{}'", c as char)); } }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() { let c = self.s[self.i]; if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' { self.i += 1 } else { break } }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
    fn peek_word(&mut self) -> &'a str { let k = self.i; let w = self.word(); let w2 = w; self.i = k; w2 }
    fn eat_word(&mut self, w: &str) -> bool { let k = self.i; if self.word() == w { true } else { self.i = k; false } }
    fn name(&mut self) -> String {
        // after sigil
        if self.peek() == b'"' {
            self.i += 1;
            let st = self.i;
            while self.peek() != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            r
        } else { self.word_nows().to_string() }
    }
    fn word_nows(&mut self) -> &'a str {
        let st = self.i;
        while self.i < self.s.len() { let c = self.s[self.i]; if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' { self.i += 1 } else { break } }
        unsafe { std::str::from_utf8_unchecked(&self.s[st..self.i]) }
    }
    fn num(&mut self) -> u64 { self.ws(); let w = self.word(); w.parse::<u64>().unwrap_or_else(|_| self.err("number")) }

    pub fn ty(&mut self) -> Ty {
        self.ws();
        let t = match self.peek() {
            b'[' => { self.i += 1; let n = self.num(); if !self.eat_word("x") { self.err("x") } let t = self.ty(); self.expect(b']'); Ty::Arr(n, Arc::new(t)) }
            b'{' => { self.i += 1; let f = self.tylist(b'}'); Ty::Struct(Arc::new(f), false) }
            b'<' => {
                self.i += 1;
                self.ws();
                if self.peek() == b'{' { self.i += 1; let f = self.tylist(b'}'); self.expect(b'>'); Ty::Struct(Arc::new(f), true) }
                else { let n = self.num() as u32; if !self.eat_word("x") { self.err("x") } let t = self.ty(); self.expect(b'>'); Ty::Vec(n, Arc::new(t)) }
            }
            b'%' => { self.i += 1; let n = self.name(); self.m.types.get(&n).cloned().unwrap_or_else(|| self.err("unknown named type")) }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::F32, "double" => Ty::F64, "label" => Ty::Label, "metadata" | "token" => Ty::Meta,
                    _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => self.err(&format!("type '{}'", w)),
                }
            }
        };
        // function type e.g. `i32 (ptr, ...)` in call: skip param list
        let k = self.i;
        self.sp();
        if self.peek() == b'(' {
            // only a function type if followed by a type list (calls print callee first, so this is a vararg signature)
            self.skip_paren();
            return t;
        }
        if self.eat_word("addrspace") { self.skip_paren(); return t; }
        self.i = k;
        t
    }
    fn skip_paren(&mut self) {
        self.ws();
        if self.peek() != b'(' { self.err("paren"); }
        let mut d = 0;
        loop {
            match self.peek() { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; return; } } b'"' => { self.i += 1; while self.peek() != b'"' { self.i += 1; } } 0 => self.err("eof"), _ => {} }
            self.i += 1;
        }
    }
    fn tylist(&mut self, end: u8) -> Vec<Ty> {
        let mut v = Vec::new();
        self.ws();
        if self.peek() == end { self.i += 1; return v; }
        loop { v.push(self.ty()); if self.eat(b',') { continue; } self.expect(end); return v; }
    }
    /// attributes on params / returns
    fn attrs(&mut self) {
        loop {
            self.ws();
            let k = self.i;
            let w = self.peek_word();
            match w {
                "noundef" | "nonnull" | "noalias" | "readonly" | "writeonly" | "readnone" | "zeroext" | "signext" | "inreg" | "nofree" | "returned" | "immarg"
                | "allocptr" | "allocalign" | "nocapture" | "dead_on_unwind" | "writable" | "noext" | "nest" | "swiftself" | "dead_on_return" | "nooutline" => { self.word(); self.sp(); if w == "dead_on_return" && self.peek() == b'(' { self.skip_paren(); } }
                "align" => { self.word(); self.sp(); if self.peek() == b'(' { self.skip_paren(); } else { self.num(); } }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "byval" | "range" | "captures" | "initializes" | "nofpclass" | "elementtype" | "preallocated" | "inalloca" | "byref" | "alignstack" => { self.word(); self.skip_paren(); }
                _ => {
                    if self.peek() == b'"' { // string attribute
                        self.i += 1; while self.peek() != b'"' { self.i += 1; } self.i += 1;
                        if self.peek() == b'=' { self.i += 2; while self.peek() != b'"' { self.i += 1; } self.i += 1; }
                        continue;
                    }
                    self.i = k; return
                }
            }
        }
    }
    fn parse_int(&self, w: &str, t: &Ty) -> u128 {
        if let Some(r) = w.strip_prefix('-') { (r.parse::<u128>().unwrap_or_else(|_| self.err("int"))).wrapping_neg() & mask(t.bits()) }
        else { w.parse::<u128>().unwrap_or_else(|_| self.err(&format!("int '{}'", w))) & mask(t.bits()) }
    }
    /// constant of the given type
    pub fn konst(&mut self, t: &Ty) -> Val {
        self.ws();
        match self.peek() {
            b'@' => { self.i += 1; let n = self.name(); Val::I(self.m.addr_of(&n).unwrap_or_else(|| self.err(&format!("unknown global {}", n)))) }
            b'c' if self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = Vec::new();
                while self.peek() != b'"' {
                    let c = self.peek();
                    if c == b'\\' && self.s[self.i + 1] == b'\\' { v.push(Val::I(92)); self.i += 2; }
                    else if c == b'\\' {
                        let h = |c: u8| (c as char).to_digit(16).unwrap() as u64;
                        v.push(Val::I(h(self.s[self.i + 1]) * 16 + h(self.s[self.i + 2])));
                        self.i += 3;
                    } else { v.push(Val::I(c as u64)); self.i += 1; }
                }
                self.i += 1;
                Val::A(Arc::new(v))
            }
            b'{' => { self.i += 1; self.agg(b'}') }
            b'[' => { self.i += 1; self.agg(b']') }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { self.i += 1; let v = self.agg(b'}'); self.expect(b'>'); v } else { self.agg(b'>') }
            }
            b'+' | b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while { let c = self.peek(); c.is_ascii_alphanumeric() || c == b'.' || c == b'+' || (c == b'-' && self.s[self.i - 1] == b'e') } { self.i += 1; }
                let w = std::str::from_utf8(&self.s[st..self.i]).unwrap();
                if matches!(t, Ty::F64 | Ty::F32) && (w.ends_with("inf") || w.ends_with("nan")) {
                    let neg = w.starts_with('-');
                    let mut x: f64 = if w.ends_with("inf") { f64::INFINITY } else { f64::from_bits(0x7ff8_0000_0000_0000) };
                    if neg { x = -x; }
                    return Val::I(if matches!(t, Ty::F64) { x.to_bits() } else { (x as f32).to_bits() as u64 });
                }
                match t {
                    Ty::F64 => Val::I(if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { w.parse::<f64>().unwrap().to_bits() }),
                    Ty::F32 => Val::I(if let Some(h) = w.strip_prefix("0x") { (f64::from_bits(u64::from_str_radix(h, 16).unwrap()) as f32).to_bits() as u64 } else { w.parse::<f32>().unwrap().to_bits() as u64 }),
                    _ => vconst(self.parse_int(w, t), t.bits()),
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "null" => Val::I(0),
                    "true" => Val::I(1),
                    "false" => Val::I(0),
                    "zeroinitializer" | "undef" | "poison" | "none" => zero_of(t),
                    "splat" => {
                        self.expect(b'(');
                        let et = self.ty();
                        let v = self.konst(&et);
                        self.expect(b')');
                        let n = match t { Ty::Vec(n, _) => *n as usize, Ty::Arr(n, _) => *n as usize, _ => self.err("splat type") };
                        Val::A(Arc::new(vec![v; n]))
                    }
                    "getelementptr" => {
                        while matches!(self.peek_word(), "inbounds" | "nuw" | "nusw") { self.word(); }
                        if self.eat_word("inrange") { self.skip_paren(); }
                        self.expect(b'(');
                        let bt = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let b = self.cint(&pt);
                        let mut off = b;
                        let mut cur = bt;
                        let mut first = true;
                        while self.eat(b',') {
                            let it = self.ty();
                            let i = crate::expr::sext(self.cint(&it) as u128, it.bits()) as i64 as u64;
                            if first { off = off.wrapping_add(i.wrapping_mul(cur.size())); first = false; }
                            else { off = off.wrapping_add(cur.field_off(i)); cur = cur.elem(i); }
                        }
                        self.expect(b')');
                        Val::I(off)
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" | "zext" | "ptrtoaddr" => {
                        self.expect(b'(');
                        let a = self.ty();
                        let v = self.cint(&a);
                        if !self.eat_word("to") { self.err("to"); }
                        let b = self.ty();
                        self.expect(b')');
                        vconst(v as u128, b.bits())
                    }
                    "sub" | "add" | "xor" | "and" | "or" | "mul" => {
                        while matches!(self.peek_word(), "nuw" | "nsw") { self.word(); }
                        self.expect(b'(');
                        let a = self.ty(); let x = self.cint(&a); self.expect(b',');
                        let b = self.ty(); let y = self.cint(&b); self.expect(b')');
                        let r = match w { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), "xor" => x ^ y, "and" => x & y, "or" => x | y, _ => x.wrapping_mul(y) };
                        vconst(r as u128, a.bits())
                    }
                    _ => self.err(&format!("constant '{}'", w)),
                }
            }
        }
    }
    fn cint(&mut self, t: &Ty) -> u64 { match self.konst(t) { Val::I(x) => x, Val::W(x) => *x as u64, _ => self.err("int const") } }
    fn agg(&mut self, end: u8) -> Val {
        let mut v = Vec::new();
        self.ws();
        if self.peek() == end { self.i += 1; return Val::A(Arc::new(v)); }
        loop { let t = self.ty(); v.push(self.konst(&t)); if self.eat(b',') { continue; } self.expect(end); return Val::A(Arc::new(v)); }
    }
}

/// serialise a constant into bytes
pub fn bytes_of(v: &Val, t: &Ty, out: &mut Vec<u8>) {
    match (v, t) {
        (Val::A(xs), Ty::Arr(_, et)) => for x in xs.iter() { let s = out.len() as u64; bytes_of(x, et, out); out.resize((s + et.size()) as usize, 0); },
        (Val::A(xs), Ty::Vec(_, et)) => for x in xs.iter() { bytes_of(x, et, out); },
        (Val::A(xs), Ty::Struct(f, p)) => {
            let base = out.len() as u64;
            for (i, x) in xs.iter().enumerate() {
                let o = t.field_off(i as u64);
                out.resize((base + o) as usize, 0);
                bytes_of(x, &f[i], out);
            }
            let _ = p;
            out.resize((base + t.size()) as usize, 0);
        }
        (Val::I(x), _) => out.extend_from_slice(&x.to_le_bytes()[..t.store_size() as usize]),
        (Val::W(x), _) => out.extend_from_slice(&x.to_le_bytes()[..t.store_size() as usize]),
        _ => panic!("bytes_of {:?} {:?}", v, t),
    }
}

fn lines(text: &[u8]) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let mut st = 0;
    for (i, &c) in text.iter().enumerate() { if c == b'\n' { v.push((st, i)); st = i + 1; } }
    if st < text.len() { v.push((st, text.len())); }
    v
}

impl Module {
    pub fn addr_of(&self, n: &str) -> Option<u64> {
        if let Some(a) = self.globals.get(n) { return Some(*a); }
        if let Some(i) = self.fidx.get(n) {
            let f = &self.funcs[*i as usize];
            if f.weak { return Some(0); }
            return Some(FN_BASE + 16 * *i as u64);
        }
        None
    }
    pub fn load(text: Vec<u8>, implemented: &dyn Fn(&str) -> bool) -> Module {
        let mut m = Module { text, types: HashMap::new(), globals: HashMap::new(), funcs: Vec::new(), fidx: HashMap::new(), init: Vec::new(), data_end: GLOB_BASE };
        let text = std::mem::take(&mut m.text);
        let ls = lines(&text);
        let mut gl: Vec<(usize, usize)> = Vec::new();
        let mut al: Vec<(usize, usize)> = Vec::new();
        let mut i = 0;
        let fname = |l: &[u8]| -> String {
            let p = l.iter().position(|c| *c == b'@').unwrap() + 1;
            if l[p] == b'"' { let e = l[p + 1..].iter().position(|c| *c == b'"').unwrap(); String::from_utf8_lossy(&l[p + 1..p + 1 + e]).into_owned() }
            else { let e = l[p..].iter().position(|c| *c == b'(').unwrap(); String::from_utf8_lossy(&l[p..p + e]).into_owned() }
        };
        while i < ls.len() {
            let (a, b) = ls[i];
            let l = &text[a..b];
            if l.starts_with(b"define") {
                let st = a;
                let n = fname(l);
                while text[ls[i].0..ls[i].1] != *b"}" { i += 1; }
                let id = m.funcs.len() as u32;
                m.fidx.insert(n.clone(), id);
                m.funcs.push(FuncDecl { name: n, body: Some((st, ls[i].1)), parsed: OnceLock::new(), weak: false, id });
            } else if l.starts_with(b"declare") {
                let n = fname(l);
                let weak = l.windows(11).any(|w| w == b"extern_weak") && !implemented(&n);
                let id = m.funcs.len() as u32;
                m.fidx.insert(n.clone(), id);
                m.funcs.push(FuncDecl { name: n, body: None, parsed: OnceLock::new(), weak, id });
            } else if l.starts_with(b"@") {
                if l.windows(7).any(|w| w == b" alias ") && !l.windows(10).any(|w| w == b" constant ") { al.push((a, b)); } else { gl.push((a, b)); }
            } else if l.starts_with(b"%") {
                let mut p = P::new(&text, a + 1, &m);
                let n = p.name();
                p.expect(b'=');
                if !p.eat_word("type") { p.err("type"); }
                if p.eat_word("opaque") { i += 1; continue; }
                let t = p.ty();
                m.types.insert(n, t);
            }
            i += 1;
        }
        // pass 1: addresses
        let mut at = GLOB_BASE;
        let mut pend: Vec<(u64, Ty, usize)> = Vec::new();
        for &(a, b) in &gl {
            let mut p = P::new(&text[..b], a + 1, &m);
            let n = p.name();
            p.expect(b'=');
            let mut external = false;
            loop {
                p.ws();
                let w = p.peek_word();
                match w {
                    "global" | "constant" => { p.word(); break; }
                    "external" | "extern_weak" => { external = true; p.word(); }
                    "thread_local" => { p.word(); if p.peek() == b'(' { p.skip_paren(); } }
                    "addrspace" => { p.word(); p.skip_paren(); }
                    "" => p.err("global header"),
                    _ => { p.word(); }
                }
            }
            let t = p.ty();
            at = up(at, t.align().max(16));
            let size = t.size().max(1);
            let init_at = p.i;
            m.globals.insert(n, at);
            if !external { pend.push((at, t, init_at)); }
            at += size + 16;
        }
        for &(a, b) in &al {
            let mut p = P::new(&text[..b], a + 1, &m);
            let n = p.name();
            // target: last '@'
            let l = &text[a..b];
            let q = l.iter().rposition(|c| *c == b'@').unwrap();
            let mut p2 = P::new(&text[..b], a + q + 1, &m);
            let tgt = p2.name();
            let _ = &mut p;
            let ad = m.addr_of(&tgt).expect("alias target");
            m.globals.insert(n, ad);
        }
        m.data_end = up(at, 4096);
        let mut init = Vec::new();
        for (ad, t, pos) in pend {
            let mut p = P::new(&text, pos, &m);
            let v = p.konst(&t);
            let mut out = Vec::new();
            bytes_of(&v, &t, &mut out);
            init.push((ad, out));
        }
        m.init = init;
        m.text = text;
        m
    }
    pub fn func(&self, id: u32) -> &'static Func {
        let d = &self.funcs[id as usize];
        *d.parsed.get_or_init(|| Box::leak(Box::new(parse_func_inner(self, d))))
    }
}

struct FP<'a> {
    p: P<'a>,
    regs: HashMap<String, u32>,
    blks: HashMap<String, u32>,
}
enum Tmp { I(Inst), Phi(u32, Ty, Vec<(Op, u32)>) }

impl<'a> FP<'a> {
    fn reg(&mut self, n: String) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn blk(&mut self, n: String) -> u32 { let k = self.blks.len() as u32; *self.blks.entry(n).or_insert(k) }
    fn op(&mut self, t: &Ty) -> Op {
        self.p.ws();
        if self.p.peek() == b'%' { self.p.i += 1; let n = self.p.name(); Op::R(self.reg(n)) }
        else { Op::C(self.p.konst(t)) }
    }
    fn tyop(&mut self) -> (Ty, Op) { let t = self.p.ty(); let o = self.op(&t); (t, o) }
    fn label(&mut self) -> Edge {
        if !self.p.eat_word("label") { self.p.err("label"); }
        self.p.expect(b'%');
        let n = self.p.name();
        Edge { blk: self.blk(n), copies: Box::new([]) }
    }
    fn comma(&mut self) { self.p.expect(b','); }
    fn flags(&mut self, fl: &[&str]) { loop { let w = self.p.peek_word(); if fl.contains(&w) { self.p.word(); } else { break; } } }
    fn eol(&mut self) { while self.p.i < self.p.s.len() && self.p.peek() != b'\n' { self.p.i += 1; } }

    fn inst(&mut self) -> Tmp {
        self.p.ws();
        let mut dst = None;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name();
            dst = Some(self.reg(n));
            self.p.expect(b'=');
        }
        let w = self.p.word();
        let d = dst.unwrap_or(u32::MAX);
        let r = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                let op = match w { "add" => IBin::Add, "sub" => IBin::Sub, "mul" => IBin::Mul, "udiv" => IBin::UDiv, "sdiv" => IBin::SDiv, "urem" => IBin::URem, "srem" => IBin::SRem,
                    "and" => IBin::And, "or" => IBin::Or, "xor" => IBin::Xor, "shl" => IBin::Shl, "lshr" => IBin::LShr, _ => IBin::AShr };
                self.flags(&["nuw", "nsw", "exact", "disjoint"]);
                let t = self.p.ty();
                let a = self.op(&t); self.comma(); let b = self.op(&t);
                match &t { Ty::Vec(_, e) => Inst::VBin { op, w: e.bits(), dst: d, a, b }, _ => Inst::Bin { op, w: t.bits(), dst: d, a, b } }
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let t = self.p.ty();
                let a = self.op(&t); self.comma(); let b = self.op(&t);
                if matches!(t, Ty::Vec(..)) { self.p.err("vector fp"); }
                Inst::FBin { op: w.as_bytes()[1], w: if w == "frem" { t.bits() | 0x8000 } else { t.bits() }, dst: d, a, b }
            }
            "fneg" => { let (t, a) = { self.flags(&["fast", "nnan", "ninf", "nsz"]); self.tyop() }; Inst::FNeg { w: t.bits(), dst: d, a } }
            "icmp" => {
                self.flags(&["samesign"]);
                let p = match self.p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => { let x = x.to_string(); self.p.err(&x) } };
                let t = self.p.ty();
                let a = self.op(&t); self.comma(); let b = self.op(&t);
                match &t { Ty::Vec(_, e) => Inst::VICmp { p, w: e.bits(), dst: d, a, b }, _ => Inst::ICmp { p, w: t.bits(), dst: d, a, b } }
            }
            "fcmp" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let p = self.p.word().to_string();
                let t = self.p.ty();
                let a = self.op(&t); self.comma(); let b = self.op(&t);
                Inst::FCmp { p, w: t.bits(), dst: d, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast" | "ptrtoaddr" => {
                self.flags(&["nuw", "nsw", "nneg"]);
                let (from, a) = self.tyop();
                if !self.p.eat_word("to") { self.p.err("to"); }
                let to = self.p.ty();
                let k = match w { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => CastK::PtrInt, "bitcast" => CastK::Bitcast,
                    "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi, "uitofp" => CastK::UiToFp, "sitofp" => CastK::SiToFp, "fptrunc" => CastK::FpTrunc, _ => CastK::FpExt };
                Inst::Cast { k, from, to, dst: d, a }
            }
            "freeze" => { let (_, a) = self.tyop(); Inst::Copy { dst: d, a } }
            "select" => {
                self.flags(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"]);
                let (ct, c) = self.tyop(); self.comma();
                let (ty, a) = self.tyop(); self.comma();
                let (_, b) = self.tyop();
                Inst::Select { dst: d, c, a, b, ty, cvec: matches!(ct, Ty::Vec(..)) }
            }
            "load" => {
                self.flags(&["atomic", "volatile"]);
                let t = self.p.ty(); self.comma();
                let (_, addr) = self.tyop();
                match &t { Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => Inst::Load { dst: d, w: t.bits(), n: t.store_size() as u16, addr }, _ => Inst::LoadAgg { dst: d, ty: t, addr } }
            }
            "store" => {
                self.flags(&["atomic", "volatile"]);
                let (t, val) = self.tyop(); self.comma();
                let (_, addr) = self.tyop();
                match &t { Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => Inst::Store { w: t.bits(), n: t.store_size() as u16, val, addr }, _ => Inst::StoreAgg { ty: t, val, addr } }
            }
            "getelementptr" => {
                self.flags(&["inbounds", "nuw", "nusw"]);
                let bt = self.p.ty(); self.comma();
                let (pt, base) = self.tyop();
                if matches!(pt, Ty::Vec(..)) { self.p.err("vector gep"); }
                let mut off = 0u64;
                let mut idx = Vec::new();
                let mut cur = bt;
                let mut first = true;
                while { self.p.sp(); self.p.peek() == b',' } {
                    let save = self.p.i;
                    self.p.i += 1;
                    self.p.sp();
                    if self.p.peek() == b'!' { self.p.i = save; break; }
                    let (it, o) = self.tyop();
                    let (scale, next) = if first { (cur.size(), cur.clone()) } else {
                        match (&cur, &o) {
                            (Ty::Struct(..), Op::C(Val::I(i))) => { off = off.wrapping_add(cur.field_off(*i)); cur = cur.elem(*i); continue; }
                            (Ty::Arr(_, e), _) | (Ty::Vec(_, e), _) => (e.size(), (**e).clone()),
                            _ => self.p.err("gep"),
                        }
                    };
                    first = false;
                    cur = next;
                    match o {
                        Op::C(Val::I(i)) => off = off.wrapping_add((crate::expr::sext(i as u128, it.bits()) as i64 as u64).wrapping_mul(scale)),
                        o => idx.push((o, it.bits(), scale)),
                    }
                }
                Inst::Gep { dst: d, base, off, idx: idx.into() }
            }
            "alloca" => {
                self.flags(&["inalloca"]);
                let t = self.p.ty();
                let mut n = Op::C(Val::I(1));
                let mut al = t.align();
                while { self.p.sp(); self.p.peek() == b',' } {
                    self.p.i += 1;
                    if self.p.eat_word("align") { al = self.p.num(); } else { let (_, o) = self.tyop(); n = o; }
                }
                Inst::Alloca { dst: d, size: t.size(), align: al.max(1), n }
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let inv = w == "invoke";
                if !inv && w != "call" { if !self.p.eat_word("call") { self.p.err("call"); } }
                self.flags(&["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "coldcc", "ccc", "tailcc", "preserve_mostcc", "preserve_allcc"]);
                self.p.attrs();
                let ret = self.p.ty();
                self.p.ws();
                let callee = if self.p.peek() == b'@' {
                    self.p.i += 1;
                    let n = self.p.name();
                    match self.p.m.fidx.get(&n) { Some(i) => Callee::Fn(*i), None => match self.p.m.addr_of(&n) { Some(a) => Callee::Ind(Op::C(Val::I(a))), None => self.p.err("callee") } }
                } else if self.p.peek() == b'%' { Callee::Ind(self.op(&Ty::Ptr)) }
                else if self.p.eat_word("asm") {
                    let st = self.p.i;
                    // skip to the '(' that starts the args: two quoted strings
                    let mut q = 0;
                    while q < 4 { if self.p.peek() == b'"' { q += 1; } self.p.i += 1; }
                    Callee::Asm(String::from_utf8_lossy(&self.p.s[st..self.p.i]).into_owned())
                } else { let v = self.p.konst(&Ty::Ptr); Callee::Ind(Op::C(v)) };
                self.p.expect(b'(');
                let mut args = Vec::new();
                let mut argw = Vec::new();
                self.p.ws();
                if self.p.peek() == b')' { self.p.i += 1; } else {
                    loop {
                        let t = self.p.ty();
                        self.p.attrs();
                        if t == Ty::Meta {
                            // metadata operand: skip to , or )
                            let mut dep = 0;
                            loop { match self.p.peek() { b'(' => dep += 1, b')' if dep == 0 => break, b')' => dep -= 1, b',' if dep == 0 => break, _ => {} } self.p.i += 1; }
                            args.push(Op::C(Val::I(0)));
                        } else { args.push(self.op(&t)); }
                        argw.push(t);
                        if self.p.eat(b',') { continue; }
                        self.p.expect(b')');
                        break;
                    }
                }
                // operand bundles / attribute groups until "to label" or EOL
                let mut normal = None;
                if inv {
                    // skip until `to label`
                    loop {
                        self.p.ws();
                        if self.p.eat_word("to") { break; }
                        let c = self.p.peek();
                        if c == b'[' || c == b'(' { let (o, cl) = if c == b'[' { (b'[', b']') } else { (b'(', b')') }; let mut dep = 0; loop { if self.p.peek() == o { dep += 1 } else if self.p.peek() == cl { dep -= 1; if dep == 0 { self.p.i += 1; break; } } self.p.i += 1; } continue; }
                        self.p.i += 1;
                        while self.p.peek().is_ascii_alphanumeric() { self.p.i += 1; }
                    }
                    normal = Some(self.label());
                    if !self.p.eat_word("unwind") { self.p.err("unwind"); }
                    let _ = self.label();
                }
                Inst::Call(Box::new(CallI { dst, ret, callee, args, argw, normal }))
            }
            "extractvalue" => {
                let (_, a) = self.tyop();
                let mut idx = Vec::new();
                while { self.p.sp(); self.p.peek() == b',' } { self.p.i += 1; self.p.sp(); if self.p.peek() == b'!' { break; } idx.push(self.p.num() as u32); }
                Inst::ExtractValue { dst: d, a, idx }
            }
            "insertvalue" => {
                let (_, a) = self.tyop(); self.comma();
                let (_, v) = self.tyop();
                let mut idx = Vec::new();
                while { self.p.sp(); self.p.peek() == b',' } { self.p.i += 1; self.p.sp(); if self.p.peek() == b'!' { break; } idx.push(self.p.num() as u32); }
                Inst::InsertValue { dst: d, a, v, idx }
            }
            "extractelement" => { let (_, a) = self.tyop(); self.comma(); let (_, i) = self.tyop(); Inst::ExtractElem { dst: d, a, i } }
            "insertelement" => { let (_, a) = self.tyop(); self.comma(); let (_, v) = self.tyop(); self.comma(); let (_, i) = self.tyop(); Inst::InsertElem { dst: d, a, v, i } }
            "shufflevector" => {
                let (t, a) = self.tyop(); self.comma(); let (_, b) = self.tyop(); self.comma();
                let mt = self.p.ty();
                let mv = self.p.konst(&mt);
                let mask = match mv { Val::A(v) => v.iter().map(|x| match x { Val::I(i) => *i as i32, _ => 0 }).collect(), _ => self.p.err("mask") };
                let (n, ew) = match &t { Ty::Vec(n, e) => (*n as usize, e.bits()), _ => self.p.err("shuffle") };
                Inst::Shuffle { dst: d, a, b, n, mask, ew }
            }
            "atomicrmw" => {
                self.flags(&["volatile"]);
                let op = match self.p.word() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => { let x = x.to_string(); self.p.err(&x) } };
                let (_, addr) = self.tyop(); self.comma();
                let (t, v) = self.tyop();
                Inst::RmwI { dst: d, op, addr, v, w: t.bits() }
            }
            "cmpxchg" => {
                self.flags(&["weak", "volatile"]);
                let (_, addr) = self.tyop(); self.comma();
                let (t, c) = self.tyop(); self.comma();
                let (_, v) = self.tyop();
                Inst::CmpXchg { dst: d, addr, c, v, w: t.bits() }
            }
            "fence" => Inst::Nop,
            "landingpad" => {
                // clauses on following lines
                self.eol();
                loop {
                    let k = self.p.i;
                    let w = self.p.peek_word();
                    if w == "cleanup" || w == "catch" || w == "filter" { self.eol2(); } else { self.p.i = k; break; }
                }
                return Tmp::I(Inst::LandingPad);
            }
            "phi" => {
                self.flags(&["fast", "nnan", "ninf", "nsz"]);
                let t = self.p.ty();
                let mut v = Vec::new();
                loop {
                    self.p.expect(b'[');
                    let o = self.op(&t); self.comma();
                    self.p.expect(b'%');
                    let n = self.p.name();
                    let b = self.blk(n);
                    self.p.expect(b']');
                    v.push((o, b));
                    self.p.sp();
                    if self.p.peek() == b',' {
                        let k = self.p.i; self.p.i += 1; self.p.sp();
                        if self.p.peek() == b'!' { self.p.i = k; break; }
                        continue;
                    }
                    break;
                }
                self.eol();
                return Tmp::Phi(d, t, v);
            }
            "br" => {
                if self.p.peek_word() == "label" { Inst::Br(self.label()) }
                else { let (_, c) = self.tyop(); self.comma(); let t = self.label(); self.comma(); let f = self.label(); Inst::CondBr { c, t, f } }
            }
            "switch" => {
                let (t, v) = self.tyop(); self.comma();
                let def = self.label();
                self.p.expect(b'[');
                let mut cases = Vec::new();
                while !self.p.eat(b']') {
                    let ct = self.p.ty();
                    let c = self.p.konst(&ct);
                    let c = match c { Val::I(x) => x as u128, Val::W(x) => *x, _ => self.p.err("case") };
                    self.comma();
                    let l = self.label();
                    cases.push((c, l));
                }
                Inst::Switch { w: t.bits(), v, def, cases }
            }
            "ret" => { let t = self.p.ty(); if t == Ty::Void { Inst::Ret(None) } else { let o = self.op(&t); Inst::Ret(Some(o)) } }
            "unreachable" => Inst::Unreachable,
            "resume" => Inst::Resume,
            _ => self.p.err(&format!("instruction '{}'", w)),
        };
        self.eol();
        Tmp::I(r)
    }
    fn eol2(&mut self) { self.p.ws(); self.eol(); }
}



fn parse_func_inner(m: &Module, d: &FuncDecl) -> Func {
    let (a, b) = d.body.expect("no body");
    let s = &m.text[..b];
    // header
    let hdr_end = a + m.text[a..b].iter().position(|c| *c == b'\n').unwrap();
    let at = a + m.text[a..hdr_end].iter().position(|c| *c == b'@').unwrap();
    let mut fp = FP { p: P::new(s, at + 1, m), regs: HashMap::new(), blks: HashMap::new() };
    let _ = fp.p.name();
    fp.p.expect(b'(');
    let mut params = Vec::new();
    let mut unnamed = 0;
    fp.p.ws();
    if fp.p.peek() == b')' { fp.p.i += 1; } else {
        let mut k = 0;
        loop {
            fp.p.ws();
            if fp.p.peek() == b'.' { fp.p.i += 3; fp.p.expect(b')'); break; }
            let _t = fp.p.ty();
            fp.p.attrs();
            fp.p.ws();
            let n = if fp.p.peek() == b'%' { fp.p.i += 1; fp.p.name() } else { k.to_string() };
            k += 1;
            if n.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
            let r = fp.reg(n);
            params.push(r);
            if fp.p.eat(b',') { continue; }
            fp.p.expect(b')');
            break;
        }
    }
    fp.p.i = hdr_end;
    let mut blocks: HashMap<u32, Vec<Tmp>> = HashMap::new();
    let mut order: Vec<u32> = Vec::new();
    let mut cur: Option<u32> = None;
    loop {
        fp.p.ws();
        if fp.p.peek() == b'}' { break; }
        // label?
        let k = fp.p.i;
        let lab = if fp.p.peek() == b'"' { fp.p.name() } else { fp.p.word_nows().to_string() };
        if !lab.is_empty() && fp.p.peek() == b':' {
            fp.p.i += 1;
            let id = fp.blk(lab);
            cur = Some(id);
            order.push(id);
            blocks.insert(id, Vec::new());
            continue;
        }
        fp.p.i = k;
        if cur.is_none() {
            // unnamed entry block: its implicit number = number of unnamed params
            let id = fp.blk(format!("{}", unnamed));
            cur = Some(id);
            order.push(id);
            blocks.insert(id, Vec::new());
        }
        let t = fp.inst();
        blocks.get_mut(&cur.unwrap()).unwrap().push(t);
    }
    // renumber blocks so that entry is 0
    let nb = fp.blks.len();
    let mut renum = vec![u32::MAX; nb];
    for (i, b) in order.iter().enumerate() { renum[*b as usize] = i as u32; }
    // phis per block
    let mut phis: Vec<Vec<(u32, Vec<(Op, u32)>)>> = vec![Vec::new(); order.len()];
    let mut out: Vec<Vec<Inst>> = Vec::new();
    for b in &order {
        let mut v = Vec::new();
        for t in blocks.remove(b).unwrap() {
            match t { Tmp::I(i) => v.push(i), Tmp::Phi(d, _, xs) => phis[renum[*b as usize] as usize].push((d, xs)) }
        }
        out.push(v);
    }
    let inv: Vec<u32> = order.clone(); // new -> old id
    let fix = |e: &mut Edge, from_new: u32| {
        let nb = renum[e.blk as usize];
        e.blk = nb;
        if nb == u32::MAX { return; }
        let old_from = inv[from_new as usize];
        let mut c = Vec::new();
        for (d, xs) in &phis[nb as usize] {
            let o = xs.iter().find(|x| x.1 == old_from);
            if let Some(o) = o { c.push((*d, o.0.clone())); }
        }
        e.copies = c.into();
    };
    for (bi, blk) in out.iter_mut().enumerate() {
        for ins in blk.iter_mut() {
            match ins {
                Inst::Br(e) => fix(e, bi as u32),
                Inst::CondBr { t, f, .. } => { fix(t, bi as u32); fix(f, bi as u32); }
                Inst::Switch { def, cases, .. } => { fix(def, bi as u32); for c in cases { fix(&mut c.1, bi as u32); } }
                Inst::Call(c) => if let Some(e) = &mut c.normal { fix(e, bi as u32); },
                _ => {}
            }
        }
    }
    Func { name: d.name.clone(), blocks: out, nregs: fp.regs.len() as u32, params }
}
