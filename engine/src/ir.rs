//! Textual LLVM IR: module index, lazy per-function parsing into register code.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), Ptr, Float, Double, Array(u64, Rc<Ty>), Vector(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Func, Meta, Label, Token }
pub type R<X> = Result<X, String>;

pub fn align_to(x: u64, a: u64) -> u64 { (x + a - 1) / a * a }
impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, _ => 0 } }
    pub fn scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double) }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8, Ty::Ptr | Ty::Double => 8, Ty::Float => 4,
            Ty::Array(n, t) => n * t.alloc_size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(fs, packed) => { let mut o = 0; let mut al = 1; for f in fs.iter() { if !packed { let a = f.align(); al = al.max(a); o = align_to(o, a); } o += f.alloc_size(); } align_to(o, al) }
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::Double => 8, Ty::Float => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.store_size().next_power_of_two(),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|f| f.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn alloc_size(&self) -> u64 { align_to(self.store_size(), self.align()) }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => { let mut o = 0; for (j, f) in fs.iter().enumerate() { if !packed { o = align_to(o, f.align()); } if j == i { return o; } o += f.alloc_size(); } panic!("field index") }
            Ty::Array(_, t) | Ty::Vector(_, t) => t.alloc_size() * i as u64,
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn elem(&self, i: usize) -> Ty { match self { Ty::Struct(fs, _) => fs[i].clone(), Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(), _ => panic!("elem of {:?}", self) } }
    pub fn len(&self) -> usize { match self { Ty::Struct(fs, _) => fs.len(), Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize, _ => 0 } }
}

/// constant value (resolved)
#[derive(Clone, Debug)]
pub enum K { I(u128), Agg(Vec<K>), Zero, Undef, Bytes(Vec<u8>) }

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), K(u128), Agg(Rc<K>) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, Bit, FExt, FTrunc, SIToF, UIToF, FToSI, FToUI }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Indirect(Opd) }

#[derive(Clone, Debug)]
pub enum IK {
    Bin(Bin, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Fcmp(FPred, Ty, Opd, Opd),
    Cast(Cast, Ty, Ty, Opd),
    FNeg(Ty, Opd),
    Select(Ty, bool, Opd, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Alloca(u64, Ty, Opd, u32),
    Call(Callee, Vec<(Ty, Opd)>, Ty, Option<u32>), // normal dest for invoke
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Rc<Vec<(u128, u32)>>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractValue(Opd, Vec<u32>),
    InsertValue(Ty, Opd, Opd, Vec<u32>),
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
    Copy(Opd),
    ExtractElement(Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Rc<K>),
    Bad(Rc<String>),
}
#[derive(Clone, Debug)]
pub struct Inst { pub dst: u32, pub k: IK }
pub const NODST: u32 = u32::MAX;
#[derive(Debug, Default)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub phi_tys: Vec<Ty>, pub insts: Vec<Inst>, pub name: String }
#[derive(Debug)]
pub struct Func { pub id: u32, pub name: String, pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block>, pub rpo: Vec<u32> }

pub struct FuncInfo { pub name: String, pub header: usize, pub body: Option<(usize, usize)> } // byte ranges in text
pub struct GlobalInfo { pub name: String, pub constant: bool, pub ty: Ty, pub init: Option<(usize, usize)>, pub size: u64, pub ext: bool }

pub struct Module {
    pub text: &'static str,
    pub funcs: Vec<FuncInfo>,
    pub func_idx: HashMap<&'static str, u32>,
    pub globals: Vec<GlobalInfo>,
    pub global_idx: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, Ty>,
    pub parsed: Vec<Option<Rc<Func>>>,
    pub aliases: HashMap<&'static str, &'static str>,
}
pub const FUNC_BASE: u64 = 0x7f00_0000_0000_0000;
pub const OBJ_OFF: u64 = 0x10_0000; // base offset of each object inside its 2^32 window
pub fn func_addr(i: u32) -> u64 { FUNC_BASE | ((i as u64) << 4) }
pub fn global_addr(i: u32) -> u64 { ((i as u64 + 1) << 32) | OBJ_OFF }

struct P<'m> { m: &'m Module, s: &'static [u8], i: usize, t: &'static str, regs: HashMap<&'static str, u32>, labels: HashMap<&'static str, u32> }

fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-') }

impl<'m> P<'m> {
    fn new(m: &'m Module, t: &'static str) -> P<'m> { P { m, s: t.as_bytes(), i: 0, t, regs: HashMap::new(), labels: HashMap::new() } }
    fn ws(&mut self) { loop { while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\n' | b'\r') { self.i += 1; } if self.s[self.i..].starts_with(b"/*") { self.i += 2; while self.i < self.s.len() && !self.s[self.i..].starts_with(b"*/") { self.i += 1; } self.i += 2; } else if self.i < self.s.len() && self.s[self.i] == b';' { while self.i < self.s.len() && self.s[self.i] != b'\n' { self.i += 1; } } else { break } } }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, c: u8) -> bool { if self.peek() == c { self.i += 1; true } else { false } }
    fn expect(&mut self, c: u8) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' at '{}'", c as char, self.rest())) } }
    fn rest(&self) -> String { let mut e = (self.i + 80).min(self.s.len()); while !self.t.is_char_boundary(e) { e -= 1; } let mut b = self.i; while !self.t.is_char_boundary(b) { b -= 1; } self.t[b..e].to_string() }
    fn word(&mut self) -> &'static str { self.ws(); let st = self.i; while self.i < self.s.len() && idch(self.s[self.i]) { self.i += 1; } &self.t[st..self.i] }
    fn peek_word(&mut self) -> &'static str { let i = { self.ws(); self.i }; let w = self.word(); self.i = i; w }
    fn kw(&mut self, k: &str) -> bool { self.ws(); let st = self.i; if self.word() == k { true } else { self.i = st; false } }
    /// after sigil: name or quoted name
    fn name(&mut self) -> &'static str {
        if self.i < self.s.len() && self.s[self.i] == b'"' { self.i += 1; let st = self.i; while self.s[self.i] != b'"' { self.i += 1; } let r = &self.t[st..self.i]; self.i += 1; r }
        else { let st = self.i; while self.i < self.s.len() && idch(self.s[self.i]) { self.i += 1; } &self.t[st..self.i] }
    }
    fn num(&mut self) -> R<u64> { let w = self.word(); w.parse().map_err(|_| format!("number expected, got '{}' before '{}'", w, self.rest())) }
    fn skip_parens(&mut self) { if self.eat(b'(') { let mut d = 1; while d > 0 && self.i < self.s.len() { match self.s[self.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} } self.i += 1; } } }
    fn at_type(&mut self) -> bool {
        match self.peek() { b'{' | b'[' | b'<' => true, b'%' => true,
            _ => { let w = self.peek_word(); is_type_word(w) } }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            b'{' => { self.i += 1; let mut fs = vec![]; if !self.eat(b'}') { loop { fs.push(self.ty()?); if !self.eat(b',') { break; } } self.expect(b'}')?; } Ty::Struct(Rc::new(fs), false) }
            b'[' => { self.i += 1; let n = self.num()?; if !self.kw("x") { return Err("x".into()); } let t = self.ty()?; self.expect(b']')?; Ty::Array(n, Rc::new(t)) }
            b'<' => { self.i += 1; if self.peek() == b'{' { self.i += 1; let mut fs = vec![]; if !self.eat(b'}') { loop { fs.push(self.ty()?); if !self.eat(b',') { break; } } self.expect(b'}')?; } self.expect(b'>')?; Ty::Struct(Rc::new(fs), true) }
                else { let n = self.num()?; if !self.kw("x") { return Err("x".into()); } let t = self.ty()?; self.expect(b'>')?; Ty::Vector(n, Rc::new(t)) } }
            b'%' => { self.i += 1; let n = self.name(); self.m.types.get(n).cloned().ok_or_else(|| format!("unknown type %{}", n))? }
            _ => { let w = self.word(); match w { "void" => Ty::Void, "ptr" => { if self.kw("addrspace") { self.skip_parens(); } Ty::Ptr } "float" => Ty::Float, "double" => Ty::Double, "metadata" => Ty::Meta, "label" => Ty::Label, "token" => Ty::Token,
                _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => return Err(format!("type expected, got '{}' at '{}'", w, self.rest())) } }
        };
        // function type
        if self.peek() == b'(' { self.skip_parens(); return Ok(Ty::Func); }
        Ok(t)
    }
    fn skip_attrs(&mut self) {
        loop {
            self.ws();
            match self.peek() {
                b'#' => { self.i += 1; self.word(); }
                b'"' => { self.i += 1; self.i -= 1; self.name(); if self.peek() == b'=' { self.i += 1; self.ws(); self.name(); } }
                c if c.is_ascii_alphabetic() => {
                    let w = self.peek_word();
                    if is_type_word(w) || is_value_word(w) { return; }
                    if !is_attr_word(w) { return; }
                    self.word();
                    if w == "align" || w == "cc" { if self.peek() == b'(' { self.skip_parens(); } else { let _ = self.num(); } continue; }
                    if self.peek() == b'(' { self.skip_parens(); }
                }
                _ => return,
            }
        }
    }
    fn reg(&mut self, n: &'static str) -> u32 { let l = self.regs.len() as u32; *self.regs.entry(n).or_insert(l) }
    fn sym_addr(&self, n: &str) -> R<u64> {
        if let Some(&i) = self.m.func_idx.get(n) { return Ok(func_addr(i)); }
        if let Some(&i) = self.m.global_idx.get(n) { return Ok(global_addr(i)); }
        if let Some(a) = self.m.aliases.get(n) { return self.sym_addr(a); }
        Err(format!("unknown symbol @{}", n))
    }
    fn value(&mut self, ty: &Ty) -> R<Opd> {
        self.ws();
        if self.peek() == b'%' { self.i += 1; let n = self.name(); let r = self.reg(n); return Ok(Opd::Reg(r)); }
        Ok(match self.konst(ty)? { K::I(v) => Opd::K(v), K::Zero | K::Undef if ty.scalar() => Opd::K(0), k => Opd::Agg(Rc::new(k)) })
    }
    /// +inf, -qnan, +nan(0x1), +snan(0x1), f0x7FF0000000000000: the bits
    fn fp_name(&mut self, ty: &Ty, neg: bool) -> R<Option<u128>> {
        let save = self.i;
        if matches!(self.peek(), b'+' | b'-') { self.i += 1; }
        if self.peek().is_ascii_digit() || self.peek() == b'.' { // +1.5
            let st = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) { self.i += 1; }
            let v = self.t[st..self.i].parse::<f64>().map_err(|e| e.to_string())?; let v = if neg { -v } else { v };
            return Ok(Some(if *ty == Ty::Float { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }));
        }
        let w = self.word().to_string();
        let (exp, quiet, sign) = if *ty == Ty::Float { (0x7f80_0000u64, 0x40_0000u64, 1u64 << 31) } else { (0x7ff0 << 48, 1 << 51, 1 << 63) };
        let mut payload = |s: &mut Self| -> R<u64> { s.expect(b'(')?; let h = s.word().to_string(); let h = h.trim_start_matches("0x"); let v = u64::from_str_radix(h, 16).map_err(|e| e.to_string())?; s.expect(b')')?; Ok(v) };
        let b = match w.as_str() {
            "inf" => exp, "qnan" => exp | quiet, "nan" => exp | quiet | payload(self)?, "snan" => exp | payload(self)?,
            w if w.starts_with("f0x") => u64::from_str_radix(&w[3..], 16).map_err(|e| e.to_string())?,
            _ => { self.i = save; return Ok(None); }
        };
        Ok(Some((b | if neg { sign } else { 0 }) as u128))
    }
    fn konst(&mut self, ty: &Ty) -> R<K> {
        let m = if ty.bits() == 0 { !0 } else { crate::term::mask(ty.bits()) };
        match self.peek() {
            b'@' => { self.i += 1; let n = self.name(); return Ok(K::I(self.sym_addr(n)? as u128)); }
            b'{' => { self.i += 1; let mut v = vec![]; if !self.eat(b'}') { loop { let t = self.ty()?; v.push(self.konst(&t)?); if !self.eat(b',') { break; } } self.expect(b'}')?; } return Ok(K::Agg(v)); }
            b'[' => { self.i += 1; let mut v = vec![]; if !self.eat(b']') { loop { let t = self.ty()?; v.push(self.konst(&t)?); if !self.eat(b',') { break; } } self.expect(b']')?; } return Ok(K::Agg(v)); }
            b'<' => { self.i += 1; let br = self.eat(b'{'); let mut v = vec![]; let close = if br { b'}' } else { b'>' }; if !self.eat(close) { loop { let t = self.ty()?; v.push(self.konst(&t)?); if !self.eat(b',') { break; } } self.expect(close)?; } if br { self.expect(b'>')?; } return Ok(K::Agg(v)); }
            b'-' | b'0'..=b'9' => {
                if matches!(ty, Ty::Float | Ty::Double) && self.peek() == b'-' && self.s.get(self.i + 1).map_or(false, |c| c.is_ascii_alphabetic()) { if let Some(b) = self.fp_name(ty, true)? { return Ok(K::I(b)); } }
                let w = { let st = self.i; if self.s[self.i] == b'-' { self.i += 1; } while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) { self.i += 1; } &self.t[st..self.i] };
                if matches!(ty, Ty::Float | Ty::Double) {
                    let bits = if let Some(h) = w.strip_prefix("0x") { u64::from_str_radix(h, 16).map_err(|e| e.to_string())? } else { w.parse::<f64>().map_err(|e| e.to_string())?.to_bits() };
                    return Ok(K::I(if *ty == Ty::Float { (f64::from_bits(bits) as f32).to_bits() as u128 } else { bits as u128 }));
                }
                let v: u128 = if let Some(r) = w.strip_prefix('-') { r.parse::<u128>().map_err(|e| format!("{} {}", e, w))?.wrapping_neg() } else { w.parse::<u128>().map_err(|e| format!("{} '{}'", e, w))? };
                return Ok(K::I(v & m));
            }
            _ => {}
        }
        if self.s[self.i] == b'c' && self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' {
            self.i += 2; let mut v = vec![];
            while self.s[self.i] != b'"' { if self.s[self.i] == b'\\' && self.s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; } else if self.s[self.i] == b'\\' { v.push(u8::from_str_radix(&self.t[self.i + 1..self.i + 3], 16).map_err(|e| e.to_string())?); self.i += 3; } else { v.push(self.s[self.i]); self.i += 1; } }
            self.i += 1;
            return Ok(K::Bytes(v));
        }
        if matches!(ty, Ty::Float | Ty::Double) && matches!(self.peek(), b'+' | b'f') { let neg = false; if let Some(b) = self.fp_name(ty, neg)? { return Ok(K::I(b)); } }
        let w = self.word();
        match w {
            "true" => Ok(K::I(1)), "false" => Ok(K::I(0)), "null" | "none" => Ok(K::I(0)),
            "undef" | "poison" => Ok(K::Undef), "zeroinitializer" => Ok(K::Zero),
            "splat" => { self.expect(b'(')?; let t = self.ty()?; let k = self.konst(&t)?; self.expect(b')')?; Ok(K::Agg(vec![k; ty.len()])) }
            "getelementptr" => {
                while self.peek() != b'(' { let w = self.word(); if w.is_empty() { return Err(format!("gep const at {}", self.rest())); } if w == "inrange" { self.skip_parens(); } }
                self.expect(b'(')?;
                let st = self.ty()?; self.expect(b',')?; let bt = self.ty()?; let b = match self.konst(&bt)? { K::I(v) => v as u64, _ => return Err("gep base".into()) };
                let mut off = 0i64; let mut cur = st; let mut first = true;
                while self.eat(b',') { if self.kw("inrange") {} let it = self.ty()?; let iv = match self.konst(&it)? { K::I(v) => crate::term::sext128(v, it.bits()) as i64, K::Zero => 0, _ => return Err("gep idx".into()) };
                    if first { off += iv * cur.alloc_size() as i64; first = false; } else { off += cur.field_off(iv as usize) as i64; cur = cur.elem(iv as usize); } }
                self.expect(b')')?;
                Ok(K::I(b.wrapping_add(off as u64) as u128))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "addrspacecast" => { self.expect(b'(')?; let t = self.ty()?; let v = self.konst(&t)?; if !self.kw("to") { return Err("to".into()); } let t2 = self.ty()?; self.expect(b')')?; Ok(match v { K::I(v) => K::I(v & crate::term::mask(t2.bits())), k => k }) }
            "add" | "sub" | "xor" | "mul" => { while self.peek() != b'(' { self.word(); } self.expect(b'(')?; let t = self.ty()?; let a = self.konst(&t)?; self.expect(b',')?; let t2 = self.ty()?; let b = self.konst(&t2)?; self.expect(b')')?;
                match (a, b) { (K::I(a), K::I(b)) => Ok(K::I((match w { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), _ => a ^ b }) & m)), _ => Err("const expr".into()) } }
            _ => Err(format!("constant expected, got '{}' at '{}'", w, self.rest())),
        }
    }
    fn tval(&mut self) -> R<(Ty, Opd)> { let t = self.ty()?; self.skip_attrs(); let v = self.value(&t)?; Ok((t, v)) }
    fn label(&mut self) -> R<u32> { if !self.kw("label") { return Err(format!("label at {}", self.rest())); } self.expect(b'%')?; let n = self.name(); self.labels.get(n).copied().ok_or_else(|| format!("label {}", n)) }

    fn call(&mut self) -> R<(Callee, Vec<(Ty, Opd)>, Ty)> {
        // after 'call'/'invoke': attrs ty callee (args) attrs
        loop { // flags, cc, return attributes
            self.ws();
            if self.at_type() { break; }
            let w = self.word();
            if w.is_empty() { if self.eat(b'"') { self.i -= 1; self.name(); continue; } return Err(format!("call at {}", self.rest())); }
            if w == "align" || w == "cc" { if self.peek() == b'(' { self.skip_parens() } else { self.num()?; } continue; }
            if self.peek() == b'(' { self.skip_parens(); }
        }
        // return type (maybe a function type for varargs)
        let st = self.i;
        let mut rt = self.ty()?;
        if rt == Ty::Func { // re-parse only the return type
            let e = self.i; self.i = st; rt = self.ty_noparen()?; self.i = e;
        }
        self.ws();
        let callee = match self.peek() {
            b'@' => { self.i += 1; let n = self.name(); let n = self.m.aliases.get(n).copied().unwrap_or(n); Callee::Func(*self.m.func_idx.get(n).ok_or_else(|| format!("unknown function {}", n))?) }
            b'%' => { self.i += 1; let n = self.name(); Callee::Indirect(Opd::Reg(self.reg(n))) }
            _ => { if self.kw("asm") { return Err("inline asm".into()); } match self.konst(&Ty::Ptr)? { K::I(v) => Callee::Indirect(Opd::K(v)), _ => return Err("callee".into()) } }
        };
        self.expect(b'(')?;
        let mut args = vec![];
        if !self.eat(b')') {
            loop {
                if self.peek() == b'.' { while self.peek() == b'.' { self.i += 1; } if !self.eat(b',') { break; } else { continue; } }
                let t = self.ty()?;
                if t == Ty::Meta { // skip the metadata operand
                    let mut d = 0; loop { self.ws(); let c = self.s[self.i]; if d == 0 && (c == b',' || c == b')') { break; } if c == b'(' || c == b'{' { d += 1 } if c == b')' || c == b'}' { d -= 1 } self.i += 1; }
                    args.push((Ty::Meta, Opd::K(0)));
                } else { self.skip_attrs(); let v = self.value(&t)?; args.push((t, v)); }
                if !self.eat(b',') { break; }
            }
            self.expect(b')')?;
        }
        Ok((callee, args, rt))
    }
    fn ty_noparen(&mut self) -> R<Ty> { // a type that is followed by '(' which must not be consumed as function type
        let st = self.i; let _ = st;
        match self.peek() { b'{' | b'[' | b'<' | b'%' => Err("complex return of function type".into()), _ => { let w = self.word(); Ok(match w { "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::Float, "double" => Ty::Double, _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| "rt".to_string())?), _ => return Err("rt".into()) }) } }
    }
    fn inst(&mut self) -> R<Inst> {
        let mut dst = NODST;
        if self.peek() == b'%' { self.i += 1; let n = self.name(); dst = self.reg(n); self.expect(b'=')?; }
        let op = self.word();
        let k = match op {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !self.at_type() { if self.word().is_empty() { return Err(format!("bin at {}", self.rest())); } }
                let t = self.ty()?; let a = self.value(&t)?; self.expect(b',')?; let b = self.value(&t)?;
                let o = match op { "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "urem" => Bin::URem, "sdiv" => Bin::SDiv, "srem" => Bin::SRem, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "fdiv" => Bin::FDiv, _ => Bin::FRem };
                IK::Bin(o, t, a, b)
            }
            "fneg" => { while !self.at_type() { self.word(); } let (t, v) = self.tval()?; IK::FNeg(t, v) }
            "icmp" => {
                let mut p = self.word(); if p == "samesign" { p = self.word(); }
                let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, _ => return Err(format!("icmp {}", p)) };
                let t = self.ty()?; let a = self.value(&t)?; self.expect(b',')?; let b = self.value(&t)?; IK::Icmp(p, t, a, b)
            }
            "fcmp" => {
                let mut p = self.word(); while matches!(p, "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { p = self.word(); }
                let p = match p { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True, _ => return Err(format!("fcmp {}", p)) };
                let t = self.ty()?; let a = self.value(&t)?; self.expect(b',')?; let b = self.value(&t)?; IK::Fcmp(p, t, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fpext" | "fptrunc" | "sitofp" | "uitofp" | "fptosi" | "fptoui" | "addrspacecast" | "ptrtoaddr" => {
                while !self.at_type() { if self.word().is_empty() { return Err("cast".into()); } }
                let (t, v) = self.tval()?; if !self.kw("to") { return Err("to".into()); } let t2 = self.ty()?;
                let c = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fpext" => Cast::FExt, "fptrunc" => Cast::FTrunc, "sitofp" => Cast::SIToF, "uitofp" => Cast::UIToF, "fptosi" => Cast::FToSI, "fptoui" => Cast::FToUI, "ptrtoint" | "inttoptr" => if t2.bits() < t.bits() { Cast::Trunc } else if t2.bits() > t.bits() { Cast::ZExt } else { Cast::Bit }, _ => Cast::Bit };
                IK::Cast(c, t, t2, v)
            }
            "freeze" => { let (_, v) = self.tval()?; IK::Copy(v) }
            "select" => { while !self.at_type() { self.word(); } let (ct, c) = self.tval()?; self.expect(b',')?; let (t, a) = self.tval()?; self.expect(b',')?; let (_, b) = self.tval()?; IK::Select(t, matches!(ct, Ty::Vector(..)), c, a, b) }
            "load" => { while !self.at_type() { self.word(); } let t = self.ty()?; self.expect(b',')?; let (_, p) = self.tval()?; IK::Load(t, p) }
            "store" => { while !self.at_type() { self.word(); } let (t, v) = self.tval()?; self.expect(b',')?; let (_, p) = self.tval()?; IK::Store(t, v, p) }
            "getelementptr" => {
                while !self.at_type() { let w = self.word(); if w.is_empty() { return Err("gep".into()); } }
                let t = self.ty()?; self.expect(b',')?; let (_, b) = self.tval()?;
                let mut off = 0i64; let mut cur = t; let mut first = true; let mut terms = vec![];
                while self.eat(b',') {
                    if self.peek() == b'!' { break; }
                    let (it, iv) = self.tval()?;
                    let scale = if first { cur.alloc_size() as i64 } else if let Ty::Array(_, e) | Ty::Vector(_, e) = &cur { e.alloc_size() as i64 } else { -1 };
                    match iv {
                        Opd::K(v) => { let i = crate::term::sext128(v, it.bits()) as i64; if scale >= 0 { off += i * scale } else { off += cur.field_off(i as usize) as i64 } if !first { cur = cur.elem(i as usize) } }
                        v => { if scale < 0 { return Err("gep struct idx".into()); } terms.push((v, it.bits(), scale)); if !first { cur = cur.elem(0) } }
                    }
                    first = false;
                }
                IK::Gep(b, off, terms)
            }
            "alloca" => { while !self.at_type() { self.word(); } let t = self.ty()?; let mut n = (Ty::Int(64), Opd::K(1)); 
                let mut nb = 64;
                while self.eat(b',') { if self.kw("align") { self.num()?; } else if self.kw("addrspace") { self.skip_parens(); } else if self.peek() == b'!' { break; } else { n = self.tval()?; nb = n.0.bits(); } } IK::Alloca(t.alloc_size(), t, n.1, nb) }
            "call" => { let (c, a, t) = self.call()?; IK::Call(c, a, t, None) }
            "tail" | "musttail" | "notail" => { if !self.kw("call") { return Err("call".into()); } let (c, a, t) = self.call()?; IK::Call(c, a, t, None) }
            "invoke" => { let (c, a, t) = self.call()?; 
                // fn attrs until 'to'
                loop { self.ws(); if self.kw("to") { break; } if self.peek() == b'#' { self.i += 1; self.word(); } else if self.peek() == b'"' { self.name(); } else if self.peek() == b'[' { while !self.eat(b']') { self.i += 1; } } else { let w = self.word(); if w.is_empty() { return Err(format!("invoke at {}", self.rest())); } if self.peek() == b'(' { self.skip_parens(); } } }
                let l = self.label()?; IK::Call(c, a, t, Some(l)) }
            "br" => { if self.peek_word() == "label" { IK::Br(self.label()?) } else { let (_, c) = self.tval()?; self.expect(b',')?; let a = self.label()?; self.expect(b',')?; let b = self.label()?; IK::CondBr(c, a, b) } }
            "switch" => { let (t, v) = self.tval()?; self.expect(b',')?; let d = self.label()?; self.expect(b'[')?; let mut cs = vec![]; while !self.eat(b']') { let t = self.ty()?; let k = match self.konst(&t)? { K::I(k) => k, _ => return Err("switch".into()) }; self.expect(b',')?; cs.push((k, self.label()?)); } IK::Switch(t.bits(), v, d, Rc::new(cs)) }
            "ret" => { if self.kw("void") { IK::Ret(None) } else { IK::Ret(Some(self.tval()?)) } }
            "unreachable" => IK::Unreachable,
            "extractvalue" => { let (_, v) = self.tval()?; let mut ix = vec![]; while self.eat(b',') { if self.peek() == b'!' { break; } ix.push(self.num()? as u32); } IK::ExtractValue(v, ix) }
            "insertvalue" => { let (t, v) = self.tval()?; self.expect(b',')?; let (_, e) = self.tval()?; let mut ix = vec![]; while self.eat(b',') { if self.peek() == b'!' { break; } ix.push(self.num()? as u32); } IK::InsertValue(t, v, e, ix) }
            "extractelement" => { let (_, v) = self.tval()?; self.expect(b',')?; let (_, i) = self.tval()?; IK::ExtractElement(v, i) }
            "insertelement" => { let (t, v) = self.tval()?; self.expect(b',')?; let (_, e) = self.tval()?; self.expect(b',')?; let (_, i) = self.tval()?; IK::InsertElement(t, v, e, i) }
            "shufflevector" => { let (t, a) = self.tval()?; self.expect(b',')?; let (_, b) = self.tval()?; self.expect(b',')?; let mt = self.ty()?; let m = self.konst(&mt)?; let m = match m { K::Zero | K::Undef => K::Agg(vec![K::I(0); mt.len()]), k => k }; IK::Shuffle(t, a, b, Rc::new(m)) }
            "atomicrmw" => { self.kw("volatile"); let o = self.word(); let (_, p) = self.tval()?; self.expect(b',')?; let (t, v) = self.tval()?; IK::AtomicRmw(o.to_string(), t, p, v) }
            "cmpxchg" => { self.kw("weak"); self.kw("volatile"); let (_, p) = self.tval()?; self.expect(b',')?; let (t, a) = self.tval()?; self.expect(b',')?; let (_, b) = self.tval()?; IK::CmpXchg(t, p, a, b) }
            "fence" => IK::Nop,
            "landingpad" | "resume" => IK::Bad(Rc::new(format!("{} reached", op))),
            _ => return Err(format!("instruction '{}'", op)),
        };
        Ok(Inst { dst, k })
    }
}
fn is_type_word(w: &str) -> bool { matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token") || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit())) }
fn is_value_word(w: &str) -> bool { matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "add" | "sub" | "xor" | "splat" | "none" | "c") }
fn is_attr_word(w: &str) -> bool { !w.is_empty() && !is_value_word(w) && !w.as_bytes()[0].is_ascii_digit() && w != "to" }

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?.into_boxed_str());
        let mut m = Module { text, funcs: vec![], func_idx: HashMap::new(), globals: vec![], global_idx: HashMap::new(), types: HashMap::new(), parsed: vec![], aliases: HashMap::new() };
        let mut pos = 0; let mut glines = vec![]; let mut tlines = vec![];
        let bytes = text.as_bytes();
        while pos < bytes.len() {
            let e = match text[pos..].find('\n') { Some(k) => pos + k, None => bytes.len() };
            let line = &text[pos..e];
            let mut next = e + 1;
            if line.starts_with("define ") {
                let at = line.find('@').ok_or("define")?;
                let name = sym_name(&line[at + 1..]);
                let end = match text[e..].find("\n}") { Some(k) => e + k + 1, None => return Err("unterminated function".into()) };
                let id = m.funcs.len() as u32;
                m.funcs.push(FuncInfo { name: name.to_string(), header: pos, body: Some((e + 1, end)) });
                m.func_idx.insert(name, id);
                next = end + 2;
            } else if line.starts_with("declare ") {
                let at = line.find('@').ok_or("declare")?; let name = sym_name(&line[at + 1..]);
                let id = m.funcs.len() as u32; m.funcs.push(FuncInfo { name: name.to_string(), header: pos, body: None }); m.func_idx.insert(name, id);
            } else if line.starts_with('@') { glines.push((pos, e)); }
            else if line.starts_with('%') { tlines.push((pos, e)); }
            pos = next;
        }
        m.parsed = (0..m.funcs.len()).map(|_| None).collect();
        for (s, e) in tlines { let l = &text[s..e]; let mut p = P::new(&m, &l[1..]); let n = p.name(); p.expect(b'=')?; p.kw("type"); if p.kw("opaque") { continue; } let t = p.ty()?; m.types.insert(n, t); }
        for &(s, e) in &glines {
            let l = &text[s..e]; let mut p = P::new(&m, &l[1..]); let n = p.name(); p.expect(b'=')?;
            let mut constant = false; let mut ext = false; let mut alias = false;
            loop { let w = p.word(); match w { "constant" => { constant = true; break; } "global" => break, "external" | "extern_weak" => ext = true, "alias" => { alias = true; break; } "thread_local" | "addrspace" => { if p.peek() == b'(' { p.skip_parens(); } } "" => return Err(format!("global {}", n)), _ => {} } }
            let ty = p.ty()?;
            if alias { p.expect(b',')?; p.ty()?; p.expect(b'@')?; let t = p.name(); m.aliases.insert(n, t); continue; }
            p.ws();
            let st = s + 1 + p.i;
            let id = m.globals.len() as u32; let size = ty.alloc_size();
            m.globals.push(GlobalInfo { name: n.to_string(), constant, ty, init: if ext { None } else { Some((st, e)) }, size, ext });
            m.global_idx.insert(n, id);
        }
        Ok(m)
    }
    pub fn global_init(&self, i: u32) -> R<Vec<u8>> {
        let g = &self.globals[i as usize];
        let mut out = vec![0u8; g.size as usize];
        if let Some((s, e)) = g.init { let mut p = P::new(self, &self.text[s..e]); let k = p.konst(&g.ty)?; lay(&g.ty, &k, &mut out, 0)?; }
        Ok(out)
    }
    pub fn func(&mut self, id: u32) -> R<Rc<Func>> {
        if let Some(f) = &self.parsed[id as usize] { return Ok(f.clone()); }
        let f = Rc::new(self.parse_func(id)?);
        self.parsed[id as usize] = Some(f.clone());
        Ok(f)
    }
    fn parse_func(&self, id: u32) -> R<Func> {
        let fi = &self.funcs[id as usize];
        let (bs, be) = fi.body.ok_or("no body")?;
        let hdr = &self.text[fi.header..bs];
        let mut p = P::new(self, hdr);
        // parameters
        let at = hdr.find('@').unwrap(); p.i = at + 1; p.name(); p.expect(b'(')?;
        let mut params = vec![];
        if !p.eat(b')') { loop { if p.peek() == b'.' { break; } p.ty()?; p.skip_attrs(); p.expect(b'%')?; let n = p.name(); params.push(p.reg(n)); if !p.eat(b',') { break; } } }
        // labels
        let body = &self.text[bs..be];
        let mut blocks: Vec<Block> = vec![];
        let mut lines: Vec<(u32, &'static str)> = vec![];
        let mut cur = u32::MAX;
        let mut it = body.split('\n').peekable();
        while let Some(l) = it.next() {
            if l.is_empty() { continue; }
            let c = l.as_bytes()[0];
            if c != b' ' {
                if c == b';' { continue; }
                // label
                let name = if c == b'"' { let e = l[1..].find('"').unwrap(); &l[1..1 + e] } else { let e = l.find(':').ok_or_else(|| format!("label line {}", l))?; &l[..e] };
                cur = blocks.len() as u32; blocks.push(Block { name: name.to_string(), ..Default::default() }); p.labels.insert(name, cur);
                continue;
            }
            if cur == u32::MAX { cur = 0; blocks.push(Block { name: "".into(), ..Default::default() }); 
                // unnamed entry block: its label number is the next unnamed value
                let n: &'static str = Box::leak(params.len().to_string().into_boxed_str()); p.labels.insert(n, 0); }
            let t = l.trim_start();
            if t.starts_with("#dbg_") || t.starts_with(';') { continue; }
            // continuation lines: switch tables, invoke destinations, landingpad clauses
            if t.starts_with("switch ") && !t.contains(']') {
                let s = l.as_ptr() as usize - body.as_ptr() as usize; let e = body[s..].find("\n  ]").ok_or("switch end")? + s + 4;
                lines.push((cur, &body[s..e]));
                while let Some(n) = it.next() { if n.starts_with("  ]") { break; } }
                continue;
            }
            let isinv = t.starts_with("invoke ") || t.contains(" = invoke ");
            if isinv { let s = l.as_ptr() as usize - body.as_ptr() as usize; let n = it.next().ok_or("invoke")?; let e = n.as_ptr() as usize - body.as_ptr() as usize + n.len(); lines.push((cur, &body[s..e])); continue; }
            if t.contains("= landingpad ") { while let Some(n) = it.peek() { let n = n.trim_start(); if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") { it.next(); } else { break; } } }
            lines.push((cur, l));
        }
        for (b, l) in lines {
            let mut q = P { m: self, s: l.as_bytes(), i: 0, t: l, regs: std::mem::take(&mut p.regs), labels: std::mem::take(&mut p.labels) };
            let t = l.trim_start();
            if t.contains(" = phi ") && t.starts_with('%') {
                q.expect(b'%')?; let n = q.name(); let d = q.reg(n); q.expect(b'=')?; q.word(); while !q.at_type() { q.word(); } let ty = q.ty()?;
                let mut inc = vec![];
                loop { q.expect(b'[')?; let v = q.value(&ty)?; q.expect(b',')?; q.expect(b'%')?; let n = q.name(); let lb = *q.labels.get(n).ok_or_else(|| format!("phi label {}", n))?; q.expect(b']')?; inc.push((lb, v)); if !q.eat(b',') { break; } if q.peek() == b'!' { break; } }
                blocks[b as usize].phis.push((d, inc)); blocks[b as usize].phi_tys.push(ty);
            } else {
                match q.inst() {
                    Ok(i) => blocks[b as usize].insts.push(i),
                    Err(e) => blocks[b as usize].insts.push(Inst { dst: NODST, k: IK::Bad(Rc::new(format!("cannot parse: {} in: {}", e, t.chars().take(200).collect::<String>()))) }),
                }
            }
            p.regs = q.regs; p.labels = q.labels;
        }
        narrow_divisions(&mut blocks);
        let rpo = rpo(&blocks);
        Ok(Func { id, name: fi.name.clone(), nregs: p.regs.len() as u32, params, blocks, rpo })
    }
}
/// reverse post-order number of each block
fn rpo(blocks: &[Block]) -> Vec<u32> {
    let succ = |b: usize| -> Vec<u32> { match blocks[b].insts.last().map(|i| &i.k) { Some(IK::Br(l)) => vec![*l], Some(IK::CondBr(_, x, y)) => vec![*x, *y], Some(IK::Switch(_, _, d, cs)) => { let mut v: Vec<u32> = cs.iter().map(|(_, l)| *l).collect(); v.push(*d); v } Some(IK::Call(_, _, _, Some(l))) => vec![*l], _ => vec![] } };
    let mut num = vec![u32::MAX; blocks.len()]; let mut next = blocks.len() as u32; let mut seen = vec![false; blocks.len()];
    if blocks.is_empty() { return num; }
    let mut stack = vec![(0usize, succ(0), 0usize)]; seen[0] = true;
    while let Some((b, s, i)) = stack.last_mut() {
        if *i < s.len() { let n = s[*i] as usize; *i += 1; if !seen[n] { seen[n] = true; stack.push((n, succ(n), 0)); } }
        else { next -= 1; num[*b] = next; stack.pop(); }
    }
    num
}
/// d when trunc((zext(x) * c) >> k) is x / d for every 128-bit x (multiplication by a reciprocal), else None
fn reciprocal(c: u128, k: u32) -> Option<u128> {
    if c < 3 || !(128..256).contains(&k) { return None; }
    let (mut q, mut r) = (0u128, 1u128);
    for _ in 0..k { let carry = r >> 127 == 1; r = r.wrapping_shl(1); if q >> 127 == 1 { return None; } q <<= 1; if carry || r >= c { r = r.wrapping_sub(c); q |= 1; } }
    let e = c - r; // c * (q + 1) = 2^k + e
    if r != 0 && e <= 1u128 << (k - 128) { q.checked_add(1) } else { None }
}
/// rewrites 128-bit divisions the compiler expressed through 256-bit products; every other wider value is unsupported
fn narrow_divisions(blocks: &mut [Block]) {
    let wide = |t: &Ty| matches!(t, Ty::Int(w) if *w > 128);
    let is_wide = |k: &IK| match k { IK::Bin(_, t, ..) | IK::Icmp(_, t, ..) | IK::Select(t, ..) | IK::Load(t, _) | IK::Store(t, ..) => wide(t), IK::Cast(_, a, b, _) => wide(a) || wide(b), IK::Call(_, a, t, _) => wide(t) || a.iter().any(|(t, _)| wide(t)), _ => false };
    let mut def: HashMap<u32, IK> = HashMap::new();
    for b in blocks.iter() { for i in &b.insts { if is_wide(&i.k) { def.insert(i.dst, i.k.clone()); } } }
    if def.is_empty() { return; }
    let mut divs: HashMap<u32, IK> = HashMap::new();
    // a quotient may itself be divided again
    loop {
        let mut more = vec![];
        for (r, k) in &def { if let IK::Bin(Bin::LShr, Ty::Int(256), Opd::Reg(m), Opd::K(k)) = k { if let (false, Some(IK::Bin(Bin::Mul, _, Opd::Reg(z), Opd::K(c)))) = (divs.contains_key(r), def.get(m)) {
            let x = match def.get(z) { Some(IK::Cast(Cast::ZExt, Ty::Int(128), _, x)) => x.clone(), _ if divs.contains_key(z) => Opd::Reg(*z), _ => continue };
            if *k < 256 { if let Some(d) = reciprocal(*c, *k as u32) { more.push((*r, IK::Bin(Bin::UDiv, Ty::Int(128), x, Opd::K(d)))); } }
        } } }
        if more.is_empty() { break; }
        divs.extend(more);
    }
    for b in blocks.iter_mut() { for i in &mut b.insts {
        if !is_wide(&i.k) { continue; }
        if let Some(k) = divs.get(&i.dst) { i.k = k.clone(); continue; }
        i.k = match &i.k {
            IK::Cast(Cast::Trunc, _, Ty::Int(w), Opd::Reg(s)) if *w <= 128 && divs.contains_key(s) => if *w == 128 { IK::Copy(Opd::Reg(*s)) } else { IK::Cast(Cast::Trunc, Ty::Int(128), Ty::Int(*w), Opd::Reg(*s)) },
            // values only the rewritten divisions may use: anything else that uses them is itself wider than 128 bits
            IK::Cast(Cast::ZExt, Ty::Int(128), ..) | IK::Bin(Bin::Mul, ..) => IK::Nop,
            k => IK::Bad(Rc::new(format!("value wider than 128 bits: {:?}", k))),
        };
    } }
}
fn sym_name(s: &'static str) -> &'static str { if let Some(r) = s.strip_prefix('"') { &r[..r.find('"').unwrap()] } else { let e = s.bytes().position(|c| !idch(c)).unwrap_or(s.len()); &s[..e] } }
fn lay(t: &Ty, k: &K, out: &mut [u8], off: usize) -> R<()> {
    match k {
        K::Zero | K::Undef => {}
        K::Bytes(b) => out[off..off + b.len()].copy_from_slice(b),
        K::I(v) => { let n = t.store_size() as usize; out[off..off + n].copy_from_slice(&v.to_le_bytes()[..n]); }
        K::Agg(v) => { for (i, x) in v.iter().enumerate() { lay(&t.elem(i), x, out, off + t.field_off(i) as usize)?; } }
    }
    Ok(())
}
