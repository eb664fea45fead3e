//! Reader for textual LLVM IR (whole-program, post-LTO, as printed by rustc
//! --emit=llvm-ir).  Functions are decoded lazily, on first call.
use crate::expr::{mask, Op};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float,
    Double,
    Vec(u32, Box<Ty>),
    Arr(u64, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; b.next_power_of_two().min(16) }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(v, packed) => if *packed { 1 } else { v.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = ((*w as u64) + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Vec(n, t) => (*n as u64 * t.width() as u64 + 7) / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                let a = self.align();
                (o + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn width(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, _ => 0 } }
    pub fn flat_into(&self, base: u64, out: &mut Vec<(u32, u32)>) {
        match self {
            Ty::Void | Ty::Other => {}
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => out.push((self.width(), base as u32)),
            Ty::Vec(n, t) => { let w = t.width() as u64; for i in 0..*n { out.push((w as u32, (base + i as u64 * w / 8) as u32)); } }
            Ty::Arr(n, t) => for i in 0..*n { t.flat_into(base + i * t.size(), out) },
            Ty::Struct(v, packed) => {
                let mut o = 0;
                for t in v { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } t.flat_into(base + o, out); o += t.size(); }
            }
        }
    }
    pub fn flat(&self) -> Vec<(u32, u32)> { let mut v = vec![]; self.flat_into(0, &mut v); v }
    pub fn nslots(&self) -> u32 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(_) | Ty::Ptr | Ty::Float | Ty::Double => 1,
            Ty::Vec(n, _) => *n,
            Ty::Arr(n, t) => *n as u32 * t.nslots(),
            Ty::Struct(v, _) => v.iter().map(|t| t.nslots()).sum(),
        }
    }
    /// scalar element (for vectors) and lane count
    pub fn lane(&self) -> (u32, u32) { match self { Ty::Vec(n, t) => (t.width(), *n), t => (t.width(), 1) } }
    /// (slot offset, offset in bytes, type) of member path
    fn member(&self, idx: u64) -> (u32, u64, &Ty) {
        match self {
            Ty::Arr(_, t) => (idx as u32 * t.nslots(), idx * t.size(), t),
            Ty::Vec(_, t) => (idx as u32, idx * t.size(), t),
            Ty::Struct(v, packed) => {
                let mut o = 0;
                let mut s = 0;
                for (i, t) in v.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if i as u64 == idx { return (s, o, t); }
                    o += t.size();
                    s += t.nslots();
                }
                panic!("bad member")
            }
            _ => panic!("member of scalar"),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK { ZExt, SExt, Trunc, Same }

#[derive(Clone, Debug, Default)]
pub struct Edge { pub pc: u32, pub moves: Box<[(u32, i32)]>, pub simple: bool }

#[derive(Clone, Debug)]
pub enum Callee { Func(u32), Ptr(i32), Intrin(Intrin), Asm(String) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intrin {
    Nop, MemCpy, MemSet, Assume, Ident, SAddO, SSubO, SMulO, UAddO, USubO, UMulO,
    UMin, UMax, SMin, SMax, SCmp, UCmp, USubSat, UAddSat, SSubSat, SAddSat, Ctlz, Cttz, Ctpop, Bswap, BitRev, Fshl, Fshr, Abs, IsConst, Trap, Zero,
    FAbs, ReduceOr, ReduceAnd, ReduceAdd, ReduceMul, ReduceXor, ReduceUMin, ReduceUMax, ReduceSMin, ReduceSMax, FMath(u8), AddCarry, SubBorrow, Unknown,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: Op, w: u32, n: u32, dst: u32, a: i32, b: i32 },
    FBin { op: Op, w: u32, n: u32, dst: u32, a: i32, b: i32 },
    FNeg { w: u32, n: u32, dst: u32, a: i32 },
    ICmp { p: Pred, w: u32, n: u32, dst: u32, a: i32, b: i32 },
    FCmp { p: u8, w: u32, n: u32, dst: u32, a: i32, b: i32 },
    Cast { k: CastK, sw: u32, dw: u32, n: u32, dst: u32, a: i32 },
    FConv { op: Op, sw: u32, dw: u32, n: u32, dst: u32, a: i32 },
    Bitcast { sw: u32, sn: u32, dw: u32, dn: u32, dst: u32, a: i32 },
    Gep { dst: u32, base: i32, off: u64, idx: Box<[(i32, u32, u64)]> },
    Load1 { w: u32, dst: u32, p: i32 },
    LoadN { dst: u32, p: i32, tys: Rc<[(u32, u32)]> },
    Store1 { w: u32, v: i32, p: i32 },
    StoreN { v: i32, p: i32, tys: Rc<[(u32, u32)]> },
    Select { dst: u32, c: i32, a: i32, b: i32, n: u32, veccond: bool, ws: Rc<[(u32, u32)]> },
    Alloca { dst: u32, size: u64, align: u64 },
    Copy { dst: u32, a: i32, n: u32 },
    InsertValue { dst: u32, agg: i32, n: u32, v: i32, at: u32, vn: u32 },
    ExtractEl { dst: u32, v: i32, n: u32, idx: i32 },
    InsertEl { dst: u32, v: i32, n: u32, el: i32, idx: i32 },
    Shuffle { dst: u32, a: i32, b: i32, n: u32, mask: Box<[i32]> },
    Call { dst: u32, nret: u32, ws: Box<[(u32, u32)]>, callee: Callee, args: Box<[(i32, u32, u32)]> }, // (operand, slots, width)
    AtomicRmw { op: u8, w: u32, dst: u32, p: i32, v: i32 },
    CmpXchg { w: u32, dst: u32, p: i32, c: i32, v: i32 },
    Br(u32),
    CondBr { c: i32, t: u32, f: u32 },
    Switch { v: i32, w: u32, cases: Box<[(u128, u32)]>, def: u32 },
    Ret { v: i32, n: u32 },
    Unreachable,
    Unsup(String),
}

pub struct Func {
    pub id: u32,
    pub nslots: u32,
    pub params: Vec<(u32, u32)>, // slot, n
    pub code: Vec<Inst>,
    pub edges: Vec<Edge>,
    pub consts: Vec<u128>,
}

pub struct FuncInfo {
    pub name: String,
    pub demangled: String,
    pub range: Option<(usize, usize)>, // byte range of the text, None for a declaration
    pub weak: bool,
    pub code: RefCell<Option<Rc<Func>>>,
}
pub struct GlobalInfo { pub name: String, pub addr: u64, pub size: u64, line: (usize, usize), init: usize, ty: Ty, external: bool }

pub struct Module {
    src: Vec<u8>,
    pub funcs: Vec<FuncInfo>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<GlobalInfo>,
    gidx: HashMap<String, usize>,
    pub gend: u64,
    aliases: HashMap<String, String>,
}

pub const FUNC_BASE: u64 = 0x4000_0000;
pub const GLOBAL_BASE: u64 = 0x0010_0000;

struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn new(s: &'a [u8]) -> Self { P { s, i: 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); self.s.get(self.i).copied().unwrap_or(0) }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let e = self.i + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if is_word(last) && e < self.s.len() && is_word(self.s[e]) { return false; }
            self.i = e;
            true
        } else { false }
    }
    fn expect(&mut self, t: &str) { if !self.eat(t) { panic!("expected {t:?} at {:?}", String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 80)])); } }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && is_word(self.s[self.i]) { self.i += 1; }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str { let i = self.i; let w = self.word(); self.i = i; w }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { self.i += 1; return; } }
                b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn number(&mut self) -> i128 {
        self.ws();
        let neg = self.s[self.i] == b'-';
        if neg { self.i += 1; }
        let mut v: i128 = 0;
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { v = v.wrapping_mul(10).wrapping_add((self.s[self.i] - b'0') as i128); self.i += 1; }
        if st == self.i { panic!("number expected at {:?}", String::from_utf8_lossy(&self.s[self.i..self.s.len().min(self.i + 60)])); }
        if neg { v.wrapping_neg() } else { v }
    }
    /// after % or @
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            return r;
        }
        let st = self.i;
        while self.i < self.s.len() && (is_word(self.s[self.i]) || self.s[self.i] == b'-' || self.s[self.i] == b'$') { self.i += 1; }
        String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
    }
    fn ty(&mut self) -> Ty {
        self.ws();
        match self.s[self.i] {
            b'i' if self.s.get(self.i + 1).map_or(false, |c| c.is_ascii_digit()) => { self.i += 1; Ty::Int(self.number() as u32) }
            b'[' => { self.i += 1; let n = self.number() as u64; self.expect("x"); let t = self.ty(); self.expect("]"); Ty::Arr(n, Box::new(t)) }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' { let t = self.ty(); self.expect(">"); if let Ty::Struct(v, _) = t { return Ty::Struct(v, true); } unreachable!() }
                let n = self.number() as u32; self.expect("x"); let t = self.ty(); self.expect(">"); Ty::Vec(n, Box::new(t))
            }
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                if self.peek() == b'}' { self.i += 1; return Ty::Struct(v, false); }
                loop { v.push(self.ty()); if !self.eat(",") { break; } }
                self.expect("}");
                Ty::Struct(v, false)
            }
            _ => {
                let w = self.word();
                match w { "void" => Ty::Void, "ptr" => Ty::Ptr, "double" => Ty::Double, "float" => Ty::Float, "label" | "metadata" | "token" => Ty::Other,
                    _ => panic!("type? {w:?} {:?}", String::from_utf8_lossy(&self.s[self.i.saturating_sub(10)..self.s.len().min(self.i + 60)])) }
            }
        }
    }
    fn is_operand_start(&mut self) -> bool {
        match self.peek() {
            b'%' | b'@' | b'-' | b'+' | b'<' | b'{' | b'[' | b'!' => true,
            c if c.is_ascii_digit() => true,
            b'f' if self.s[self.i..].starts_with(b"f0x") => true,
            b'c' if self.s.get(self.i + 1) == Some(&b'"') => true,
            _ => matches!(self.peek_word(), "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "splat" | "none" | "add" | "sub" | "trunc" | "icmp" | "xor" | "ptrtoaddr" | "f0x"),
        }
    }
    fn skip_attrs(&mut self) {
        while !self.is_operand_start() {
            let w = self.word();
            if w.is_empty() {
                if self.peek() == b'"' { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; continue; }
                return;
            }
            if self.s.get(self.i) == Some(&b'(') { self.balanced(); }
            else if w == "align" { self.number(); }
        }
    }
}
fn is_word(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' }

fn lines(s: &[u8]) -> impl Iterator<Item = (usize, usize)> + '_ {
    let mut i = 0;
    std::iter::from_fn(move || {
        if i >= s.len() { return None; }
        let st = i;
        let e = memchr(b'\n', &s[st..]).map_or(s.len(), |x| st + x);
        i = e + 1;
        Some((st, e))
    })
}
fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    extern "C" { fn memchr(s: *const u8, c: i32, n: usize) -> *const u8; }
    unsafe { let p = memchr(s.as_ptr(), c as i32, s.len()); if p.is_null() { None } else { Some(p as usize - s.as_ptr() as usize) } }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read(path).expect("read IR");
        let mut m = Module { src: vec![], funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), gend: GLOBAL_BASE, aliases: HashMap::new() };
        let mut comment = String::new();
        let mut cur: Option<(usize, u32)> = None;
        for (st, e) in lines(&src) {
            let l = &src[st..e];
            if let Some((fs, id)) = cur {
                if l == b"}" { m.funcs[id as usize].range = Some((fs, e)); cur = None; }
                continue;
            }
            if l.is_empty() { continue; }
            match l[0] {
                b';' => { if !l.starts_with(b"; Function Attrs") { comment = String::from_utf8_lossy(&l[1..]).trim().to_string(); } }
                b'@' => m.scan_global(&src, st, e),
                b'd' if l.starts_with(b"define") || l.starts_with(b"declare") => {
                    let at = memchr(b'@', l).unwrap();
                    let mut p = P { s: l, i: at + 1 };
                    let name = p.name();
                    let weak = memmem(l, b"extern_weak");
                    let id = m.funcs.len() as u32;
                    m.funcs.push(FuncInfo { demangled: if l[2] == b'f' && !comment.is_empty() { std::mem::take(&mut comment) } else { name.clone() }, name: name.clone(), range: None, weak, code: RefCell::new(None) });
                    m.fidx.insert(name, id);
                    if l[2] == b'f' { cur = Some((st, id)); }
                    comment.clear();
                }
                _ => {}
            }
        }
        m.src = src;
        m
    }
    fn scan_global(&mut self, src: &[u8], st: usize, e: usize) {
        let l = &src[st..e];
        let mut p = P { s: l, i: 1 };
        let name = p.name();
        p.expect("=");
        let mut external = false;
        loop {
            let w = p.word();
            if w == "alias" {
                let at = l.iter().rposition(|&c| c == b'@').unwrap();
                let mut q = P { s: l, i: at + 1 };
                let tgt = q.name();
                self.aliases.insert(name, tgt);
                return;
            }
            if w == "external" || w == "extern_weak" { external = true; }
            if w == "global" || w == "constant" { break; }
            if p.s[p.i] == b'(' { p.balanced(); }
            if w.is_empty() { panic!("global? {}", String::from_utf8_lossy(l)); }
        }
        let ty = p.ty();
        let size = ty.size();
        // explicit alignment is at the end; use 16 as a common over-alignment, more for big ones
        let mut al = 16u64;
        if let Some(x) = find(l, b", align ") { let mut q = P { s: l, i: x + 8 }; let mut last = q.number() as u64; let mut y = x; while let Some(z) = find(&l[y + 8..], b", align ") { y = y + 8 + z; q.i = y + 8; last = q.number() as u64; } al = al.max(last); }
        let addr = (self.gend + al - 1) / al * al;
        self.gend = addr + size.max(1);
        self.gidx.insert(name.clone(), self.globals.len());
        self.globals.push(GlobalInfo { name, addr, size, line: (st, e), init: p.i, ty, external });
    }
    pub fn faddr(&self, id: u32) -> u64 { FUNC_BASE + 16 * id as u64 }
    pub fn sym_addr(&self, name: &str) -> u64 {
        if let Some(&g) = self.gidx.get(name) { return self.globals[g].addr; }
        if let Some(&f) = self.fidx.get(name) { if self.funcs[f as usize].weak && self.funcs[f as usize].range.is_none() { return 0; } return self.faddr(f); }
        if let Some(a) = self.aliases.get(name) { return self.sym_addr(a); }
        panic!("unknown symbol {name}")
    }
    pub fn func_by_name(&self, name: &str) -> Option<u32> {
        if let Some(a) = self.aliases.get(name) { return self.func_by_name(a); }
        self.fidx.get(name).copied()
    }
    /// initial contents of all globals: (addr, bytes)
    pub fn init_globals(&self, mut f: impl FnMut(u64, &[u8])) {
        for g in &self.globals {
            if g.external { continue; }
            let l = &self.src[g.line.0..g.line.1];
            let mut p = P { s: l, i: g.init };
            let mut buf = vec![0u8; g.size as usize];
            self.const_bytes(&mut p, &g.ty, 0, &mut buf);
            f(g.addr, &buf);
        }
    }
    fn const_bytes(&self, p: &mut P, ty: &Ty, off: usize, buf: &mut [u8]) {
        // fast path for byte strings
        if p.peek() == b'c' && p.s[p.i + 1] == b'"' {
            p.i += 2;
            let mut o = off;
            while p.s[p.i] != b'"' {
                if p.s[p.i] == b'\\' && p.s[p.i + 1] == b'\\' { buf[o] = b'\\'; p.i += 2; } else if p.s[p.i] == b'\\' { let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap(); buf[o] = u8::from_str_radix(h, 16).unwrap(); p.i += 3; } else { buf[o] = p.s[p.i]; p.i += 1; }
                o += 1;
            }
            p.i += 1;
            return;
        }
        if p.eat("zeroinitializer") || p.eat("undef") || p.eat("poison") { return; }
        match ty {
            Ty::Struct(v, packed) => {
                if *packed { p.expect("<"); }
                p.expect("{");
                for i in 0..v.len() {
                    let t = p.ty();
                    let (_, o, _) = ty.member(i as u64);
                    self.const_bytes(p, &t, off + o as usize, buf);
                    p.eat(",");
                }
                p.expect("}");
                if *packed { p.expect(">"); }
            }
            Ty::Arr(n, _) => {
                p.expect("[");
                for i in 0..*n { let t = p.ty(); self.const_bytes(p, &t, off + (i * t.size()) as usize, buf); p.eat(","); }
                p.expect("]");
            }
            _ => {
                let v = self.constant(p, ty);
                for ((w, o), x) in ty.flat().iter().zip(v) {
                    let nb = ((*w + 7) / 8) as usize;
                    let b = x.to_le_bytes();
                    buf[off + *o as usize..off + *o as usize + nb].copy_from_slice(&b[..nb]);
                }
            }
        }
    }
    /// constant as flattened scalars
    fn constant(&self, p: &mut P, ty: &Ty) -> Vec<u128> {
        p.ws();
        let n = ty.nslots() as usize;
        let (w, _) = ty.lane();
        if p.eat("zeroinitializer") || p.eat("undef") || p.eat("poison") || p.eat("none") { return vec![0; n]; }
        match ty {
            Ty::Struct(v, packed) => {
                if *packed { p.expect("<"); }
                p.expect("{");
                let mut out = vec![];
                for _ in 0..v.len() { let t = p.ty(); out.extend(self.constant(p, &t)); p.eat(","); }
                p.expect("}");
                if *packed { p.expect(">"); }
                out
            }
            Ty::Arr(k, et) => {
                if p.peek() == b'c' { let mut b = vec![0u8; *k as usize]; self.const_bytes(p, ty, 0, &mut b); return b.iter().map(|&x| x as u128).collect(); }
                let _ = et;
                p.expect("[");
                let mut out = vec![];
                for _ in 0..*k { let t = p.ty(); out.extend(self.constant(p, &t)); p.eat(","); }
                p.expect("]");
                out
            }
            Ty::Vec(k, _) => {
                if p.eat("splat") { p.expect("("); let t = p.ty(); let v = self.constant(p, &t); p.expect(")"); return vec![v[0]; *k as usize]; }
                p.expect("<");
                let mut out = vec![];
                for _ in 0..*k { let t = p.ty(); out.extend(self.constant(p, &t)); p.eat(","); }
                p.expect(">");
                out
            }
            _ => {
                let c = p.peek();
                if c == b'@' { p.i += 1; let nm = p.name(); return vec![self.sym_addr(&nm) as u128]; }
                if matches!(ty, Ty::Double | Ty::Float) {
                    // hex form or decimal
                    let st = p.i;
                    while p.i < p.s.len() && !matches!(p.s[p.i], b',' | b' ' | b')' | b'}' | b']' | b'>') { p.i += 1; }
                    let t = std::str::from_utf8(&p.s[st..p.i]).unwrap();
                    let sp = match t { "+inf" => Some(f64::INFINITY.to_bits()), "-inf" => Some(f64::NEG_INFINITY.to_bits()), "+qnan" => Some(0x7ff8000000000000), "-qnan" => Some(0xfff8000000000000), _ => None };
                    if let Some(b) = sp { return vec![if *ty == Ty::Double { b as u128 } else { match t { "+inf" => 0x7f800000, "-inf" => 0xff800000, "+qnan" => 0x7fc00000, _ => 0xffc00000u128 } }]; }
                    let bits = if let Some(h) = t.strip_prefix("f0x") { return vec![u64::from_str_radix(h, 16).unwrap() as u128]; } else if let Some(h) = t.strip_prefix("0x") { u64::from_str_radix(h, 16).unwrap() } else { t.parse::<f64>().unwrap().to_bits() };
                    return if *ty == Ty::Float { vec![(f64::from_bits(bits) as f32).to_bits() as u128] } else { vec![bits as u128] };
                }
                if c == b'-' || c.is_ascii_digit() { return vec![(p.number() as u128) & mask(w)]; }
                let wd = p.word();
                match wd {
                    "true" => vec![1],
                    "false" | "null" => vec![0],
                    "getelementptr" => {
                        loop { let x = p.peek_word(); if matches!(x, "inbounds" | "nuw" | "nusw" | "inrange") { p.word(); if p.peek() == b'(' && x == "inrange" { p.balanced(); } } else { break; } }
                        p.expect("(");
                        let et = p.ty();
                        p.expect(",");
                        let bt = p.ty();
                        let mut a = self.constant(p, &bt)[0] as u64;
                        let mut cur = et;
                        let mut first = true;
                        while p.eat(",") {
                            p.eat("inrange");
                            let it = p.ty();
                            let v = crate::expr::sx(self.constant(p, &it)[0], it.width()) as i64;
                            if first { a = a.wrapping_add((v as u64).wrapping_mul(cur.size())); first = false; } else { let (_, o, t) = cur.member(v as u64); a = a.wrapping_add(o); cur = t.clone(); }
                        }
                        p.expect(")");
                        vec![a as u128]
                    }
                    "ptrtoint" | "inttoptr" | "trunc" | "ptrtoaddr" | "zext" => {
                        p.eat("nuw"); p.eat("nsw");
                        p.expect("(");
                        let t = p.ty();
                        let v = self.constant(p, &t)[0];
                        p.expect("to");
                        let t2 = p.ty();
                        p.expect(")");
                        vec![v & mask(t2.width())]
                    }
                    "add" | "sub" | "xor" => {
                        p.eat("nuw"); p.eat("nsw");
                        p.expect("(");
                        let t = p.ty();
                        let a = self.constant(p, &t)[0];
                        p.expect(",");
                        let t2 = p.ty();
                        let b = self.constant(p, &t2)[0];
                        p.expect(")");
                        vec![match wd { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & mask(w)]
                    }
                    _ => panic!("constant? {wd:?} {:?}", String::from_utf8_lossy(&p.s[p.i.saturating_sub(20)..p.s.len().min(p.i + 60)])),
                }
            }
        }
    }

    pub fn func(&self, id: u32) -> Rc<Func> {
        let fi = &self.funcs[id as usize];
        if let Some(f) = &*fi.code.borrow() { return f.clone(); }
        let (s, e) = fi.range.expect("function body");
        let f = Rc::new(FnParser::new(self, id).parse(&self.src[s..e]));
        *fi.code.borrow_mut() = Some(f.clone());
        f
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }
fn memmem(h: &[u8], n: &[u8]) -> bool { find(h, n).is_some() }

struct FnParser<'m> {
    m: &'m Module,
    id: u32,
    slots: HashMap<String, u32>,
    next: u32,
    code: Vec<Inst>,
    edges: Vec<(String, String)>, // from, to
    consts: Vec<u128>,
    phis: HashMap<String, Vec<(u32, u32, Vec<(i32, String)>)>>, // block -> (dst, n, incoming)
    starts: HashMap<String, u32>,
    cur: String,
}
impl<'m> FnParser<'m> {
    fn new(m: &'m Module, id: u32) -> Self {
        FnParser { m, id, slots: HashMap::new(), next: 0, code: vec![], edges: vec![], consts: vec![], phis: HashMap::new(), starts: HashMap::new(), cur: String::new() }
    }
    fn slot(&mut self, name: &str, n: u32) -> u32 {
        if let Some(&s) = self.slots.get(name) { return s; }
        let s = self.next;
        self.next += n;
        self.slots.insert(name.to_string(), s);
        s
    }
    fn cst(&mut self, v: Vec<u128>) -> i32 { let i = self.consts.len(); self.consts.extend(v); !(i as i32) }
    fn operand(&mut self, p: &mut P, ty: &Ty) -> i32 {
        p.skip_attrs();
        if p.peek() == b'%' { p.i += 1; let n = p.name(); return self.slot(&n, ty.nslots()) as i32; }
        let v = self.m.constant(p, ty);
        self.cst(v)
    }
    fn edge(&mut self, to: String) -> u32 { self.edges.push((self.cur.clone(), to)); self.edges.len() as u32 - 1 }
    fn label(&mut self, p: &mut P) -> u32 { p.expect("label"); p.expect("%"); let n = p.name(); self.edge(n) }

    fn parse(mut self, text: &[u8]) -> Func {
        // join continuation lines
        let mut ls: Vec<Vec<u8>> = vec![];
        for (s, e) in lines(text) {
            let l = &text[s..e];
            let t: &[u8] = { let mut k = 0; while k < l.len() && l[k] == b' ' { k += 1; } &l[k..] };
            if t.is_empty() || t[0] == b';' || t.starts_with(b"#dbg") { continue; }
            if t == b"]" { ls.last_mut().unwrap().extend_from_slice(b" ]"); continue; }
            let prev_open = ls.last().map_or(false, |x| { let x: &Vec<u8> = x; (find(x, b" switch ").is_some() || x.starts_with(b"switch ")) && x.contains(&b'[') && !x.contains(&b']') });
            if prev_open || t.starts_with(b"to label ") || t.starts_with(b"catch ") || t == b"cleanup" || t.starts_with(b"filter ") {
                let x = ls.last_mut().unwrap();
                x.push(b' ');
                x.extend_from_slice(t);
                continue;
            }
            // switch lines begin with "switch ... ["
            ls.push(t.to_vec());
        }
        // header
        let hdr = std::mem::take(&mut ls[0]);
        let mut params = vec![];
        let mut unnamed = 0u32;
        {
            let at = memchr(b'@', &hdr).unwrap();
            let mut p = P { s: &hdr, i: at + 1 };
            p.name();
            p.expect("(");
            if !p.eat(")") {
                loop {
                    if p.eat("...") { break; }
                    let t = p.ty();
                    p.skip_attrs();
                    let name = if p.peek() == b'%' { p.i += 1; p.name() } else { unnamed.to_string() };
                    if name.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                    let n = t.nslots();
                    let s = self.slot(&name, n);
                    params.push((s, n));
                    if !p.eat(",") { break; }
                }
            }
        }
        let mut started = false;
        for l in ls.iter().skip(1) {
            // label?
            if let Some(name) = label_of(l) {
                self.cur = name.clone();
                self.starts.insert(name, self.code.len() as u32);
                started = true;
                continue;
            }
            if !started { self.cur = unnamed.to_string(); self.starts.insert(self.cur.clone(), 0); started = true; }
            let k = self.code.len();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.inst(l)));
            if r.is_err() { self.code.truncate(k); self.code.push(Inst::Unsup(String::from_utf8_lossy(l).into_owned())); }
        }
        let phis = std::mem::take(&mut self.phis);
        let mut edges = vec![];
        for (from, to) in std::mem::take(&mut self.edges) {
            let mut moves = vec![];
            if let Some(ps) = phis.get(&to) {
                for (dst, n, inc) in ps {
                    if let Some((o, _)) = inc.iter().find(|(_, b)| *b == from) {
                        for i in 0..*n as i32 { moves.push((dst + i as u32, if *o >= 0 { o + i } else { !(!o + i) })); }
                    }
                }
            }
            let dsts: std::collections::HashSet<u32> = moves.iter().map(|m| m.0).collect();
            let simple = moves.len() <= 1 || !moves.iter().any(|m| m.1 >= 0 && dsts.contains(&(m.1 as u32)));
            edges.push(Edge { pc: self.starts[&to], moves: moves.into_boxed_slice(), simple });
        }
        Func { id: self.id, nslots: self.next, params, code: self.code, edges, consts: self.consts }
    }

    fn inst(&mut self, l: &[u8]) {
        let mut p = P::new(l);
        let mut dname = None;
        if p.peek() == b'%' { p.i += 1; dname = Some(p.name()); p.expect("="); }
        let mut op = p.word();
        if matches!(op, "tail" | "musttail" | "notail") { op = p.word(); }
        macro_rules! dst { ($n:expr) => {{ let n = $n; match &dname { Some(d) => { let d = d.clone(); self.slot(&d, n) } None => self.slot("!void", n.max(1)) } }}; }
        macro_rules! flags { () => { loop { match p.peek_word() { "nuw" | "nsw" | "exact" | "nneg" | "disjoint" | "inbounds" | "nusw" | "samesign" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" => { p.word(); } _ => break } } }; }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                flags!();
                let t = p.ty();
                let a = self.operand(&mut p, &t);
                p.expect(",");
                let b = self.operand(&mut p, &t);
                let (w, n) = t.lane();
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                assert!(w <= 128);
                let dst = dst!(n);
                self.code.push(Inst::Bin { op: o, w, n, dst, a, b });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" => {
                flags!();
                let t = p.ty();
                let a = self.operand(&mut p, &t);
                p.expect(",");
                let b = self.operand(&mut p, &t);
                let (w, n) = t.lane();
                let o = match op { "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, _ => Op::FDiv };
                let dst = dst!(n);
                self.code.push(Inst::FBin { op: o, w, n, dst, a, b });
            }
            "fneg" => { flags!(); let t = p.ty(); let a = self.operand(&mut p, &t); let (w, n) = t.lane(); let dst = dst!(n); self.code.push(Inst::FNeg { w, n, dst, a }); }
            "icmp" => {
                flags!();
                let pr = match p.word() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("{x}") };
                let t = p.ty();
                let a = self.operand(&mut p, &t);
                p.expect(",");
                let b = self.operand(&mut p, &t);
                let (w, n) = t.lane();
                assert!(w <= 128 && w > 0);
                let dst = dst!(n);
                self.code.push(Inst::ICmp { p: pr, w, n, dst, a, b });
            }
            "fcmp" => {
                flags!();
                let pr = match p.word() { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15, x => panic!("{x}") };
                let t = p.ty();
                let a = self.operand(&mut p, &t);
                p.expect(",");
                let b = self.operand(&mut p, &t);
                let (w, n) = t.lane();
                let dst = dst!(n);
                self.code.push(Inst::FCmp { p: pr, w, n, dst, a, b });
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                flags!();
                let t = p.ty();
                let a = self.operand(&mut p, &t);
                p.expect("to");
                let u = p.ty();
                let (sw, sn) = t.lane();
                let (dw, dn) = u.lane();
                assert!(sw <= 128 && dw <= 128);
                let dst = dst!(dn);
                let i = match op {
                    "zext" => Inst::Cast { k: CastK::ZExt, sw, dw, n: sn, dst, a },
                    "sext" => Inst::Cast { k: CastK::SExt, sw, dw, n: sn, dst, a },
                    "trunc" => Inst::Cast { k: CastK::Trunc, sw, dw, n: sn, dst, a },
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => Inst::Cast { k: if sw == dw { CastK::Same } else if sw > dw { CastK::Trunc } else { CastK::ZExt }, sw, dw, n: sn, dst, a },
                    "bitcast" => Inst::Bitcast { sw, sn, dw, dn, dst, a },
                    "uitofp" => Inst::FConv { op: Op::UiToFp, sw, dw, n: sn, dst, a },
                    "sitofp" => Inst::FConv { op: Op::SiToFp, sw, dw, n: sn, dst, a },
                    "fptoui" => Inst::FConv { op: Op::FpToUi, sw, dw, n: sn, dst, a },
                    "fptosi" => Inst::FConv { op: Op::FpToSi, sw, dw, n: sn, dst, a },
                    "fpext" => Inst::FConv { op: Op::FpExt, sw, dw, n: sn, dst, a },
                    _ => Inst::FConv { op: Op::FpTrunc, sw, dw, n: sn, dst, a },
                };
                self.code.push(i);
            }
            "getelementptr" => {
                flags!();
                let et = p.ty();
                p.expect(",");
                let bt = p.ty();
                assert_eq!(bt, Ty::Ptr);
                let base = self.operand(&mut p, &bt);
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while p.eat(",") {
                    if p.peek() == b'!' { break; }
                    let it = p.ty();
                    let w = it.width();
                    let o = self.operand(&mut p, &it);
                    let (scale, nxt) = if first { (cur.size(), cur.clone()) } else {
                        match &cur {
                            Ty::Arr(_, t) | Ty::Vec(_, t) => (t.size(), (**t).clone()),
                            Ty::Struct(..) => { let v = self.consts[!o as usize]; let (_, b, t) = cur.member(v as u64); off = off.wrapping_add(b); cur = t.clone(); continue; }
                            _ => panic!("gep"),
                        }
                    };
                    first = false;
                    if o < 0 { off = off.wrapping_add((crate::expr::sx(self.consts[!o as usize], w) as i64 as u64).wrapping_mul(scale)); } else { idx.push((o, w, scale)); }
                    cur = nxt;
                }
                let dst = dst!(1);
                self.code.push(Inst::Gep { dst, base, off, idx: idx.into_boxed_slice() });
            }
            "load" => {
                flags!();
                let t = p.ty();
                p.expect(",");
                let pt = p.ty();
                let a = self.operand(&mut p, &pt);
                let dst = dst!(t.nslots());
                let f = t.flat();
                for x in &f { assert!(x.0 % 8 == 0 || matches!(t, Ty::Int(_))); }
                if f.len() == 1 { self.code.push(Inst::Load1 { w: f[0].0, dst, p: a }); } else { self.code.push(Inst::LoadN { dst, p: a, tys: f.into() }); }
            }
            "store" => {
                flags!();
                let t = p.ty();
                let v = self.operand(&mut p, &t);
                p.expect(",");
                let pt = p.ty();
                let a = self.operand(&mut p, &pt);
                let f = t.flat();
                for x in &f { assert!(x.0 % 8 == 0 || matches!(t, Ty::Int(_))); }
                if f.len() == 1 { self.code.push(Inst::Store1 { w: f[0].0, v, p: a }); } else { self.code.push(Inst::StoreN { v, p: a, tys: f.into() }); }
            }
            "select" => {
                flags!();
                let ct = p.ty();
                let c = self.operand(&mut p, &ct);
                p.expect(",");
                let t = p.ty();
                let a = self.operand(&mut p, &t);
                p.expect(",");
                let t2 = p.ty();
                let b = self.operand(&mut p, &t2);
                let n = t.nslots();
                let dst = dst!(n);
                self.code.push(Inst::Select { dst, c, a, b, n, veccond: matches!(ct, Ty::Vec(..)), ws: t.flat().into() });
            }
            "alloca" => {
                p.eat("inalloca");
                let t = p.ty();
                let mut align = t.align();
                let mut cnt = 1;
                while p.eat(",") {
                    if p.eat("align") { align = p.number() as u64; } else if p.peek() == b'!' { break; } else { let it = p.ty(); let o = self.operand(&mut p, &it); assert!(o < 0); cnt = self.consts[!o as usize] as u64; }
                }
                let dst = dst!(1);
                self.code.push(Inst::Alloca { dst, size: t.size() * cnt, align });
            }
            "phi" => {
                flags!();
                let t = p.ty();
                let n = t.nslots();
                let dst = dst!(n);
                let mut inc = vec![];
                loop {
                    p.expect("[");
                    let o = self.operand(&mut p, &t);
                    p.expect(",");
                    p.expect("%");
                    let b = p.name();
                    p.expect("]");
                    inc.push((o, b));
                    if !p.eat(",") || p.peek() == b'!' { break; }
                }
                let c = self.cur.clone();
                self.phis.entry(c).or_default().push((dst, n, inc));
            }
            "freeze" => { let t = p.ty(); let a = self.operand(&mut p, &t); let n = t.nslots(); let dst = dst!(n); self.code.push(Inst::Copy { dst, a, n }); }
            "extractvalue" => {
                let t = p.ty();
                let a = self.operand(&mut p, &t);
                let mut so = 0;
                let mut cur = t.clone();
                while p.eat(",") { if p.peek() == b'!' { break; } let i = p.number() as u64; let (s, _, u) = cur.member(i); so += s; cur = u.clone(); }
                let n = cur.nslots();
                let dst = dst!(n);
                let a = if a >= 0 { a + so as i32 } else { !(!a + so as i32) };
                self.code.push(Inst::Copy { dst, a, n });
            }
            "insertvalue" => {
                let t = p.ty();
                let agg = self.operand(&mut p, &t);
                p.expect(",");
                let vt = p.ty();
                let v = self.operand(&mut p, &vt);
                let mut so = 0;
                let mut cur = t.clone();
                while p.eat(",") { if p.peek() == b'!' { break; } let i = p.number() as u64; let (s, _, u) = cur.member(i); so += s; cur = u.clone(); }
                let n = t.nslots();
                let dst = dst!(n);
                self.code.push(Inst::InsertValue { dst, agg, n, v, at: so, vn: vt.nslots() });
            }
            "extractelement" => {
                let t = p.ty();
                let v = self.operand(&mut p, &t);
                p.expect(",");
                let it = p.ty();
                let idx = self.operand(&mut p, &it);
                let dst = dst!(1);
                self.code.push(Inst::ExtractEl { dst, v, n: t.nslots(), idx });
            }
            "insertelement" => {
                let t = p.ty();
                let v = self.operand(&mut p, &t);
                p.expect(",");
                let et = p.ty();
                let el = self.operand(&mut p, &et);
                p.expect(",");
                let it = p.ty();
                let idx = self.operand(&mut p, &it);
                let n = t.nslots();
                let dst = dst!(n);
                self.code.push(Inst::InsertEl { dst, v, n, el, idx });
            }
            "shufflevector" => {
                let t = p.ty();
                let a = self.operand(&mut p, &t);
                p.expect(",");
                let t2 = p.ty();
                let b = self.operand(&mut p, &t2);
                p.expect(",");
                let mt = p.ty();
                let m = self.operand(&mut p, &mt);
                assert!(m < 0);
                let k = mt.nslots();
                let mk: Vec<i32> = (0..k).map(|i| self.consts[(!m) as usize + i as usize] as i32).collect();
                let dst = dst!(k);
                self.code.push(Inst::Shuffle { dst, a, b, n: t.nslots(), mask: mk.into_boxed_slice() });
            }
            "br" => {
                if p.peek_word() == "label" { let e = self.label(&mut p); self.code.push(Inst::Br(e)); return; }
                let t = p.ty();
                let c = self.operand(&mut p, &t);
                p.expect(",");
                let tt = self.label(&mut p);
                p.expect(",");
                let ff = self.label(&mut p);
                self.code.push(Inst::CondBr { c, t: tt, f: ff });
            }
            "switch" => {
                let t = p.ty();
                let v = self.operand(&mut p, &t);
                p.expect(",");
                let def = self.label(&mut p);
                p.expect("[");
                let mut cases = vec![];
                while p.peek() != b']' {
                    let ct = p.ty();
                    let k = p.number() as u128 & mask(ct.width());
                    p.expect(",");
                    let e = self.label(&mut p);
                    cases.push((k, e));
                }
                self.code.push(Inst::Switch { v, w: t.width(), cases: cases.into_boxed_slice(), def });
            }
            "ret" => {
                let t = p.ty();
                if t == Ty::Void { self.code.push(Inst::Ret { v: 0, n: 0 }); return; }
                let v = self.operand(&mut p, &t);
                self.code.push(Inst::Ret { v, n: t.nslots() });
            }
            "unreachable" => self.code.push(Inst::Unreachable),
            "fence" => {}
            "resume" | "landingpad" => self.code.push(Inst::Unsup(op.to_string())),
            "atomicrmw" => {
                flags!();
                let k = match p.word() { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, "umax" => 6, "umin" => 7, "max" => 8, "min" => 9, x => panic!("{x}") };
                let pt = p.ty();
                let a = self.operand(&mut p, &pt);
                p.expect(",");
                let t = p.ty();
                let v = self.operand(&mut p, &t);
                let dst = dst!(1);
                self.code.push(Inst::AtomicRmw { op: k, w: t.width(), dst, p: a, v });
            }
            "cmpxchg" => {
                p.eat("weak");
                flags!();
                let pt = p.ty();
                let a = self.operand(&mut p, &pt);
                p.expect(",");
                let t = p.ty();
                let c = self.operand(&mut p, &t);
                p.expect(",");
                let t2 = p.ty();
                let v = self.operand(&mut p, &t2);
                let dst = dst!(2);
                self.code.push(Inst::CmpXchg { w: t.width(), dst, p: a, c, v });
            }
            "call" | "invoke" => {
                // calling convention, return attributes, type
                loop {
                    p.ws();
                    let c = p.s[p.i];
                    if c == b'{' || c == b'[' || c == b'<' { break; }
                    let w = p.peek_word();
                    if matches!(w, "void" | "ptr" | "double" | "float") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())) { break; }
                    p.word();
                    if p.s[p.i] == b'(' { p.balanced(); } else if w == "align" { p.number(); }
                }
                let rt = p.ty();
                if p.peek() == b'(' { p.balanced(); }
                p.ws();
                let nret = rt.nslots();
                let callee = match p.s[p.i] {
                    b'@' => {
                        p.i += 1;
                        let n = p.name();
                        if let Some(k) = n.strip_prefix("llvm.") { intrin(k) } else { Callee::Func(self.m.func_by_name(&n).unwrap_or_else(|| panic!("callee {n}"))) }
                    }
                    b'%' => { p.i += 1; let n = p.name(); let s = self.slot(&n, 1); Callee::Ptr(s as i32) }
                    _ => {
                        let w = p.word();
                        if w == "asm" { let st = p.i; let k = find(&p.s[p.i..], b"\"(").unwrap(); let s = String::from_utf8_lossy(&p.s[st..p.i + k]).into_owned(); p.i += k + 1; Callee::Asm(s) }
                        else if w == "inttoptr" || w == "null" || w == "undef" || w == "poison" { Callee::Ptr(self.cst(vec![0])) }
                        else { panic!("callee") }
                    }
                };
                p.expect("(");
                let mut args = vec![];
                if !p.eat(")") {
                    loop {
                        let t = p.ty();
                        if t == Ty::Other { // metadata: skip to , or )
                            while !matches!(p.s[p.i], b',' | b')') { if p.s[p.i] == b'(' { p.balanced(); } else { p.i += 1; } }
                            if !p.eat(",") { break; } else { continue; }
                        }
                        let o = self.operand(&mut p, &t);
                        args.push((o, t.nslots(), t.lane().0));
                        if !p.eat(",") { break; }
                    }
                    p.expect(")");
                }
                let dst = dst!(nret);
                if !matches!(callee, Callee::Intrin(Intrin::Nop)) {
                    self.code.push(Inst::Call { dst, nret, ws: rt.flat().into_boxed_slice(), callee, args: args.into_boxed_slice() });
                }
                if op == "invoke" {
                    let x = find(p.s, b" to label ").unwrap();
                    p.i = x + 4;
                    let e = self.label(&mut p);
                    self.code.push(Inst::Br(e));
                }
            }
            _ => self.code.push(Inst::Unsup(String::from_utf8_lossy(l).into_owned())),
        }
    }
}

fn label_of(l: &[u8]) -> Option<String> {
    let mut p = P::new(l);
    let n = if l[0] == b'"' || is_word(l[0]) || l[0] == b'-' || l[0] == b'$' { p.name() } else { return None };
    if p.i < l.len() && l[p.i] == b':' { Some(n) } else { None }
}

fn intrin(k: &str) -> Callee {
    use Intrin::*;
    let b: Vec<&str> = k.split('.').collect();
    Callee::Intrin(match (b[0], b.get(1).copied().unwrap_or("")) {
        ("lifetime", _) | ("dbg", _) | ("invariant", _) | ("prefetch", _) | ("donothing", _) => Nop,
        ("experimental", "noalias") => Nop,
        ("x86", "sse2") if b.get(2) == Some(&"pause") => Nop,
        ("memcpy", _) | ("memmove", _) => MemCpy,
        ("memset", _) => MemSet,
        ("assume", _) => Assume,
        ("threadlocal", _) | ("expect", _) | ("launder", _) | ("strip", _) | ("ptrmask", _) if b[0] != "ptrmask" => Ident,
        ("sadd", "with") => SAddO,
        ("ssub", "with") => SSubO,
        ("smul", "with") => SMulO,
        ("uadd", "with") => UAddO,
        ("usub", "with") => USubO,
        ("umul", "with") => UMulO,
        ("umin", _) => UMin,
        ("umax", _) => UMax,
        ("smin", _) => SMin,
        ("smax", _) => SMax,
        ("scmp", _) => SCmp,
        ("ucmp", _) => UCmp,
        ("usub", "sat") => USubSat,
        ("uadd", "sat") => UAddSat,
        ("ssub", "sat") => SSubSat,
        ("sadd", "sat") => SAddSat,
        ("ctlz", _) => Ctlz,
        ("cttz", _) => Cttz,
        ("ctpop", _) => Ctpop,
        ("bswap", _) => Bswap,
        ("bitreverse", _) => BitRev,
        ("fshl", _) => Fshl,
        ("fshr", _) => Fshr,
        ("abs", _) => Abs,
        ("fabs", _) => FAbs,
        ("is", "constant") => IsConst,
        ("trap", _) | ("debugtrap", _) | ("ubsantrap", _) => Trap,
        ("x86", "xgetbv") => Zero,
        ("x86", "addcarry") => AddCarry,
        ("x86", "subborrow") => SubBorrow,
        ("vector", "reduce") if b.get(2) == Some(&"or") => ReduceOr,
        ("vector", "reduce") if b.get(2) == Some(&"and") => ReduceAnd,
        ("vector", "reduce") if b.get(2) == Some(&"add") => ReduceAdd,
        ("vector", "reduce") => match b.get(2).copied().unwrap_or("") { "mul" => ReduceMul, "xor" => ReduceXor, "umin" => ReduceUMin, "umax" => ReduceUMax, "smin" => ReduceSMin, "smax" => ReduceSMax, _ => Unknown },
        ("log2", _) => FMath(0), ("ceil", _) => FMath(1), ("floor", _) => FMath(2), ("sqrt", _) => FMath(3), ("trunc", _) => FMath(4), ("round", _) => FMath(5), ("rint" | "nearbyint" | "roundeven", _) => FMath(6),
        ("log", _) => FMath(7), ("log10", _) => FMath(8), ("exp", _) => FMath(9), ("exp2", _) => FMath(10),
        ("fma" | "fmuladd", _) => FMath(11), ("minnum" | "minimumnum", _) => FMath(12), ("maxnum" | "maximumnum", _) => FMath(13), ("copysign", _) => FMath(14), ("pow", _) => FMath(15),
        ("fptoui", "sat") => FMath(16), ("fptosi", "sat") => FMath(17),
        _ => Unknown,
    })
}
