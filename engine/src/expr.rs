//! Hash-consed bit-vector expression DAG (widths 1..=128), with constant
//! folding, concrete evaluation and support sets.
use std::collections::HashMap;

pub type E = u32; // 0 = "no expression" (concrete)

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var, // a = var index
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, // width-1 result
    Ite,
    Concat,  // a = high, b = low
    Extract, // imm = low bit
    ZExt, SExt,
    FAdd, FSub, FMul, FDiv, FNeg, FEq, FLt, FLe, FUno, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc, FAbs,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub imm: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub sup: Vec<u128>, // support bitset; bit 127 = "some var >= 127"
    map: HashMap<Node, E, BuildFx>,
    memo: Vec<(u32, u128)>,
    gen: u32,
    tt: HashMap<E, [u64; 4], BuildFx>,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.add(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.add(i as u64) }
    fn write_u32(&mut self, i: u32) { self.add(i as u64) }
    fn write_u64(&mut self, i: u64) { self.add(i) }
    fn write_u128(&mut self, i: u128) { self.add(i as u64); self.add((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.add(i as u64) }
    fn write_isize(&mut self, i: isize) { self.add(i as u64) }
}
impl Fx { #[inline] fn add(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); } }
pub type BuildFx = std::hash::BuildHasherDefault<Fx>;

#[inline]
pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline]
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn f_bin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    if w == 64 {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, _ => unreachable!() }).to_bits() as u128
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, _ => unreachable!() }).to_bits() as u128
    }
}
pub fn f_cmp(op: Op, w: u32, a: u128, b: u128) -> bool {
    let (x, y) = if w == 64 { (f64::from_bits(a as u64), f64::from_bits(b as u64)) } else { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) };
    match op { Op::FEq => x == y, Op::FLt => x < y, Op::FLe => x <= y, Op::FUno => x.is_nan() || y.is_nan(), _ => unreachable!() }
}
/// f_conv: imm = source width
pub fn f_conv(op: Op, w: u32, sw: u32, a: u128) -> u128 {
    match op {
        Op::UiToFp => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::SiToFp => { let s = sx(a, sw); if w == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 } }
        Op::FpToUi => { let x = if sw == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 }; (x as u128) & mask(w) }
        Op::FpToSi => { let x = if sw == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 }; (x as i128 as u128) & mask(w) }
        Op::FpExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FpTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        _ => unreachable!(),
    }
}

pub fn bin(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { x.wrapping_div(y) as u128 } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u128 } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; (sx(a, w) >> s) as u128 }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }) & if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { m }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], sup: vec![], map: HashMap::default(), memo: vec![], gen: 0, tt: HashMap::default() };
        // index 0 is reserved
        a.nodes.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, imm: 0 });
        a.sup.push(0);
        a.memo.push((0, 0));
        a
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        let s = match n.op {
            Op::Var => 1u128 << n.a.min(127),
            Op::Const => 0,
            _ => self.sup[n.a as usize] | self.sup[n.b as usize] | self.sup[n.c as usize],
        };
        self.nodes.push(n);
        self.sup.push(s);
        self.memo.push((0, 0));
        self.map.insert(n, e);
        e
    }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w }
    pub fn konst(&mut self, v: u128, w: u32) -> E { self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, imm: v & mask(w) }) }
    pub fn var(&mut self, i: u32, w: u32) -> E { self.intern(Node { op: Op::Var, w, a: i, b: 0, c: 0, imm: 0 }) }
    #[inline] pub fn cval(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.imm) } else { None } }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, imm: u128) -> E { self.intern(Node { op, w, a, b, c, imm }) }

    pub fn not1(&mut self, a: E) -> E { let one = self.konst(1, 1); self.bin(Op::Xor, a, one) }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cval(a), self.cval(b)) {
            let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
            let v = bin(op, w, x, y);
            return self.konst(v, rw);
        }
        let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        // constants to the right for commutative ops
        if commut && self.cval(a).is_some() { std::mem::swap(&mut a, &mut b); }
        else if commut && self.cval(b).is_none() && a > b { std::mem::swap(&mut a, &mut b); }
        let cb = self.cval(b);
        let ca = self.cval(a);
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb { let na = self.n(a); if na.op == Op::Add { if let Some(k2) = self.cval(na.b) { let kk = self.konst(k.wrapping_add(k2), w); return self.bin(Op::Add, na.a, kk); } } }
            }
            Op::Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(0, w); }
                if let Some(k) = cb { let kk = self.konst((0u128).wrapping_sub(k), w); return self.bin(Op::Add, a, kk); }
            }
            Op::Mul => { if cb == Some(1) { return a; } if cb == Some(0) { return b; } }
            Op::UDiv | Op::SDiv => { if cb == Some(1) { return a; } }
            Op::And => {
                if cb == Some(0) { return b; }
                if cb == Some(m) || a == b { return a; }
                if let Some(k) = cb {
                    let na = self.n(a);
                    if na.op == Op::ZExt && k & mask(self.w(na.a)) == mask(self.w(na.a)) { return a; }
                    if na.op == Op::And { if let Some(k2) = self.cval(na.b) { let kk = self.konst(k & k2, w); return self.bin(Op::And, na.a, kk); } }
                }
                if w == 1 { let na = self.n(a); let nb = self.n(b);
                    if na.op == Op::Xor && na.a == b && self.cval(na.b) == Some(1) { return self.konst(0, 1); }
                    if nb.op == Op::Xor && nb.a == a && self.cval(nb.b) == Some(1) { return self.konst(0, 1); } }
            }
            Op::Or => { if cb == Some(0) || a == b { return a; } if cb == Some(m) { return b; } }
            Op::Xor => {
                if cb == Some(0) { return a; }
                if a == b { return self.konst(0, w); }
                if let Some(k) = cb { let na = self.n(a); if na.op == Op::Xor { if let Some(k2) = self.cval(na.b) { let kk = self.konst(k ^ k2, w); return self.bin(Op::Xor, na.a, kk); } } }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb {
                    if k >= w as u128 && op != Op::AShr { return self.konst(0, w); }
                    let k = k as u32;
                    if op == Op::LShr && k < w {
                        // lshr by constant = zext(extract)
                        let x = self.extract(a, k, w - k);
                        return self.zext(x, w);
                    }
                    if op == Op::Shl && k < w {
                        let x = self.extract(a, 0, w - k);
                        let z = self.konst(0, k);
                        return self.concat(x, z);
                    }
                }
            }
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if let Some(k) = cb {
                    let na = self.n(a);
                    if w == 1 { return if k == 1 { a } else { self.not1(a) }; }
                    match na.op {
                        Op::ZExt => { let iw = self.w(na.a); if k > mask(iw) { return self.konst(0, 1); } let kk = self.konst(k, iw); return self.bin(Op::Eq, na.a, kk); }
                        Op::Concat => {
                            let lw = self.w(na.b); let hw = self.w(na.a);
                            let kl = self.konst(k & mask(lw), lw); let kh = self.konst(k >> lw, hw);
                            let l = self.bin(Op::Eq, na.b, kl); let h = self.bin(Op::Eq, na.a, kh);
                            return self.bin(Op::And, l, h);
                        }
                        Op::Add => if let Some(k2) = self.cval(na.b) { let kk = self.konst(k.wrapping_sub(k2), w); return self.bin(Op::Eq, na.a, kk); },
                        Op::Xor => if let Some(k2) = self.cval(na.b) { let kk = self.konst(k ^ k2, w); return self.bin(Op::Eq, na.a, kk); },
                        Op::Ite => {
                            match (self.cval(na.b), self.cval(na.c)) {
                                (Some(x), Some(y)) => { return match (x == k, y == k) { (true, true) => self.konst(1, 1), (true, false) => na.a, (false, true) => self.not1(na.a), _ => self.konst(0, 1) }; }
                                (Some(x), None) => { let r = self.bin(Op::Eq, na.c, b); return if x == k { self.bin(Op::Or, na.a, r) } else { let n = self.not1(na.a); self.bin(Op::And, n, r) }; }
                                (None, Some(y)) => { let r = self.bin(Op::Eq, na.b, b); return if y == k { let n = self.not1(na.a); self.bin(Op::Or, n, r) } else { self.bin(Op::And, na.a, r) }; }
                                _ => {}
                            }
                        }
                        _ => {}
                    }
                }
            }
            Op::Ult => {
                if a == b { return self.konst(0, 1); }
                if cb == Some(0) { return self.konst(0, 1); }
                if cb == Some(1) { let z = self.konst(0, w); return self.bin(Op::Eq, a, z); }
                if ca == Some(m) { return self.konst(0, 1); }
                if let Some(k) = cb { let na = self.n(a); if na.op == Op::ZExt { let iw = self.w(na.a); if k > mask(iw) { return self.konst(1, 1); } let kk = self.konst(k, iw); return self.bin(Op::Ult, na.a, kk); } }
                if let Some(k) = ca { let nb = self.n(b); if nb.op == Op::ZExt { let iw = self.w(nb.a); if k >= mask(iw) { return self.konst(0, 1); } let kk = self.konst(k, iw); return self.bin(Op::Ult, kk, nb.a); } }
            }
            Op::Ule => {
                if a == b { return self.konst(1, 1); }
                let r = self.bin(Op::Ult, b, a);
                return self.not1(r);
            }
            Op::Slt => { if a == b { return self.konst(0, 1); } }
            Op::Sle => { if a == b { return self.konst(1, 1); } let r = self.bin(Op::Slt, b, a); return self.not1(r); }
            _ => {}
        }
        // push binary ops with a constant through ite-of-constants (keeps table lookups foldable)
        if cb.is_some() && !matches!(op, Op::Eq) {
            let na = self.n(a);
            if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() {
                let x = self.bin(op, na.b, b); let y = self.bin(op, na.c, b);
                return self.ite(na.a, x, y);
            }
        }
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
        self.mk(op, rw, a, b, 0, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cval(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.cval(a), self.cval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not1(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not1(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.cval(a) { return self.konst(v, w); }
        let na = self.n(a);
        if na.op == Op::ZExt { return self.zext(na.a, w); }
        if na.op == Op::Ite && self.cval(na.b).is_some() && self.cval(na.c).is_some() { let x = self.zext(na.b, w); let y = self.zext(na.c, w); return self.ite(na.a, x, y); }
        self.mk(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w { return a; }
        if let Some(v) = self.cval(a) { return self.konst(sx(v, aw) as u128, w); }
        let na = self.n(a);
        if na.op == Op::ZExt { return self.zext(na.a, w); }
        if aw == 1 { let x = self.konst(!0, w); let y = self.konst(0, w); return self.ite(a, x, y); }
        self.mk(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw { return a; }
        if let Some(v) = self.cval(a) { return self.konst(v >> lo, w); }
        let na = self.n(a);
        match na.op {
            Op::Extract => return self.extract(na.a, na.imm as u32 + lo, w),
            Op::ZExt => {
                let iw = self.w(na.a);
                if lo >= iw { return self.konst(0, w); }
                if lo + w <= iw { return self.extract(na.a, lo, w); }
                let x = self.extract(na.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => { let iw = self.w(na.a); if lo + w <= iw { return self.extract(na.a, lo, w); } }
            Op::Concat => {
                let lw = self.w(na.b);
                if lo + w <= lw { return self.extract(na.b, lo, w); }
                if lo >= lw { return self.extract(na.a, lo - lw, w); }
                let l = self.extract(na.b, lo, lw - lo);
                let h = self.extract(na.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => { let x = self.extract(na.a, lo, w); let y = self.extract(na.b, lo, w); return self.bin(na.op, x, y); }
            Op::Ite => { let x = self.extract(na.b, lo, w); let y = self.extract(na.c, lo, w); return self.ite(na.a, x, y); }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = self.extract(na.a, 0, w); let y = self.extract(na.b, 0, w); return self.bin(na.op, x, y); }
            _ => {}
        }
        self.mk(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        if let (Some(x), Some(y)) = (self.cval(h), self.cval(l)) { return self.konst(x << lw | y, hw + lw); }
        if self.cval(h) == Some(0) { return self.zext(l, hw + lw); }
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.imm == nl.imm + lw as u128 { return self.extract(nh.a, nl.imm as u32, hw + lw); }
        // concat(extract(x, lw..), x') where l is the full low part via smaller source
        if nh.op == Op::Extract && nh.a == l && false { return h; }
        // (h ++ const) with h zext
        if nh.op == Op::ZExt { let x = self.concat(nh.a, l); return self.zext(x, hw + lw); }
        self.mk(Op::Concat, hw + lw, h, l, 0, 0)
    }
    pub fn fop(&mut self, op: Op, w: u32, a: E, b: E, imm: u128) -> E { self.mk(op, w, a, b, 0, imm) }

    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 { for m in self.memo.iter_mut() { m.0 = 0; } self.gen = 1; }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.imm,
            Op::Var => return (model.get(n.a as usize).copied().unwrap_or(0) as u128) & mask(n.w),
            _ => {}
        }
        if self.memo[e as usize].0 == self.gen { return self.memo[e as usize].1; }
        let r = match n.op {
            Op::Ite => if self.ev(n.a, model) == 1 { self.ev(n.b, model) } else { self.ev(n.c, model) },
            Op::And if n.w == 1 => if self.ev(n.a, model) == 0 { 0 } else { self.ev(n.b, model) },
            Op::Or if n.w == 1 => if self.ev(n.a, model) == 1 { 1 } else { self.ev(n.b, model) },
            Op::Concat => { let lw = self.w(n.b); let h = self.ev(n.a, model); let l = self.ev(n.b, model); h << lw | l }
            Op::Extract => (self.ev(n.a, model) >> n.imm) & mask(n.w),
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => { let aw = self.w(n.a); (sx(self.ev(n.a, model), aw) as u128) & mask(n.w) }
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => { let a = self.ev(n.a, model); let b = self.ev(n.b, model); f_bin(n.op, n.w, a, b) }
            Op::FEq | Op::FLt | Op::FLe | Op::FUno => { let w = self.w(n.a); let a = self.ev(n.a, model); let b = self.ev(n.b, model); f_cmp(n.op, w, a, b) as u128 }
            Op::FNeg => self.ev(n.a, model) ^ (1u128 << (n.w - 1)),
            Op::FAbs => self.ev(n.a, model) & mask(n.w - 1),
            Op::UiToFp | Op::SiToFp | Op::FpToUi | Op::FpToSi | Op::FpExt | Op::FpTrunc => { let sw = self.w(n.a); let a = self.ev(n.a, model); f_conv(n.op, n.w, sw, a) }
            _ => { let w = self.w(n.a); let a = self.ev(n.a, model); let b = self.ev(n.b, model); bin(n.op, w, a, b) }
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }
    /// If `e` depends on exactly one (byte) variable, its index.
    pub fn single_var(&self, e: E) -> Option<u32> {
        let s = self.sup[e as usize];
        if s.count_ones() == 1 && s >> 127 == 0 { Some(s.trailing_zeros()) } else { None }
    }
    /// truth table of a width-1 expression over one 8-bit variable
    pub fn truth(&mut self, e: E, var: u32) -> [u64; 4] {
        if let Some(t) = self.tt.get(&e) { return *t; }
        let mut model = vec![0u64; var as usize + 1];
        let mut t = [0u64; 4];
        for v in 0..256usize {
            model[var as usize] = v as u64;
            if self.eval(e, &model) == 1 { t[v / 64] |= 1 << (v % 64); }
        }
        self.tt.insert(e, t);
        t
    }
    pub fn vars_of(&self, e: E) -> u128 { self.sup[e as usize] }
}
