//! Flat copy-on-write byte memory with an optional symbolic overlay.
use crate::expr::{Arena, E};
use std::rc::Rc;

#[derive(Clone, Copy, Debug)]
pub struct V { pub c: u128, pub e: E }
impl V {
    #[inline(always)] pub fn k(c: u128) -> V { V { c, e: 0 } }
    #[inline(always)] pub fn s(e: E) -> V { V { c: 0, e } }
}

pub const PAGE: usize = 4096;
#[derive(Clone)]
pub struct Page { d: [u8; PAGE], s: Option<Box<[u32; PAGE]>> }
type Chunk = Vec<Option<Rc<Page>>>;
#[derive(Clone)]
pub struct Mem { top: Vec<Option<Rc<Chunk>>> }

impl Mem {
    pub fn new() -> Mem { Mem { top: vec![None; 2048] } }
    #[inline(always)]
    fn page(&self, a: u64) -> Option<&Page> {
        let pi = (a >> 12) as usize;
        match self.top.get(pi >> 9) { Some(Some(c)) => c[pi & 511].as_deref(), _ => None }
    }
    #[inline(always)]
    fn page_mut(&mut self, a: u64) -> &mut Page {
        let pi = (a >> 12) as usize;
        let t = &mut self.top[pi >> 9];
        if t.is_none() { *t = Some(Rc::new(vec![None; 512])); }
        let c = Rc::make_mut(t.as_mut().unwrap());
        let p = &mut c[pi & 511];
        if p.is_none() { *p = Some(Rc::new(Page { d: [0; PAGE], s: None })); }
        Rc::make_mut(p.as_mut().unwrap())
    }
    #[inline(always)]
    pub fn byte(&self, a: u64) -> (u8, u32) {
        match self.page(a) { None => (0, 0), Some(p) => { let o = a as usize & (PAGE - 1); (p.d[o], p.s.as_ref().map_or(0, |s| s[o])) } }
    }
    pub fn set_bytes(&mut self, a: u64, b: &[u8]) { for (i, x) in b.iter().enumerate() { self.set_byte(a + i as u64, *x, 0); } }
    #[inline(always)]
    pub fn set_byte(&mut self, a: u64, d: u8, s: u32) {
        let p = self.page_mut(a);
        let o = a as usize & (PAGE - 1);
        p.d[o] = d;
        match &mut p.s { Some(x) => x[o] = s, None => if s != 0 { let mut x = Box::new([0u32; PAGE]); x[o] = s; p.s = Some(x); } }
    }
    fn byte_e(ar: &mut Arena, d: u8, s: u32) -> E {
        if s == 0 { ar.konst(d as u128, 8) } else { let e = s >> 4; let w = ar.w(e); let lo = (s & 15) * 8; if lo + 8 <= w { ar.extract(e, lo, 8) } else { let x = ar.extract(e, lo, w - lo); ar.zext(x, 8) } }
    }
    /// read an integer of `w` bits
    #[inline(always)]
    pub fn read(&self, ar: &mut Arena, a: u64, w: u32) -> V {
        let n = ((w + 7) / 8) as usize;
        let o = a as usize & (PAGE - 1);
        if o + n <= PAGE {
            match self.page(a) {
                None => return V::k(0),
                Some(p) => {
                    if p.s.as_ref().map_or(true, |s| s[o..o + n].iter().all(|&x| x == 0)) {
                        let mut b = [0u8; 16];
                        b[..n].copy_from_slice(&p.d[o..o + n]);
                        let v = u128::from_le_bytes(b);
                        return V::k(if w % 8 == 0 { v } else { v & crate::expr::mask(w) });
                    }
                }
            }
        }
        self.read_slow(ar, a, w, n)
    }
    #[inline(never)]
    fn read_slow(&self, ar: &mut Arena, a: u64, w: u32, n: usize) -> V {
        let bs: Vec<(u8, u32)> = (0..n).map(|i| self.byte(a + i as u64)).collect();
        if bs.iter().all(|b| b.1 == 0) {
            let mut v = 0u128;
            for (i, b) in bs.iter().enumerate() { v |= (b.0 as u128) << (8 * i); }
            return V::k(v & crate::expr::mask(w));
        }
        // whole value stored earlier?
        let s0 = bs[0].1;
        if s0 != 0 && s0 & 15 == 0 && bs.iter().enumerate().all(|(i, b)| b.1 == s0 + i as u32) {
            let e = s0 >> 4;
            let ew = ar.w(e);
            if ew == w { return V::s(e); }
            if ew > w { let x = ar.extract(e, 0, w); return mkv(ar, x); }
        }
        let mut r: E = 0;
        for b in bs.iter() {
            let x = Self::byte_e(ar, b.0, b.1);
            r = if r == 0 { x } else { ar.concat(x, r) };
        }
        let r = if ar.w(r) > w { ar.extract(r, 0, w) } else { r };
        mkv(ar, r)
    }
    #[inline(always)]
    pub fn write(&mut self, a: u64, w: u32, v: V) {
        let n = ((w + 7) / 8) as usize;
        let o = a as usize & (PAGE - 1);
        if o + n <= PAGE {
            let p = self.page_mut(a);
            if v.e == 0 {
                p.d[o..o + n].copy_from_slice(&v.c.to_le_bytes()[..n]);
                if let Some(s) = &mut p.s { s[o..o + n].fill(0); }
            } else {
                let s = p.s.get_or_insert_with(|| Box::new([0u32; PAGE]));
                for i in 0..n { s[o + i] = (v.e << 4) | i as u32; }
            }
            return;
        }
        let b = v.c.to_le_bytes();
        for i in 0..n { if v.e == 0 { self.set_byte(a + i as u64, b[i], 0) } else { self.set_byte(a + i as u64, 0, (v.e << 4) | i as u32) } }
    }
    pub fn copy(&mut self, dst: u64, src: u64, n: u64) {
        if n <= 64 {
            let mut t = [(0u8, 0u32); 64];
            for i in 0..n as usize { t[i] = self.byte(src + i as u64); }
            for i in 0..n as usize { self.set_byte(dst + i as u64, t[i].0, t[i].1); }
            return;
        }
        let t: Vec<(u8, u32)> = (0..n).map(|i| self.byte(src + i)).collect();
        let (mut i, mut a) = (0usize, dst);
        while i < t.len() {
            let o = a as usize & (PAGE - 1);
            let m = (PAGE - o).min(t.len() - i);
            let p = self.page_mut(a);
            for k in 0..m { p.d[o + k] = t[i + k].0; }
            let sym = t[i..i + m].iter().any(|x| x.1 != 0);
            if sym || p.s.is_some() {
                let s = p.s.get_or_insert_with(|| Box::new([0u32; PAGE]));
                for k in 0..m { s[o + k] = t[i + k].1; }
            }
            i += m;
            a += m as u64;
        }
    }
    pub fn fill(&mut self, dst: u64, n: u64, v: V) { let mut a = dst; for _ in 0..n { self.write(a, 8, v); a += 1; } }
}
#[inline(always)]
pub fn mkv(ar: &Arena, e: E) -> V { match ar.cval(e) { Some(c) => V::k(c), None => V::s(e) } }
