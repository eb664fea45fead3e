//! The symbolic interface.  In the symbolic build these are the engine's
//! primitives; in the `native` build they replay a recorded assignment.
#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sym_u8() -> u8;
        fn sym_assume(c: bool);
        fn sym_check(c: bool, p: *const u8, n: usize);
        fn sym_fail(p: *const u8, n: usize);
        fn sym_reach(id: u64);
        fn sym_observe(v: u64);
        fn sym_concrete(v: u64) -> u64;
    }
    #[inline(always)]
    pub fn byte() -> u8 { unsafe { sym_u8() } }
    #[inline(always)]
    pub fn assume(c: bool) { unsafe { sym_assume(c) } }
    #[inline(always)]
    pub fn check(c: bool, m: &str) { unsafe { sym_check(c, m.as_ptr(), m.len()) } }
    #[inline(always)]
    pub fn fail(m: &str) { unsafe { sym_fail(m.as_ptr(), m.len()) } }
    #[inline(always)]
    pub fn reach(i: u64) { unsafe { sym_reach(i) } }
    #[inline(always)]
    pub fn observe(v: u64) { unsafe { sym_observe(v) } }
    #[inline(always)]
    pub fn concrete(v: u64) -> u64 { unsafe { sym_concrete(v) } }
}
#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    #[derive(Default)]
    pub struct Replay { pub vars: Vec<u8>, pub pos: usize, pub short: bool, pub obs: Vec<u64>, pub fails: Vec<String>, pub reached: Vec<u64> }
    thread_local! { pub static R: RefCell<Replay> = RefCell::default(); }
    pub struct AssumeViolated;
    pub fn byte() -> u8 {
        R.with(|r| { let mut r = r.borrow_mut(); let i = r.pos; r.pos += 1; match r.vars.get(i).copied() { Some(b) => b, None => { r.short = true; b'0' } } })
    }
    pub fn assume(c: bool) { if !c { std::panic::resume_unwind(Box::new(AssumeViolated)) } }
    pub fn check(c: bool, m: &str) { if !c { R.with(|r| r.borrow_mut().fails.push(m.into())) } }
    pub struct Failed;
    pub fn fail(m: &str) { R.with(|r| r.borrow_mut().fails.push(m.into())); std::panic::resume_unwind(Box::new(Failed)) }
    pub fn reach(i: u64) { R.with(|r| r.borrow_mut().reached.push(i)) }
    pub fn observe(v: u64) { R.with(|r| r.borrow_mut().obs.push(v)) }
    pub fn concrete(v: u64) -> u64 { v }
}
pub use imp::*;

/// A number in 0..n, one path per value.
pub fn choose(n: u64) -> u64 {
    if n <= 1 { return 0; }
    let b = byte() as u64;
    assume(b < n);
    concrete(b)
}
pub fn flip() -> bool { choose(2) == 1 }

/// `len` symbolic bytes from `alphabet` (any ASCII byte when empty).
pub fn ascii(len: usize, alphabet: &str) -> String {
    let mut v = Vec::with_capacity(len + 1);
    for _ in 0..len {
        let b = byte();
        if alphabet.is_empty() { assume(b < 0x80); } else {
            let mut ok = false;
            for &a in alphabet.as_bytes() { ok |= b == a; }
            assume(ok);
        }
        v.push(b);
    }
    // the bytes are ASCII by assumption
    unsafe { String::from_utf8_unchecked(v) }
}
/// ASCII text of symbolic length 0..=max.
pub fn ascii_upto(max: usize, alphabet: &str) -> String {
    let n = choose(max as u64 + 1) as usize;
    ascii(n, alphabet)
}
/// Any valid UTF-8 text of exactly `len` bytes.
pub fn utf8(len: usize) -> String {
    let mut v = Vec::with_capacity(len + 1);
    for _ in 0..len { v.push(byte()); }
    match String::from_utf8(v) { Ok(s) => s, Err(_) => { assume(false); unreachable!() } }
}
/// `n` characters of every encoded length: any ASCII character, or one of a
/// block of 64 of two, three or four bytes.
pub fn uchars(n: usize) -> String {
    let mut v = Vec::with_capacity(4 * n + 1);
    for _ in 0..n {
        let k = choose(4);
        let b = byte();
        if k == 0 { assume(b < 0x80); } else { assume(b & 0xC0 == 0x80); }
        match k { 0 => {} 1 => v.push(0xC3), 2 => v.extend([0xE2, 0x82]), _ => v.extend([0xF0, 0x9F, 0x98]) }
        v.push(b);
    }
    // valid by construction
    unsafe { String::from_utf8_unchecked(v) }
}
/// One symbolic scalar value.
pub fn any_char_sym() -> char {
    let mut x = 0u32;
    for _ in 0..3 { x = x << 8 | byte() as u32; }
    assume(x < 0xD800 || (x > 0xDFFF && x < 0x110000));
    unsafe { char::from_u32_unchecked(x) }
}
