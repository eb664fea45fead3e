//! Numeric and bool lexemes: which text they take, which value they give.
use crate::flat::*;
use crate::refm::{self as r, alts, diff, mode, size, LexR, G};
use crate::sym;
use aoc_parse::{parser, prelude::*, Parser};
use num_bigint::{BigInt, BigUint, Sign};

impl Flat for f32 { fn flat(&self, o: &mut Vec<u64>) { o.push(self.to_bits() as u64) } }
impl Flat for f64 { fn flat(&self, o: &mut Vec<u64>) { o.push(self.to_bits()) } }
impl Flat for BigUint { fn flat(&self, o: &mut Vec<u64>) { o.push(LIST); for d in self.iter_u32_digits() { o.push(d as u64) } o.push(END) } }
impl Flat for BigInt { fn flat(&self, o: &mut Vec<u64>) { o.push(match self.sign() { Sign::Minus => 2, Sign::NoSign => 0, Sign::Plus => 1 }); o.push(LIST); for d in self.iter_u32_digits() { o.push(d as u64) } o.push(END) } }

fn tail<'a>() -> G<'a> { r::string(r::star(r::any())) }
fn seq<'a>(v: Vec<G<'a>>) -> G<'a> { G::Seq(v) }

fn dig(c: u8, radix: u32) -> Option<u32> {
    if radix == 2 { if c == b'0' || c == b'1' { Some((c - b'0') as u32) } else { None } }
    else if c.wrapping_sub(b'0') < 10 { Some((c - b'0') as u32) }
    else if radix == 16 && (c | 32).wrapping_sub(b'a') < 6 { Some(((c | 32) - b'a') as u32 + 10) }
    else { None }
}
/// optional sign, one or more digits: (negative, first digit, end)
fn digits(s: &str, p: usize, signed: bool, radix: u32) -> Option<(bool, usize, usize)> {
    let b = s.as_bytes();
    let mut i = p;
    let mut neg = false;
    if signed && i < b.len() && (b[i] == b'+' || b[i] == b'-') { neg = b[i] == b'-'; i += 1; }
    let d0 = i;
    while i < b.len() && dig(b[i], radix).is_some() { i += 1; }
    if i == d0 { None } else { Some((neg, d0, i)) }
}
/// integer of at most `max` (magnitude) in either sign
fn int(s: &str, p: usize, signed: bool, radix: u32, max_pos: u128, max_neg: u128, wide: bool) -> LexR {
    let (neg, mut i, e) = match digits(s, p, signed, radix) { Some(x) => x, None => return LexR::No };
    let b = s.as_bytes();
    while i + 1 < e && b[i] == b'0' { i += 1; }
    // compare digit by digit with the limit, so that nothing can overflow
    let max = if neg { max_neg } else { max_pos };
    let mut lim = vec![];
    let mut m = max;
    while m > 0 { lim.push((m % radix as u128) as u32); m /= radix as u128; }
    if lim.is_empty() { lim.push(0); }
    let n = e - i;
    if n > lim.len() { return LexR::Bad(e); }
    let mut v = 0u128;
    let mut over = false;
    let mut eq = n == lim.len();
    for k in 0..n {
        let d = dig(b[i + k], radix).unwrap();
        let l = lim[n - 1 - k];
        over |= eq & (d > l);
        eq &= d == l;
        v = v.wrapping_mul(radix as u128).wrapping_add(d as u128);
    }
    if over { return LexR::Bad(e); }
    let v = if neg { v.wrapping_neg() } else { v };
    LexR::Ok(e, if wide { vec![(v >> 64) as u64, v as u64] } else { vec![v as u64] })
}
/// integer of any size
fn big(s: &str, p: usize, signed: bool, radix: u32) -> LexR {
    let (neg, i, e) = match digits(s, p, signed, radix) { Some(x) => x, None => return LexR::No };
    let mut v: Vec<u32> = vec![];
    for &c in &s.as_bytes()[i..e] {
        let mut carry = dig(c, radix).unwrap() as u64;
        for x in v.iter_mut() { let t = *x as u64 * radix as u64 + carry; *x = t as u32; carry = t >> 32; }
        if carry != 0 || !v.is_empty() { v.push(carry as u32); }
        while v.last() == Some(&0) { v.pop(); }
    }
    let mut o = vec![];
    if signed { o.push(if v.is_empty() { 0 } else if neg { 2 } else { 1 }); }
    o.push(LIST);
    for d in v { o.push(d as u64) }
    o.push(END);
    LexR::Ok(e, o)
}
/// end of the longest floating-point lexeme
fn float(s: &str, p: usize) -> Option<usize> {
    let b = s.as_bytes();
    let at = |i: usize| if i < b.len() { b[i] } else { 0 };
    let word = |i: usize, w: &[u8]| { let mut ok = true; for (k, c) in w.iter().enumerate() { ok &= at(i + k) | 32 == *c; } ok };
    let num = |mut i: usize| { while at(i).is_ascii_digit() { i += 1; } i };
    let mut i = p;
    if at(i) == b'+' || at(i) == b'-' { i += 1; }
    if word(i, b"infinity") { return Some(i + 8); }
    if word(i, b"inf") || word(i, b"nan") { return Some(i + 3); }
    let d = num(i);
    let mut e;
    if d > i { e = d; if at(d) == b'.' { e = num(d + 1); } }
    else if at(i) == b'.' { e = num(i + 1); if e == i + 1 { return None; } }
    else { return None; }
    if at(e) | 32 == b'e' {
        let mut x = e + 1;
        if at(x) == b'+' || at(x) == b'-' { x += 1; }
        let y = num(x);
        if y > x { e = y; }
    }
    Some(e)
}
fn boolean(s: &str, p: usize) -> LexR {
    let b = &s.as_bytes()[p..];
    let word = |w: &[u8]| b.len() >= w.len() && { let mut ok = true; for (k, c) in w.iter().enumerate() { ok &= b[k] == *c; } ok };
    if word(b"true") { LexR::Ok(p + 4, vec![1]) } else if word(b"false") { LexR::Ok(p + 5, vec![0]) } else { LexR::No }
}

macro_rules! ug { ($t:ident $radix:expr) => { G::Lex(|s, p| int(s, p, false, $radix, $t::MAX as u128, 0, $t::BITS > 64), stringify!($t)) } }
macro_rules! ig { ($t:ident $radix:expr) => { G::Lex(|s, p| int(s, p, true, $radix, $t::MAX as u128, ($t::MIN as i128 as u128).wrapping_neg(), $t::BITS > 64), stringify!($t)) } }
macro_rules! bg { ($s:expr, $radix:expr, $n:expr) => { G::Lex(|s, p| big(s, p, $s, $radix), $n) } }

// arbitrary text: a number, then whatever follows
macro_rules! text { ($l:ident $p:expr, $g:expr) => {{
    let p = $p;
    let _ = p.parse("1");
    let s = sym::ascii_upto(size($l), "");
    diff(&parser!(p string(any_char*)), &seq(vec![$g, tail()]), &s, mode($l))
}} }
// around the limits of the type: all but the last digits of a limit, then symbolic text
macro_rules! limit { ($l:ident $p:expr, $g:expr, $max:expr, $radix:expr, $signed:expr) => {{
    let p = $p;
    let _ = p.parse("1");
    let k = size($l);
    let mut m: u128 = $max;
    let mut ds = vec![];
    while m > 0 { ds.push(b"0123456789abcdef"[(m % $radix) as usize]); m /= $radix; }
    ds.reverse();
    let mut s = String::new();
    if $signed { match sym::choose(3) { 0 => {} 1 => s.push('+'), _ => s.push('-') } }
    if sym::flip() { s.push_str("000") }
    for &d in &ds[..ds.len() - k.min(ds.len())] { s.push(d as char) }
    s.push_str(&sym::ascii(k, ""));
    if sym::flip() { s.push_str(&sym::ascii(1, "0f ")) }
    diff(&parser!(p string(any_char*)), &seq(vec![$g, tail()]), &s, mode($l))
}} }
// a number somewhere inside a larger pattern
macro_rules! inside { ($l:ident $p:expr, $g:expr) => {{
    let p = $p;
    let _ = p.parse("1");
    let s = sym::ascii_upto(size($l), "-+017af, ");
    diff(&parser!(repeat_sep(p, {", ", ","}) " "? string(any_char*)), &seq(vec![r::sep($g, G::Alt(vec![G::Lit(", "), G::Lit(",")])), r::opt(G::Lit(" ")), tail()]), &s, mode($l))
}} }
macro_rules! uni { ($l:ident $p:expr, $g:expr) => {{
    let p = $p;
    let _ = p.parse("1");
    let s = sym::utf8(size($l));
    diff(&parser!(p string(any_char*)), &seq(vec![$g, tail()]), &s, mode($l))
}} }
macro_rules! bigs { ($l:ident $p:expr, $g:expr, $signed:expr, $d:expr) => {{
    let p = $p;
    let _ = p.parse("1");
    let mut s = String::new();
    if $signed { match sym::choose(3) { 0 => {} 1 => s.push('+'), _ => s.push('-') } }
    // alts selects the length of the concrete part
    for i in 0..alts($l) * 12 { s.push($d.as_bytes()[i % $d.len()] as char) }
    s.push_str(&sym::ascii(size($l), ""));
    diff(&parser!(p string(any_char*)), &seq(vec![$g, tail()]), &s, mode($l))
}} }
macro_rules! floats { ($l:ident $p:expr, $t:ident, $alpha:expr, $pre:expr) => {{
    let p = $p;
    let _ = p.parse("1");
    let mut s = String::from($pre);
    s.push_str(&sym::ascii_upto(size($l), $alpha));
    diff(&parser!(p string(any_char*)), &seq(vec![G::Lex(|s, p| match float(s, p) { None => LexR::No, Some(e) => match s[p..e].parse::<$t>() { Ok(v) => LexR::Ok(e, vec![v.to_bits() as u64]), Err(_) => LexR::Bad(e) } }, stringify!($t)), tail()]), &s, mode($l))
}} }

harness! {
    h_u8(l) { text!(l u8, ug!(u8 10)) }
    h_u16(l) { text!(l u16, ug!(u16 10)) }
    h_u32(l) { text!(l u32, ug!(u32 10)) }
    h_u64(l) { text!(l u64, ug!(u64 10)) }
    h_u128(l) { text!(l u128, ug!(u128 10)) }
    h_usize(l) { text!(l usize, ug!(usize 10)) }
    h_i8(l) { text!(l i8, ig!(i8 10)) }
    h_i16(l) { text!(l i16, ig!(i16 10)) }
    h_i32(l) { text!(l i32, ig!(i32 10)) }
    h_i64(l) { text!(l i64, ig!(i64 10)) }
    h_i128(l) { text!(l i128, ig!(i128 10)) }
    h_isize(l) { text!(l isize, ig!(isize 10)) }
    h_lim_u8(l) { limit!(l u8, ug!(u8 10), 255, 10, false) }
    h_lim_u16(l) { limit!(l u16, ug!(u16 10), 65535, 10, false) }
    h_lim_u32(l) { limit!(l u32, ug!(u32 10), u32::MAX as u128, 10, false) }
    h_lim_u64(l) { limit!(l u64, ug!(u64 10), u64::MAX as u128, 10, false) }
    h_lim_u128(l) { limit!(l u128, ug!(u128 10), u128::MAX, 10, false) }
    h_lim_usize(l) { limit!(l usize, ug!(usize 10), usize::MAX as u128, 10, false) }
    h_lim_i8(l) { limit!(l i8, ig!(i8 10), 128, 10, true) }
    h_lim_i16(l) { limit!(l i16, ig!(i16 10), 32768, 10, true) }
    h_lim_i32(l) { limit!(l i32, ig!(i32 10), 1 << 31, 10, true) }
    h_lim_i64(l) { limit!(l i64, ig!(i64 10), 1 << 63, 10, true) }
    h_lim_i128(l) { limit!(l i128, ig!(i128 10), 1 << 127, 10, true) }
    h_lim_isize(l) { limit!(l isize, ig!(isize 10), 1 << 63, 10, true) }
    h_in_u8(l) { inside!(l u8, ug!(u8 10)) }
    h_in_i64(l) { inside!(l i64, ig!(i64 10)) }
    h_in_u16_hex(l) { inside!(l u16_hex, ug!(u16 16)) }
    h_in_i8_bin(l) { inside!(l i8_bin, ig!(i8 2)) }
    h_uni_u32(l) { uni!(l u32, ug!(u32 10)) }
    h_uni_i32(l) { uni!(l i32, ig!(i32 10)) }
    // ---- binary and hexadecimal
    h_u8_bin(l) { text!(l u8_bin, ug!(u8 2)) }
    h_u16_bin(l) { text!(l u16_bin, ug!(u16 2)) }
    h_u32_bin(l) { text!(l u32_bin, ug!(u32 2)) }
    h_u64_bin(l) { text!(l u64_bin, ug!(u64 2)) }
    h_u128_bin(l) { text!(l u128_bin, ug!(u128 2)) }
    h_usize_bin(l) { text!(l usize_bin, ug!(usize 2)) }
    h_i8_bin(l) { text!(l i8_bin, ig!(i8 2)) }
    h_i16_bin(l) { text!(l i16_bin, ig!(i16 2)) }
    h_i32_bin(l) { text!(l i32_bin, ig!(i32 2)) }
    h_i64_bin(l) { text!(l i64_bin, ig!(i64 2)) }
    h_i128_bin(l) { text!(l i128_bin, ig!(i128 2)) }
    h_isize_bin(l) { text!(l isize_bin, ig!(isize 2)) }
    h_u8_hex(l) { text!(l u8_hex, ug!(u8 16)) }
    h_u16_hex(l) { text!(l u16_hex, ug!(u16 16)) }
    h_u32_hex(l) { text!(l u32_hex, ug!(u32 16)) }
    h_u64_hex(l) { text!(l u64_hex, ug!(u64 16)) }
    h_u128_hex(l) { text!(l u128_hex, ug!(u128 16)) }
    h_usize_hex(l) { text!(l usize_hex, ug!(usize 16)) }
    h_i8_hex(l) { text!(l i8_hex, ig!(i8 16)) }
    h_i16_hex(l) { text!(l i16_hex, ig!(i16 16)) }
    h_i32_hex(l) { text!(l i32_hex, ig!(i32 16)) }
    h_i64_hex(l) { text!(l i64_hex, ig!(i64 16)) }
    h_i128_hex(l) { text!(l i128_hex, ig!(i128 16)) }
    h_isize_hex(l) { text!(l isize_hex, ig!(isize 16)) }
    h_lim_u8_bin(l) { limit!(l u8_bin, ug!(u8 2), 255, 2, false) }
    h_lim_u16_bin(l) { limit!(l u16_bin, ug!(u16 2), 65535, 2, false) }
    h_lim_u32_bin(l) { limit!(l u32_bin, ug!(u32 2), u32::MAX as u128, 2, false) }
    h_lim_u64_bin(l) { limit!(l u64_bin, ug!(u64 2), u64::MAX as u128, 2, false) }
    h_lim_u128_bin(l) { limit!(l u128_bin, ug!(u128 2), u128::MAX, 2, false) }
    h_lim_usize_bin(l) { limit!(l usize_bin, ug!(usize 2), usize::MAX as u128, 2, false) }
    h_lim_i8_bin(l) { limit!(l i8_bin, ig!(i8 2), 128, 2, true) }
    h_lim_i16_bin(l) { limit!(l i16_bin, ig!(i16 2), 32768, 2, true) }
    h_lim_i32_bin(l) { limit!(l i32_bin, ig!(i32 2), 1 << 31, 2, true) }
    h_lim_i64_bin(l) { limit!(l i64_bin, ig!(i64 2), 1 << 63, 2, true) }
    h_lim_i128_bin(l) { limit!(l i128_bin, ig!(i128 2), 1 << 127, 2, true) }
    h_lim_isize_bin(l) { limit!(l isize_bin, ig!(isize 2), 1 << 63, 2, true) }
    h_lim_u8_hex(l) { limit!(l u8_hex, ug!(u8 16), 255, 16, false) }
    h_lim_u16_hex(l) { limit!(l u16_hex, ug!(u16 16), 65535, 16, false) }
    h_lim_u32_hex(l) { limit!(l u32_hex, ug!(u32 16), u32::MAX as u128, 16, false) }
    h_lim_u64_hex(l) { limit!(l u64_hex, ug!(u64 16), u64::MAX as u128, 16, false) }
    h_lim_u128_hex(l) { limit!(l u128_hex, ug!(u128 16), u128::MAX, 16, false) }
    h_lim_usize_hex(l) { limit!(l usize_hex, ug!(usize 16), usize::MAX as u128, 16, false) }
    h_lim_i8_hex(l) { limit!(l i8_hex, ig!(i8 16), 128, 16, true) }
    h_lim_i16_hex(l) { limit!(l i16_hex, ig!(i16 16), 32768, 16, true) }
    h_lim_i32_hex(l) { limit!(l i32_hex, ig!(i32 16), 1 << 31, 16, true) }
    h_lim_i64_hex(l) { limit!(l i64_hex, ig!(i64 16), 1 << 63, 16, true) }
    h_lim_i128_hex(l) { limit!(l i128_hex, ig!(i128 16), 1 << 127, 16, true) }
    h_lim_isize_hex(l) { limit!(l isize_hex, ig!(isize 16), 1 << 63, 16, true) }
    h_uni_u8_hex(l) { uni!(l u8_hex, ug!(u8 16)) }
    // ---- big integers
    h_bu(l) { bigs!(l big_uint, bg!(false, 10, "num_bigint::biguint::BigUint"), false, "918273645019") }
    h_bi(l) { bigs!(l big_int, bg!(true, 10, "num_bigint::bigint::BigInt"), true, "918273645019") }
    h_bu_bin(l) { bigs!(l big_uint_bin, bg!(false, 2, "num_bigint::biguint::BigUint"), false, "1011001110001") }
    h_bi_bin(l) { bigs!(l big_int_bin, bg!(true, 2, "num_bigint::bigint::BigInt"), true, "1011001110001") }
    h_bu_hex(l) { bigs!(l big_uint_hex, bg!(false, 16, "num_bigint::biguint::BigUint"), false, "9aF4c3E70bD1") }
    h_bi_hex(l) { bigs!(l big_int_hex, bg!(true, 16, "num_bigint::bigint::BigInt"), true, "9aF4c3E70bD1") }
    // ---- floating point and bool
    h_f64_any(l) { floats!(l f64, f64, "", "") }
    h_f64(l) { floats!(l f64, f64, "07.eE+-", "") }
    h_f64_word(l) { floats!(l f64, f64, "iInNfFaAtTyY+", "") }
    h_f64_inf(l) { floats!(l f64, f64, "nItTyY", "-infi") }
    h_f64_exp(l) { floats!(l f64, f64, "03eE+-.", "1.5") }
    h_f32_any(l) { floats!(l f32, f32, "", "") }
    h_f32(l) { floats!(l f32, f32, "07.eE+-", "") }
    // halfway cases: rounding once to f32 differs from rounding through f64
    h_f32_round(l) {
        let p = f32;
        let _ = p.parse("1");
        let mut s = String::from(match sym::choose(3) { 0 => "1.0000000596046447753906", 1 => "-16777217.", _ => "3.4028235677973366" });
        for _ in 0..size(l) { s.push(b"0257"[sym::choose(4) as usize] as char) }
        if sym::flip() { s.push_str("e38") }
        diff(&parser!(p string(any_char*)), &seq(vec![G::Lex(|s, p| match float(s, p) { None => LexR::No, Some(e) => match s[p..e].parse::<f32>() { Ok(v) => LexR::Ok(e, vec![v.to_bits() as u64]), Err(_) => LexR::Bad(e) } }, "f32"), tail()]), &s, mode(l))
    }
    h_f32_inf(l) { floats!(l f32, f32, "nItTyY", "+infi") }
    h_bool(l) { let _ = bool.parse("true"); let s = sym::ascii_upto(size(l), ""); diff(&parser!(bool string(any_char*)), &seq(vec![G::Lex(boolean, "bool"), tail()]), &s, mode(l)) }
    h_bools(l) { let _ = bool.parse("true"); let s = sym::ascii(size(l), ""); let t = format!("true{s}"); diff(&parser!(bool bool), &seq(vec![G::Lex(boolean, "bool"), G::Lex(boolean, "bool")]), &t, mode(l)) }
}
