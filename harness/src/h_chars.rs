//! Single characters, exact text and captured text.
use crate::refm::{self as r, diff, mode, size, LexR, G};
use crate::sym;
use aoc_parse::{parser, prelude::*, Parser};

fn utf8_upto(l: u32) -> String { let n = sym::choose(size(l) as u64 + 1) as usize; sym::utf8(n) }
fn lit<'a>(s: &'a str) -> G<'a> { G::Lit(s) }
fn seq<'a>(v: Vec<G<'a>>) -> G<'a> { G::Seq(v) }
fn tail<'a>() -> G<'a> { r::string(r::star(r::any())) }
fn c_alpha(c: char) -> bool { if (c as u32) < 0x80 { (c as u32 | 32).wrapping_sub(97) < 26 } else { c.is_alphabetic() } }
fn c_alnum(c: char) -> bool { if (c as u32) < 0x80 { (c as u32 | 32).wrapping_sub(97) < 26 || (c as u32).wrapping_sub(48) < 10 } else { c.is_alphanumeric() } }
fn c_upper(c: char) -> bool { if (c as u32) < 0x80 { (c as u32).wrapping_sub(65) < 26 } else { c.is_uppercase() } }
fn c_lower(c: char) -> bool { if (c as u32) < 0x80 { (c as u32).wrapping_sub(97) < 26 } else { c.is_lowercase() } }

macro_rules! class { ($l:ident $p:expr, $f:expr, $n:expr) => {{
    let s = utf8_upto($l);
    // one character, then whatever follows
    let p = $p;
    diff(&parser!(p string(any_char*)), &seq(vec![r::class($f, $n), tail()]), &s, mode($l))
}} }
macro_rules! class2 { ($l:ident $p:expr, $f:expr, $n:expr) => {{
    let s = sym::ascii_upto(size($l), "");
    let p = $p;
    diff(&parser!(p* any_char p+), &seq(vec![r::star(r::class($f, $n)), r::any(), r::plus(r::class($f, $n))]), &s, mode($l))
}} }
macro_rules! dig { ($l:ident $p:expr, $radix:expr, $n:expr) => {{
    let s = utf8_upto($l);
    let p = $p;
    diff(&parser!(p p? string(any_char*)), &seq(vec![G::Digit($radix, $n), r::opt(G::Digit($radix, $n)), tail()]), &s, mode($l))
}} }
macro_rules! of { ($l:ident $o:expr) => {{
    let s = utf8_upto($l);
    diff(&parser!(char_of($o) string(any_char*)), &seq(vec![G::CharOf($o), tail()]), &s, mode($l))
}} }
// a symbolic exact text against symbolic input
fn dynlex(_: &str, _: usize) -> LexR { LexR::No }

harness! {
    h_alpha(l) { class!(l alpha, c_alpha, "letter") }
    h_alnum(l) { class!(l alnum, c_alnum, "letter or digit") }
    h_upper(l) { class!(l upper, c_upper, "uppercase letter") }
    h_lower(l) { class!(l lower, c_lower, "lowercase letter") }
    h_any(l) { class!(l any_char, |_| true, "any character") }
    h_alpha_run(l) { class2!(l alpha, c_alpha, "letter") }
    h_alnum_run(l) { class2!(l alnum, c_alnum, "letter or digit") }
    h_upper_run(l) { class2!(l upper, c_upper, "uppercase letter") }
    h_lower_run(l) { class2!(l lower, c_lower, "lowercase letter") }
    h_digit(l) { dig!(l digit, 10, "decimal digit") }
    h_digit_bin(l) { dig!(l digit_bin, 2, "binary digit") }
    h_digit_hex(l) { dig!(l digit_hex, 16, "hexadecimal digit") }
    h_of_dirs(l) { of!(l "^v<>") }
    h_of_one(l) { of!(l "x") }
    h_of_none(l) { of!(l "") }
    h_of_dup(l) { of!(l "abab") }
    h_of_uni(l) { of!(l "é😂a\u{7f}\u{80}€") }
    h_of_shared(l) { of!(l "ĀāĂ€₭") }
    h_of_many(l) { of!(l "0123456789abcdefghijklmnopqrstuvwxyz\n\"\\'") }
    h_of_order(l) { of!(l "zyxwvut") }
    // every character of more than one byte, in blocks of 64 (all last bytes):
    // tens of the level select the encoded length, units the class
    h_every(l) {
        let c = |n: u64| sym::choose(n) as u8;
        let mut v = match size(l) / 10 {
            2 => vec![0xC2 + c(30)],
            3 => { let a = 0xE0 + c(16); let b = 0x80 + c(64); sym::assume((a != 0xE0 || b >= 0xA0) && (a != 0xED || b < 0xA0)); vec![a, b] }
            // the planes from U+10000 to U+3FFFF
            4 => { let b = 0x90 + c(48); vec![0xF0, b, 0x80 + c(64)] }
            _ => { let a = 0xF1 + c(4); let b = 0x80 + c(64); sym::assume(a != 0xF4 || b < 0x90); vec![a, b, 0x80 + c(64)] }
        };
        let b = sym::byte();
        sym::assume(b >= 0x80 && b < 0xc0);
        v.push(b);
        let s = unsafe { String::from_utf8_unchecked(v) };
        match size(l) % 10 {
            0 => diff(&alpha, &r::class(c_alpha, "letter"), &s, mode(l)),
            1 => diff(&alnum, &r::class(c_alnum, "letter or digit"), &s, mode(l)),
            2 => diff(&upper, &r::class(c_upper, "uppercase letter"), &s, mode(l)),
            3 => diff(&lower, &r::class(c_lower, "lowercase letter"), &s, mode(l)),
            4 => diff(&any_char, &r::class(|_| true, "any character"), &s, mode(l)),
            5 => diff(&digit, &G::Digit(10, "decimal digit"), &s, mode(l)),
            6 => diff(&digit_bin, &G::Digit(2, "binary digit"), &s, mode(l)),
            7 => diff(&digit_hex, &G::Digit(16, "hexadecimal digit"), &s, mode(l)),
            _ => diff(&char_of("éÿ€₭😂\u{10ffff}ż"), &G::CharOf("éÿ€₭😂\u{10ffff}ż"), &s, mode(l)),
        }
    }
    // characters of three and four bytes: some blocks of 64
    h_blocks(l) {
        let blocks: &[&[u8]] = &[b"\xe4\xb8", b"\xe2\x82", b"\xe0\xa4", b"\xe1\xba", b"\xef\xbc", b"\xf0\x9d\x90", b"\xf0\x9f\x98", b"\xe2\x85"];
        let mut v = blocks[sym::choose(blocks.len() as u64) as usize].to_vec();
        let b = sym::byte();
        sym::assume(b >= 0x80 && b < 0xc0);
        v.push(b);
        let s = unsafe { String::from_utf8_unchecked(v) };
        match size(l) {
            0 => diff(&alpha, &r::class(c_alpha, "letter"), &s, mode(l)),
            1 => diff(&alnum, &r::class(c_alnum, "letter or digit"), &s, mode(l)),
            2 => diff(&upper, &r::class(c_upper, "uppercase letter"), &s, mode(l)),
            3 => diff(&lower, &r::class(c_lower, "lowercase letter"), &s, mode(l)),
            _ => diff(&any_char, &r::class(|_| true, "any character"), &s, mode(l)),
        }
    }
    // a symbolic character among symbolic options
    h_of_sym(l) {
        let o: &'static str = Box::leak(sym::ascii(size(l), "abcdefgh").into_boxed_str());
        let s = sym::ascii_upto(1, "");
        diff(&char_of(o), &G::CharOf(o), &s, mode(l))
    }
    // ---- exact text
    h_exact_a(l) { let s = utf8_upto(l); diff(&parser!("a" string(any_char*)), &seq(vec![lit("a"), tail()]), &s, mode(l)) }
    h_exact_ab(l) { let s = utf8_upto(l); diff(&parser!("ab" string(any_char*)), &seq(vec![lit("ab"), tail()]), &s, mode(l)) }
    h_exact_empty(l) { let s = utf8_upto(l); diff(&parser!("" string(any_char*)), &seq(vec![lit(""), tail()]), &s, mode(l)) }
    h_exact_nl(l) { let s = utf8_upto(l); diff(&parser!("a\n\t" string(any_char*)), &seq(vec![lit("a\n\t"), tail()]), &s, mode(l)) }
    h_exact_uni(l) { let s = utf8_upto(l); diff(&parser!("é" '€' string(any_char*)), &seq(vec![lit("é"), G::Lex(|s, p| if s.len() >= p + 3 && &s.as_bytes()[p..p + 3] == "€".as_bytes() { LexR::Ok(p + 3, vec![]) } else { LexR::No }, "'€'"), tail()]), &s, mode(l)) }
    h_exact_char(l) { let s = utf8_upto(l); diff(&parser!('x' string(any_char*)), &seq(vec![G::Lex(|s, p| if s.len() > p && s.as_bytes()[p] == b'x' { LexR::Ok(p + 1, vec![]) } else { LexR::No }, "'x'"), tail()]), &s, mode(l)) }
    h_exact_uchar(l) { let s = utf8_upto(l); diff(&parser!('😂'), &G::Lex(|s, p| if s.len() == 4 && s.as_bytes() == "😂".as_bytes() { LexR::Ok(p + 4, vec![]) } else { LexR::No }, "'😂'"), &s, mode(l)) }
    h_exact_case(l) { let s = sym::ascii_upto(size(l), ""); diff(&parser!("Ab" "C"), &seq(vec![lit("Ab"), lit("C")]), &s, mode(l)) }
    h_exact_long(l) {
        let mut s = String::from("The quick brown ");
        s.push_str(&sym::ascii(size(l), ""));
        s.push_str(" jumps over the lazy dog");
        diff(&parser!("The quick brown fox jumps over the lazy dog"), &lit("The quick brown fox jumps over the lazy dog"), &s, mode(l))
    }
    // any text as the pattern, any text as the input
    h_exact_sym(l) {
        let p = sym::ascii_upto(size(l), "abc");
        let s = sym::ascii_upto(size(l) + 1, "");
        let q: &str = &p;
        diff(&parser!(q string(any_char*)), &seq(vec![lit(q), tail()]), &s, r::Cmp::Accept)
    }
    h_exact_symchar(l) {
        let c = sym::byte();
        sym::assume(c >= 0x20 && c < 0x7f);
        let c = c as char;
        let mut b = [0u8; 4];
        let p = c.encode_utf8(&mut b).to_string();
        let s = utf8_upto(l);
        diff(&parser!(c string(any_char*)), &seq(vec![lit(&p), tail()]), &s, r::Cmp::Accept)
    }
    // ---- captured text
    h_string_any(l) { let s = utf8_upto(l); diff(&parser!(string(any_char*)), &tail(), &s, mode(l)) }
    h_string_mid(l) { let s = sym::ascii_upto(size(l), ""); diff(&parser!(any_char string(any_char any_char) string(any_char*)), &seq(vec![r::any(), r::string(seq(vec![r::any(), r::any()])), tail()]), &s, mode(l)) }
    h_string_bt(l) { let s = sym::ascii_upto(size(l), "ab,"); diff(&parser!(string(alpha+) alpha "," string({"a", "ab"}) "b"), &seq(vec![r::string(r::plus(r::alpha())), r::alpha(), lit(","), r::string(G::Alt(vec![lit("a"), lit("ab")])), lit("b")]), &s, mode(l)) }
    h_string_sep(l) { let s = sym::ascii_upto(size(l), "ab,"); diff(&parser!(string(repeat_sep(alpha+, ",")) ","?), &seq(vec![r::string(r::sep(r::plus(r::alpha()), lit(","))), r::opt(lit(","))]), &s, mode(l)) }
    h_string_map(l) { let s = sym::ascii_upto(size(l), "ab1"); u8.parse("7").ok(); diff(&parser!(string(alpha n:u8 => n) string("a"?)), &seq(vec![r::string(seq(vec![r::alpha(), r::gu8()])), r::string(r::opt(lit("a")))]), &s, mode(l)) }
    h_string_empty(l) { let s = sym::ascii_upto(size(l), "ab"); diff(&parser!(string("") string("a"*) string("b"?)), &seq(vec![r::string(lit("")), r::string(r::star(lit("a"))), r::string(r::opt(lit("b")))]), &s, mode(l)) }
    h_string_line(l) { let s = sym::ascii_upto(size(l), "ab\n"); diff(&parser!(string(line("a"*)) lines(string("b"*))), &seq(vec![r::string(r::line(r::star(lit("a")))), r::lines(r::string(r::star(lit("b"))))]), &s, mode(l)) }
    h_string_in_line(l) { let s = sym::ascii_upto(size(l), ""); diff(&parser!(lines(string(any_char) string(any_char*))), &r::lines(seq(vec![r::string(r::any()), tail()])), &s, mode(l)) }
    h_string_nested(l) { let s = utf8_upto(l); diff(&parser!(string(any_char string(any_char*))), &r::string(seq(vec![r::any(), tail()])), &s, mode(l)) }
}
#[allow(unused)]
fn unused() { sym::reach(0); dynlex("", 0); }
