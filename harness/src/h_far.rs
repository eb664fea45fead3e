//! Long inputs: mostly fixed text of a given length with symbolic characters at
//! its start, in its middle and at its end, and direct expectations.
use crate::sym;
use aoc_parse::{parser, prelude::*, ParseContext, ParseError, ParseIter, Parser, Reported};
use std::cell::Cell;

/// `n` units, three of them (first, middle, last) replaced by what `f` makes
fn text(n: usize, unit: &str, mut f: impl FnMut() -> String) -> String {
    let mut s = String::new();
    for i in 0..n { if i == 0 || i == n / 2 || i + 1 == n { s.push_str(&f()) } else { s.push_str(unit) } }
    s
}
fn one(alphabet: &str) -> String { sym::ascii(1, alphabet) }
fn place(s: &str, at: usize) -> String {
    if at == s.len() { return " at end of input".into(); }
    let b = s.as_bytes();
    let (mut line, mut col) = (1, 1);
    let mut i = 0;
    while i < at {
        if b[i] == b'\n' { line += 1; col = 1; } else { if b[i] & 0xC0 != 0x80 { col += 1; } }
        i += 1;
    }
    format!(" at line {line} column {col}")
}
fn fails_at<T>(r: Result<T, ParseError>, s: &str, at: usize) {
    match r {
        Ok(_) => sym::fail("parse() accepted an input that the pattern does not match as a whole"),
        Err(e) => {
            sym::reach(2);
            sym::observe(e.location as u64);
            sym::check(e.location == at, "error location is not the furthest position at which matching failed");
            sym::check(e.source.as_bytes() == s.as_bytes(), "error source is not the full input");
            sym::check(e.to_string().ends_with(place(s, at).as_str()), "the displayed place is not the line and column of the error location");
        }
    }
}
fn succeeds<T>(r: Result<T, ParseError>) -> T {
    match r { Ok(v) => { sym::reach(1); v } Err(_) => { sym::fail("parse() rejected an input that the pattern matches as a whole"); unreachable!() } }
}
fn find(s: &str, c: u8) -> Option<usize> { let b = s.as_bytes(); let mut i = 0; while i < b.len() { if b[i] == c { return Some(i) } i += 1; } None }
fn ok(c: bool) { sym::check(c, "parse() succeeded with a value other than that of the most preferred whole match") }

// ---- how deep the native stack is when user-written parsers are called
struct Meter { base: Cell<usize>, max: Cell<usize>, calls: Cell<usize> }
#[inline(never)]
fn here() -> usize { let x = 0u8; std::hint::black_box(&x) as *const u8 as usize }
impl Meter {
    fn touch(&self) { let d = here().abs_diff(self.base.get()); if d > self.max.get() { self.max.set(d) } self.calls.set(self.calls.get() + 1); }
}
/// one letter `a`
#[derive(Clone, Copy)]
struct Probe<'m>(&'m Meter);
struct ProbeIter<'m>(&'m Meter, usize);
impl<'m> Drop for ProbeIter<'m> { fn drop(&mut self) { self.0.touch() } }
impl<'m> Parser for Probe<'m> {
    type Output = Value<'m>;
    type RawOutput = (Value<'m>,);
    type Iter<'parse> = ProbeIter<'m> where Self: 'parse;
    fn parse_iter<'parse>(&'parse self, c: &mut ParseContext<'parse>, start: usize) -> Result<ProbeIter<'m>, Reported> {
        self.0.touch();
        if c.source().as_bytes().get(start) == Some(&b'a') { Ok(ProbeIter(self.0, start + 1)) } else { Err(c.error_expected(start, "a")) }
    }
}
impl<'p, 'm> ParseIter<'p> for ProbeIter<'m> {
    type RawOutput = (Value<'m>,);
    fn match_end(&self) -> usize { self.0.touch(); self.1 }
    fn backtrack(&mut self, _c: &mut ParseContext<'p>) -> Result<(), Reported> { self.0.touch(); Err(Reported) }
    fn convert(&self) -> (Value<'m>,) { self.0.touch(); (Value(self.0),) }
}
struct Value<'m>(&'m Meter);
impl<'m> Drop for Value<'m> { fn drop(&mut self) { self.0.touch() } }
#[inline(never)]
fn measure<P: Parser>(m: &Meter, p: &P, s: &str) -> (bool, usize) {
    m.max.set(0);
    m.calls.set(0);
    m.base.set(here());
    let ok = p.parse(s).is_ok();
    (ok, m.max.get())
}
fn shallow<P: Parser>(m: &Meter, p: &P, n: usize, unit: &str, alphabet: &str) {
    // two short texts, one that matches and one that does not, fix what is normal
    let bad = format!("{unit}x{unit}");
    let (_, d0) = measure(m, p, &unit.repeat(3));
    let (_, d1) = measure(m, p, &bad);
    let mut s = String::new();
    for i in 0..n { if i == 0 || i == n / 2 || i + 1 == n { s.push_str(&one(alphabet)); s.push_str(&unit[1..]); } else { s.push_str(unit) } }
    let (ok, d) = measure(m, p, &s);
    sym::reach(if ok { 1 } else { 2 });
    sym::check(m.calls.get() > 0 && d <= d0.max(d1) + 2500, "the depth of the stack while parsing grows with the length of the input");
}
macro_rules! meter { ($l:ident $m:ident $a:ident) => { let $m = Meter { base: Cell::new(0), max: Cell::new(0), calls: Cell::new(0) }; let $a = Probe(&$m); } }

/// matches nothing and gives a number
struct Give(usize);
struct Given(usize, usize);
impl Parser for Give {
    type Output = usize;
    type RawOutput = (usize,);
    type Iter<'parse> = Given where Self: 'parse;
    fn parse_iter<'parse>(&'parse self, _c: &mut ParseContext<'parse>, start: usize) -> Result<Given, Reported> { Ok(Given(start, self.0)) }
}
impl<'p> ParseIter<'p> for Given {
    type RawOutput = (usize,);
    fn match_end(&self) -> usize { self.0 }
    fn backtrack(&mut self, _c: &mut ParseContext<'p>) -> Result<(), Reported> { Err(Reported) }
    fn convert(&self) -> (usize,) { (self.1,) }
}
/// one of several parsers of one type
struct Pick<P> { of: Vec<P>, i: std::rc::Rc<Cell<usize>> }
impl<P: Parser> Parser for Pick<P> {
    type Output = P::Output;
    type RawOutput = P::RawOutput;
    type Iter<'parse> = P::Iter<'parse> where P: 'parse;
    fn parse_iter<'parse>(&'parse self, c: &mut ParseContext<'parse>, start: usize) -> Result<P::Iter<'parse>, Reported> { self.of[self.i.get()].parse_iter(c, start) }
}
harness! {
    h_stack_star(l) { meter!(l m a); shallow(&m, &parser!(a*), l as usize, "a", "ab") }
    h_stack_plus(l) { meter!(l m a); shallow(&m, &parser!(a+ "b"?), l as usize, "a", "ab") }
    h_stack_back(l) { meter!(l m a); shallow(&m, &parser!(a* a a a), l as usize, "a", "ab") }
    h_stack_allback(l) { meter!(l m a); shallow(&m, &parser!({ (a* "b" "b") => 1, (a+) => 2 }), l as usize, "a", "ab") }
    h_stack_alt(l) { meter!(l m a); shallow(&m, &parser!({ "b" => 1, a => 2, "c" => 3 }*), l as usize, "a", "abx") }
    h_stack_opt(l) { meter!(l m a); shallow(&m, &parser!((a ","?)*), l as usize, "a", "ab") }
    h_stack_sep(l) { meter!(l m a); shallow(&m, &parser!(repeat_sep(a, ",") ","), l as usize, "a,", "ab") }
    h_stack_sepsub(l) { meter!(l m a); shallow(&m, &parser!(repeat_sep("b", a) a), l as usize, "ba", "ba") }
    h_stack_lines(l) { meter!(l m a); shallow(&m, &parser!(lines(a*)), l as usize, "aa\n", "ab\n") }
    h_stack_sections(l) { meter!(l m a); shallow(&m, &parser!(sections(lines(a))), l as usize, "a\n\n", "ab") }
    h_stack_string(l) { meter!(l m a); shallow(&m, &parser!(string(a*)), l as usize, "a", "ab") }
    h_stack_map(l) { meter!(l m a); shallow(&m, &parser!(v:(x:a => x)* => v.len()), l as usize, "a", "ab") }
    h_stack_group(l) { meter!(l m a); shallow(&m, &parser!((a "," a)* a?), l as usize, "a,a", "ab") }
    h_stack_collect(l) { meter!(l m a); shallow(&m, &parser!(vec_deque(a*)), l as usize, "a", "ab") }
    h_stack_rule(l) { meter!(l m a); let a: Probe<'static> = unsafe { std::mem::transmute(a) }; shallow(&m, &parser!(rule t: Value<'static> = a; rule row: Vec<Value<'static>> = line(t+); row*), l as usize, "a\n", "ab") }
    h_stack_regions(l) { meter!(l m a); shallow(&m, &parser!({ line(a a) => 1, line("b") => 2, line(a) => 3 }+), l as usize, "a\n", "ab") }
    h_stack_nested(l) { meter!(l m a); shallow(&m, &parser!(((a*)? ",")*), l as usize, "a,", "ab") }
    // long inputs
    h_far_star(l) {
        let s = text(l as usize, "a", || one("abx"));
        let p = parser!(char_of("ab")*);
        match find(&s, b'x') {
            None => { let v = succeeds(p.parse(&s)); let mut same = v.len() == s.len(); for (x, c) in v.iter().zip(s.bytes()) { same &= *x as u8 == c - b'a'; } ok(same) }
            Some(i) => fails_at(p.parse(&s), &s, i),
        }
    }
    // the repetition has to give back everything after the symbolic position
    h_far_back(l) {
        let n = l as usize;
        let s = text(n, "a", || one("ab"));
        let p = parser!(h:string({"a", "b"}*) "b" t:string("a"*) => (h, t));
        match (0..n).rev().find(|&i| s.as_bytes()[i] == b'b') {
            Some(i) => { let (h, t) = succeeds(p.parse(&s)); ok(h.len() == i && t.len() == n - i - 1) }
            None => fails_at(p.parse(&s), &s, n),
        }
    }
    h_far_plus(l) {
        let n = l as usize;
        let s = text(n, "a", || one("ab"));
        let v = succeeds(parser!(alpha+).parse(&s));
        ok(v.len() == n && v[0] == s.as_bytes()[0] as char && v[n - 1] == s.as_bytes()[n - 1] as char && v[n / 2] == s.as_bytes()[n / 2] as char);
    }
    h_far_sep(l) {
        let n = l as usize;
        let mut s = text(n, "17,", || format!("{},", one("12x")));
        s.pop();
        let p = parser!(repeat_sep(u16, ","));
        match find(&s, b'x') {
            None => {
                let v = succeeds(p.parse(&s));
                let mut same = v.len() == n;
                for (i, x) in v.iter().enumerate() { same &= if i == 0 { *x as u8 == s.as_bytes()[0] - b'0' } else if i == n / 2 || i + 1 == n { *x == 1 || *x == 2 } else { *x == 17 }; }
                ok(same)
            }
            Some(i) => fails_at(p.parse(&s), &s, i),
        }
    }
    h_far_lines(l) {
        let n = l as usize;
        let s = text(n, "12\n", || format!("3{}\n", one("4\nx")));
        let p = parser!(lines(u32));
        // 3x: line 1.., 3 and an empty line
        let b = s.as_bytes();
        let mut at = None;
        let mut count = 0;
        let mut i = 0;
        while i < b.len() && at.is_none() {
            if b[i] == b'\n' { at = Some(i) } else if b[i + 1] == b'x' { at = Some(i + 1) } else { while b[i] != b'\n' { i += 1 } i += 1; count += 1; }
        }
        match at { None => { let v = succeeds(p.parse(&s)); ok(v.len() == count && v.len() == n) } Some(i) => fails_at(p.parse(&s), &s, i) }
    }
    h_far_sections(l) {
        let n = l as usize;
        let mut s = text(n, "a\nb\n\n", || format!("c{}d\n\n", one("e\n")));
        s.pop();
        let v = succeeds(parser!(sections(lines(string(any_char+)))).parse(&s));
        let mut same = v.len() == n;
        for (i, x) in v.iter().enumerate() {
            if i == 0 || i == n / 2 || i + 1 == n { same &= (x.len() == 2 && x[0] == "c" && x[1] == "d") || (x.len() == 1 && x[0] == "ced") } else { same &= x.len() == 2 && x[0] == "a" && x[1] == "b" }
        }
        ok(same)
    }
    // errors deep in long inputs
    h_far_errline(l) {
        let n = l as usize;
        let s = format!("{}é{}\n{}", "12\n".repeat(n), one("1x"), "34\n".repeat(3));
        fails_at(parser!(lines(u32)).parse(&s), &s, n * 3)
    }
    h_far_errcol(l) {
        let n = l as usize;
        let s = format!("zz\n{}{}{}", "éa".repeat(n), one("x\n"), "yy");
        fails_at(parser!(line("zz") lines({"é", "a"}*)).parse(&s), &s, if s.as_bytes()[3 + 3 * n] == b'x' { 3 + 3 * n } else { 3 + 3 * n + 1 })
    }
    h_far_errsection(l) {
        let n = l as usize;
        let s = format!("{}12\n{}\n34\n\n7\n", "12\n34\n\n".repeat(n), one("1x"));
        match find(&s, b'x') { Some(i) => fails_at(parser!(sections(lines(u32))).parse(&s), &s, i), None => ok(succeeds(parser!(sections(lines(u32))).parse(&s)).len() == n + 2) }
    }
    h_far_display(l) {
        let n = l as usize;
        let s = format!("{}{}é{}{}", "ab\n".repeat(n), "x".repeat(n), one("\nx"), "y".repeat(n));
        let at = [0, 3 * n - 1, 3 * n, 4 * n, 4 * n + 2, 4 * n + 3, 5 * n + 2, 5 * n + 3][sym::choose(8) as usize];
        let mut c = ParseContext::new(&s);
        c.error_extra(at);
        let e = c.into_reported_error();
        sym::reach(2);
        sym::check(e.location == at, "a reported error is not at the reported location");
        sym::check(e.to_string() == format!("extra unparsed text after match{}", place(&s, at)), "the displayed place is not the line and column of the error location");
    }
    h_far_report(l) {
        let n = l as usize;
        let s = "q".repeat(n);
        let mut c = ParseContext::new(&s);
        let k = sym::choose(3) as usize;
        for i in 0..n { c.error_extra(match k { 0 => i, 1 => n - i, _ => (i * 7) % n }); }
        let e = c.into_reported_error();
        sym::reach(2);
        sym::check(e.location == if k == 1 { n } else { n - 1 }, "the error is not the one at the furthest reported location");
    }
    // numbers with many digits
    h_far_zeros(l) {
        let n = l as usize;
        let s = format!("{}{}{}", "0".repeat(n), one("0123456789"), one("05x"));
        let d = (s.as_bytes()[n] - b'0') as u64;
        if s.as_bytes()[n + 1] == b'x' { fails_at(u64.parse(&s), &s, n + 1) }
        else {
            let w = d * 10 + (s.as_bytes()[n + 1] - b'0') as u64;
            ok(succeeds(u64.parse(&s)) == w && succeeds(i8.parse(&s)) as u64 == w && succeeds(i128.parse(&s)) as u64 == w && succeeds(big_uint.parse(&s)) == num_bigint::BigUint::from(w));
            if d < 2 && w % 10 < 2 { ok(succeeds(u64_bin.parse(&s)) == d * 2 + w % 10 && succeeds(i32_bin.parse(&s)) as u64 == d * 2 + w % 10) }
            ok(succeeds(u16_hex.parse(&s)) as u64 == d * 16 + w % 10 && succeeds(i64_hex.parse(&s)) as u64 == d * 16 + w % 10);
        }
    }
    h_far_toobig(l) {
        let n = l as usize;
        let s = format!("{}{}", one("+-"), "1".repeat(n)) + &one("12");
        match i64.parse(&s) { Ok(_) => sym::fail("an integer the type cannot hold was accepted"), Err(e) => { sym::reach(2); sym::check(e.location == 0, "error location is not the furthest position at which matching failed") } }
        match u128_hex.parse(&s[1..]) { Ok(_) => sym::fail("an integer the type cannot hold was accepted"), Err(e) => sym::check(e.location == 0, "error location is not the furthest position at which matching failed") }
    }
    h_far_big(l) {
        // 10^n + d, checked through its factors
        let n = l as usize;
        let s = format!("1{}{}", "0".repeat(n - 1), one("0123456789"));
        let d = (s.as_bytes()[n] - b'0') as u32;
        let d = sym::concrete(d as u64) as u32;
        let mut w = num_bigint::BigUint::from(1u32);
        for _ in 0..n { w *= 10u32; }
        w += d;
        ok(succeeds(big_uint.parse(&s)) == w);
        ok(succeeds(big_int.parse(&s)) == num_bigint::BigInt::from(w));
        let mut h = num_bigint::BigUint::from(1u32);
        for _ in 0..n { h *= 16u32; }
        h += d;
        ok(succeeds(big_uint_hex.parse(&s)) == h);
        ok(succeeds(big_int_hex.parse(&s)) == num_bigint::BigInt::from(h));
    }
    h_far_fraction(l) {
        let n = l as usize;
        let s = format!("{}.{}{}", one("12"), "3".repeat(n), one("4e"));
        let r = f64.parse(&s);
        if s.as_bytes()[n + 2] == b'e' { match r { Ok(_) => sym::fail("parse() accepted an input that the pattern does not match as a whole"), Err(_) => sym::reach(2) } }
        else { let v = succeeds(r); ok(v.to_bits() == s.parse::<core::primitive::f64>().unwrap().to_bits()) }
    }
    // long exact texts and captures
    h_far_exact(l) {
        let n = l as usize;
        let lit = "abc€".repeat(n);
        let mut s = "abc€".repeat(n).into_bytes();
        let i = [0, n / 2 * 6 + 1, 6 * n - 4, 6 * n - 6][sym::choose(4) as usize];
        let b = sym::byte();
        sym::assume(b < 128);
        let want = s[i] == b;
        s[i] = b;
        let s = unsafe { String::from_utf8_unchecked(s) };
        let p = lit.as_str();
        let r = parser!(p any_char?).parse(&s);
        if want { succeeds(r); } else { fails_at(r, &s, 0) }
    }
    h_far_string(l) {
        let n = l as usize;
        let s = text(n, "é", || one("az"));
        let v = succeeds(parser!(string(any_char*)).parse(&s));
        ok(v.as_bytes() == s.as_bytes());
        let v = succeeds(parser!(string(any_char+) any_char any_char).parse(&s));
        ok(v.0.len() + v.1.len_utf8() + v.2.len_utf8() == s.len() && s.starts_with(v.0.as_str()));
    }
    h_far_classes(l) {
        let n = l as usize;
        let s = text(n, "é", || one("a9_"));
        let p = parser!(string(alnum+));
        match find(&s, b'_') { None => ok(succeeds(p.parse(&s)).len() == s.len()), Some(i) => fails_at(p.parse(&s), &s, i) }
    }
    // many alternatives, options, rules
    h_far_options(l) {
        let n = l as usize;
        const OPT: &str = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ!#$%&()*+,-./:;<=>?@[]^_`{|}~ éèêëàâäùûüôöîïçñ";
        let s = format!("{}{}", OPT.chars().take(n).collect::<String>(), one("0Z~ \n"));
        let last = s.as_bytes()[s.len() - 1];
        let p = parser!(char_of(OPT)*);
        let r = p.parse(&s);
        if last == b'\n' { fails_at(r, &s, s.len() - 1) }
        else {
            let v = succeeds(r);
            let mut same = v.len() == n + 1;
            for i in 0..n { same &= v[i] == i; }
            let w = match last { b'0' => 0, b'Z' => 61, b'~' => OPT.find('~').unwrap(), _ => OPT.find(' ').unwrap() };
            ok(same && v[n] == w)
        }
    }
    h_far_nested(l) {
        let n = l as usize;
        let s = format!("{}{}{}", "(".repeat(n), one("x)("), ")".repeat(n));
        let p = parser!(rule t: u32 = { "x" => 0u32, "(" d:t ")" => d + 1, "()" => 1u32 }; t);
        let r = p.parse(&s);
        match s.as_bytes()[n] {
            b'x' => ok(succeeds(r) == l),
            b')' => fails_at(r, &s, if n == 0 { 0 } else { 2 * n }),
            _ => fails_at(r, &s, 2 * n + 1),
        }
    }
    // one of many rule sets inside another one, whose rules are used after it
    h_far_sets(l) {
        let n = l as usize;
        let make = |k: usize| parser!(rule x: usize = "(" k:(Give(k)) y:z => y + k; rule z: usize = { "a" => 1, "b" => 2 }; x);
        let i = std::rc::Rc::new(Cell::new(0));
        let many = Pick { of: (0..n).map(|k| make(10 * k)).collect(), i: i.clone() };
        let p = parser!(rule x: usize = a:z b:many c:z => a * 10000000 + b * 10 + c; rule z: usize = { "a" => 3, "b" => 4 }; x);
        let s = format!("{}({}{}", one("ab"), one("abx"), one("ab"));
        let b = s.as_bytes();
        let t = |c: u8| if c == b'a' { 3 } else { 4 };
        let mut same = true;
        if b[2] == b'x' { fails_at(p.parse(&s), &s, 2) } else {
            let want = t(b[0]) * 10000000 + (t(b[2]) - 2) * 10 + t(b[3]);
            for k in 0..n { i.set(k); same &= succeeds(p.parse(&s)) == want + 100 * k; }
            ok(same)
        }
    }
    h_far_rulelines(l) {
        let n = l as usize;
        let s = text(n, "7\n", || format!("{}\n", one("5x")));
        let p = parser!(rule num: u32 = u32; rule row: u32 = line(num); row+);
        match find(&s, b'x') { None => ok(succeeds(p.parse(&s)).len() == n), Some(i) => fails_at(p.parse(&s), &s, i) }
    }
    h_far_collect(l) {
        let n = l as usize;
        let s = text(n, "b", || if sym::flip() { "a".into() } else { "b".into() });
        let v = succeeds(parser!(vec_deque(alpha*)).parse(&s));
        ok(v.len() == n && v[0] == s.as_bytes()[0] as char && v[n - 1] == s.as_bytes()[n - 1] as char);
        let has_a = s.bytes().any(|c| c == b'a');
        let b = succeeds(parser!(btree_set(alpha*)).parse(&s));
        ok(b.len() == if has_a { 2 } else { 1 } && b.contains(&'a') == has_a && b.contains(&'b'));
        let h = succeeds(parser!(hash_set(alpha*)).parse(&s));
        ok(h.len() == if has_a { 2 } else { 1 } && h.contains(&'a') == has_a && h.contains(&'b'));
    }
    h_far_keys(l) {
        // n different keys, one of them repeated with a symbolic value
        let n = l as usize;
        let mut s = String::new();
        for i in 0..n { s.push_str(&format!("{i}={i},")); }
        let v = one("123456789");
        s.push_str(&format!("{}={v}", n / 2));
        let x = (v.as_bytes()[0] - b'0') as usize;
        let m = succeeds(parser!(btree_map(repeat_sep(a:usize "=" b:usize => (a, b), ","))).parse(&s));
        let mut same = m.len() == n;
        for i in 0..n { same &= m.get(&i) == Some(&if i == n / 2 { x } else { i }); }
        let m = succeeds(parser!(hash_map(repeat_sep(a:usize "=" b:usize => (a, b), ","))).parse(&s));
        same &= m.len() == n;
        for i in 0..n { same &= m.get(&i) == Some(&if i == n / 2 { x } else { i }); }
        ok(same)
    }
    // conversions and order of values over long results
    h_far_ran(l) {
        let n = l as usize;
        let s = text(n, "a", || one("ab"));
        let ran = Cell::new(0usize);
        let v = succeeds(parser!((c:alpha => { ran.set(ran.get() + 1); c })+ "b"?).parse(&s));
        ok(v.0.len() == n && v.1.is_none());
        sym::check(ran.get() == n, "a conversion ran for something that is not part of the result, or not once for something that is");
    }
    h_far_append(l) {
        let n = l as usize;
        let mut s = text(n, "ab\n", || format!("a{}\n", one("b\n")));
        if sym::flip() { s.pop(); }
        let r: Result<Vec<String>, ParseError> = aoc_parse(&s, parser!(lines(string(any_char*))));
        let mut t = s.clone();
        if !t.ends_with('\n') { t.push('\n'); }
        let want = t.bytes().filter(|c| *c == b'\n').count();
        ok(succeeds(r).len() == want)
    }
    h_far_again(l) {
        let n = l as usize;
        let s = text(n, "a", || one("ab"));
        let p = parser!(repeat_sep({"a", "b"}, "") "b"?);
        let q = parser!(lines(string(alpha*)));
        let mut got = vec![];
        for i in 0..3 { got.push(p.parse(&s).is_ok()); let _ = q.parse(&s[i.min(s.len())..]); let _ = p.parse("x"); }
        sym::reach(1);
        sym::check(got.iter().all(|x| *x), "the same text gave another result when parsed again");
    }
}
