//! Whole-library behaviour: aoc_parse(), parser reuse, custom sub-parsers, totality.
use crate::flat::*;
use crate::refm::{self as r, alts, diff, mode, size, Cmp, Sub, SubIter, Table, G};
use crate::sym;
use aoc_parse::{parser, prelude::*, ParseContext, ParseError, ParseIter, Parser, Reported};
use std::cell::Cell;

fn g(t: &Table) -> G<'_> { G::Sub(t) }
fn seq<'a>(v: Vec<G<'a>>) -> G<'a> { G::Seq(v) }

// ---------------------------------------------------------------- aoc_parse()
fn aoc<P: Parser>(p: P, g: &G, s: &str, l: u32) where P::Output: Flat {
    let mut t = s.to_string();
    if t.as_bytes().last() != Some(&b'\n') { t.push('\n'); }
    let real: Result<P::Output, ParseError> = aoc_parse(s, p);
    let real = match real { Ok(v) => Ok(flat(&v)), Err(e) => Err(e) };
    r::compare(real, &r::Ref { rules: vec![] }, g, &t, mode(l));
}
fn anys<'a>() -> G<'a> { r::string(r::star(r::any())) }

// ---------------------------------------------------------------- what combinators may do to a sub-parser
/// An arbitrary sub-parser that objects to being driven against the protocol
/// of ParseIter: nothing after exhaustion, no matching once conversion began.
#[derive(Clone, Copy)]
struct Strict<'t> { sub: Sub<'t>, total: usize, log: &'t Log }
#[derive(Default)]
struct Log { converting: Cell<bool>, live: Cell<u64>, converted: Cell<u64> }
struct StrictIter<'t> { it: SubIter<'t>, dead: bool, len: usize, start: usize, log: &'t Log }
impl<'t> Drop for StrictIter<'t> { fn drop(&mut self) { self.log.live.set(self.log.live.get() - 1) } }
impl<'t> Parser for Strict<'t> {
    type Output = u64;
    type RawOutput = (u64,);
    type Iter<'parse> = StrictIter<'t> where Self: 'parse;
    fn parse_iter<'parse>(&'parse self, c: &mut ParseContext<'parse>, start: usize) -> Result<StrictIter<'t>, Reported> {
        sym::check(!self.log.converting.get(), "matching went on after conversion had begun");
        sym::check(start <= c.source().len(), "a sub-parser was started outside its source text");
        sym::check(c.source().len() <= self.total, "a sub-parser was given more text than there is");
        if start > c.source().len() { sym::fail("a sub-parser was started outside its source text") }
        let it = unsafe { std::mem::transmute::<&'parse Sub<'t>, &'t Sub<'t>>(&self.sub) };
        let mut c2: ParseContext<'t> = ParseContext::new(unsafe { std::mem::transmute::<&'parse str, &'t str>(c.source()) });
        match it.parse_iter(&mut c2, start) {
            Ok(i) => { self.log.live.set(self.log.live.get() + 1); Ok(StrictIter { it: i, dead: false, len: c.source().len(), start, log: self.log }) }
            Err(Reported) => Err(c.report(c2.into_reported_error())),
        }
    }
}
impl<'p, 't> ParseIter<'p> for StrictIter<'t> {
    type RawOutput = (u64,);
    fn match_end(&self) -> usize {
        sym::check(!self.dead, "a sub-parser's iterator was used after it was exhausted");
        let _ = (self.len, self.start);
        self.it.match_end()
    }
    fn backtrack(&mut self, _c: &mut ParseContext<'p>) -> Result<(), Reported> {
        sym::check(!self.dead, "a sub-parser's iterator was used after it was exhausted");
        sym::check(!self.log.converting.get(), "matching went on after conversion had begun");
        let mut c: ParseContext = ParseContext::new("");
        match self.it.backtrack(&mut c) { Ok(()) => Ok(()), Err(Reported) => { self.dead = true; Err(Reported) } }
    }
    fn convert(&self) -> (u64,) {
        sym::check(!self.dead, "a sub-parser's iterator was used after it was exhausted");
        self.log.converting.set(true);
        self.log.converted.set(self.log.converted.get() + 1);
        self.it.convert()
    }
}
macro_rules! strict {
    ($l:ident $log:ident $s:ident $alpha:literal ; $($a:ident)*) => {
        let text = sym::ascii(size($l), $alpha);
        let $s: &str = &text;
        let k = alts($l);
        let $log = Log::default();
        let t = [Table::new(0, $s, k), Table::new(1, $s, k), Table::new(2, $s, k), Table::new(3, $s, k)];
        let mut it = t.iter();
        $( let $a = Strict { sub: it.next().unwrap().sub(), total: $s.len(), log: &$log }; )*
        let _ = &mut it;
    };
}
/// parse; then no iterator may be left behind, and a failed parse converts nothing
fn drive<P: Parser>(p: &P, s: &str, log: &Log) where P::Output: Flat {
    match p.parse(s) {
        Ok(v) => { sym::reach(1); let _ = flat(&v); }
        Err(_) => { sym::reach(2); sym::check(log.converted.get() == 0, "values were converted although the whole pattern did not match"); }
    }
    sym::check(log.live.get() == 0, "a sub-parser's iterator outlived the parse");
}

// ---------------------------------------------------------------- reuse
fn outcome<P: Parser>(p: &P, s: &str) -> Vec<u64> where P::Output: Flat {
    match p.parse(s) { Ok(v) => { let mut o = vec![1]; v.flat(&mut o); o } Err(e) => { let mut o = vec![2, e.location as u64]; for b in e.to_string().bytes() { o.push(b as u64) } for b in e.source.bytes() { o.push(b as u64) } o } }
}
fn again<P: Parser>(p: &P, s: &str, t: &str) where P::Output: Flat {
    let a = outcome(p, s);
    sym::reach(a[0]);
    let _ = p.parse(t);
    let b = outcome(p, s);
    sym::check(r::eq_tokens(&a, &b), "parsing the same text twice gives different results");
    let c = outcome(&p, s);
    sym::check(r::eq_tokens(&a, &c), "parsing through a reference gives a different result");
}
/// no panic, no hang; an error is about this input
fn total<P: Parser>(p: &P, s: &str) {
    match p.parse(s) {
        Ok(_) => sym::reach(1),
        Err(e) => {
            sym::reach(2);
            sym::check(e.location <= s.len() && s.is_char_boundary(e.location), "an error is located outside the input or inside a character");
            let m = e.to_string();
            sym::check(!m.is_empty(), "an error displays as nothing");
        }
    }
}

/// Two symbolic texts of the same length, one after the other in the same place in memory.
fn same_place<P: Parser>(p: &P, n: usize, alphabet: &str) where P::Output: Flat {
    let mut buf = sym::ascii(n, alphabet);
    let two = sym::ascii(n, alphabet);
    let want = outcome(p, &two);
    let _ = p.parse(&buf);
    unsafe { buf.as_bytes_mut() }.copy_from_slice(two.as_bytes());
    let got = outcome(p, &buf);
    sym::reach(got[0]);
    sym::check(r::eq_tokens(&got, &want), "a text gives another result after a different text was parsed in the same place");
    // a shorter text there
    let n = sym::choose(n as u64) as usize;
    let want = outcome(p, &two[..n].to_string());
    let got = outcome(p, &buf[..n]);
    sym::check(r::eq_tokens(&got, &want), "a text gives another result after a longer text was parsed in the same place");
}

harness! {
    // ---- aoc_parse
    h_aoc_lines(l) { aoc(parser!(lines(string(any_char*))), &r::lines(anys()), &sym::ascii_upto(size(l), ""), l) }
    h_aoc_any(l) { aoc(parser!(string(any_char*)), &anys(), &sym::utf8(size(l)), l) }
    h_aoc_seps(l) { aoc(parser!(repeat_sep(lines(digit+), "\n")), &r::sep(r::lines(r::plus(r::digit())), G::Lit("\n")), &sym::ascii_upto(size(l), "1\n"), l) }
    h_aoc_sections(l) { aoc(parser!(sections(lines(alpha))), &r::sections(r::lines(r::alpha())), &sym::ascii_upto(size(l), "a\n\r"), l) }
    h_aoc_line(l) { aoc(parser!(line(alpha+) line("")?), &seq(vec![r::line(r::plus(r::alpha())), r::opt(r::line(G::Lit("")))]), &sym::ascii_upto(size(l), "a\n\r "), l) }
    h_aoc_nonl(l) { aoc(parser!("a"* "\n"), &seq(vec![r::star(G::Lit("a")), G::Lit("\n")]), &sym::ascii_upto(size(l), "a\n"), l) }
    // ---- sub-parsers driven properly
    h_st_seq(l) { strict!(l log s "."; a b c); drive(&parser!(a b c), s, &log) }
    h_st_alt(l) { strict!(l log s "."; a b c); drive(&parser!({a, b} c), s, &log) }
    h_st_alt3(l) { strict!(l log s "."; a b c); drive(&parser!({a, b, c}), s, &log) }
    h_st_opt(l) { strict!(l log s "."; a b c); drive(&parser!(a? b? c), s, &log) }
    h_st_star(l) { strict!(l log s "."; a b); drive(&parser!(a* b), s, &log) }
    h_st_plus(l) { strict!(l log s "."; a b); drive(&parser!((a b)+), s, &log) }
    h_st_star_opt(l) { strict!(l log s "."; a b); drive(&parser!((a?)* b), s, &log) }
    h_st_sep(l) { strict!(l log s "."; a b); drive(&parser!(repeat_sep(a, b)), s, &log) }
    h_st_sep_seq(l) { strict!(l log s "."; a b c); drive(&parser!(repeat_sep(a, b) c), s, &log) }
    h_st_map(l) { strict!(l log s "."; a b); drive(&parser!((x:a y:b => x + y)* "."?), s, &log) }
    h_st_string(l) { strict!(l log s "."; a b); drive(&parser!(string(a b*) "."?), s, &log) }
    h_st_line(l) { strict!(l log s "x\n"; a b); drive(&parser!(line(a) line(b)?), s, &log) }
    h_st_lines(l) { strict!(l log s "x\n"; a b); drive(&parser!(lines(a b)), s, &log) }
    h_st_lines_seq(l) { strict!(l log s "x\n"; a b); drive(&parser!(lines(a) b), s, &log) }
    h_st_section(l) { strict!(l log s "x\n"; a b); drive(&parser!(section(a) section(b)?), s, &log) }
    h_st_sections(l) { strict!(l log s "x\n"; a); drive(&parser!(sections(lines(a))), s, &log) }
    h_st_coll(l) { strict!(l log s "."; a b); drive(&parser!(vec_deque(a*) b), s, &log) }
    // a custom sub-parser sees the text of its region, from wherever the region starts
    h_st_region_text(l) {
        let text = sym::ascii(size(l), "x\n");
        struct Seen;
        struct SeenIter(usize, Vec<u64>);
        impl Parser for Seen {
            type Output = Vec<u64>;
            type RawOutput = (Vec<u64>,);
            type Iter<'p> = SeenIter;
            fn parse_iter<'p>(&'p self, c: &mut ParseContext<'p>, start: usize) -> Result<SeenIter, Reported> {
                let mut v = vec![start as u64];
                for b in c.source().bytes() { v.push(b as u64) }
                Ok(SeenIter(c.source().len(), v))
            }
        }
        impl<'p> ParseIter<'p> for SeenIter {
            type RawOutput = (Vec<u64>,);
            fn match_end(&self) -> usize { self.0 }
            fn backtrack(&mut self, _: &mut ParseContext<'p>) -> Result<(), Reported> { Err(Reported) }
            fn convert(&self) -> (Vec<u64>,) { (self.1.clone(),) }
        }
        let p = Seen;
        diff(&parser!(lines(p)), &r::lines(seq(vec![r::tag(LIST, G::Empty), r::tag(0, G::Empty), r::star_flat(r::any()), r::tag(END, G::Empty)])), &text, mode(l));
    }
    // ---- a parser keeps no state
    h_again_lines(l) { again(&parser!(lines(string(alpha+) digit?)), &sym::ascii_upto(size(l), "a1\n"), "zz\n\n9x") }
    h_again_alt(l) { again(&parser!({"a" "b"* => 1u64, "ab" => 2} char_of("abc")*), &sym::ascii_upto(size(l), "abc"), "abbb!") }
    h_again_sections(l) { again(&parser!(sections(lines(upper+))), &sym::ascii_upto(size(l), "A\nb"), "A\n\nB\nC\n\n\n") }
    h_again_rules(l) { again(&parser!(rule e: u64 = {"(" v:e* ")" => v.into_iter().sum::<u64>() + 1, "x" => 0}; line(e) e?), &sym::ascii_upto(size(l), "(x)\n"), "((x)(x)))\nx") }
    h_again_num(l) { let _ = u8.parse("1"); again(&parser!(repeat_sep(u8, ",")), &sym::ascii_upto(size(l), "29,-"), "255,256,7") }
    // a second, symbolic, text between the two
    h_again_sym(l) { let s = sym::ascii_upto(size(l), "a\n"); let t = sym::ascii_upto(size(l), "a1\n"); again(&parser!(lines(alpha*) section(lines("1"+))?), &s, &t) }
    h_again_clone(l) {
        let s = sym::ascii_upto(size(l), "ab,");
        let p = parser!(repeat_sep(string(alpha+), ",") ","?);
        let q = p.clone();
        let a = outcome(&p, &s);
        sym::reach(a[0]);
        drop(p);
        sym::check(r::eq_tokens(&a, &outcome(&q, &s)), "a clone of a parser gives a different result");
    }
    // a parser used again while its own conversion runs
    h_again_inner(l) {
        let s = sym::ascii_upto(size(l), "a;b");
        let part = parser!(repeat_sep(alpha, ";"));
        let pr = &part;
        let p = parser!(x:string(any_char*) => outcome(pr, &x));
        let a = outcome(&part, &s);
        let b = p.parse(&s);
        sym::reach(a[0]);
        sym::check(match b { Ok(v) => r::eq_tokens(&a, &v), Err(_) => false }, "a parser used inside a conversion gives a different result");
    }
    // the same sub-pattern in two places of one pattern
    h_again_shared(l) {
        let s = sym::ascii_upto(size(l), "ab,");
        let q = parser!(string(alpha*));
        let q = &q;
        diff(&parser!(q "," q), &seq(vec![r::string(r::star(r::alpha())), G::Lit(","), r::string(r::star(r::alpha()))]), &s, mode(l))
    }
    h_again_buf_num(l) { let _ = u8.parse("1"); same_place(&parser!({u8} ("," u8)?), size(l), "2,x") }
    h_again_buf_lines(l) { same_place(&parser!(lines(string(alpha+) digit?)), size(l), "a1\n") }
    h_again_buf_sections(l) { same_place(&parser!(sections(lines("b"?))), size(l), "b\na") }
    h_again_buf_alt(l) { same_place(&parser!(xs:{"a" => 1u64, "ab" => 2, c:char_of("bc") => c as u64}* => xs), size(l), "abc") }
    h_again_buf_rules(l) { same_place(&parser!(rule e: u64 = {"(" v:e* ")" => v.into_iter().sum::<u64>() + 1, "x" => 0}; e+), size(l), "(x)") }
    h_again_buf_sub(l) { same_place(&parser!(repeat_sep(alpha? digit_bin, " ") any_char?), size(l), "a1 ") }
    h_again_buf_lit(l) { same_place(&parser!({"ab" => 1u64, 'b' => 2, x:string(upper*) => x.len() as u64} lower*), size(l), "abX") }
    h_again_buf_coll(l) { same_place(&parser!(x:btree_set(alnum+) => x.into_iter().collect::<Vec<char>>()), size(l), "a1") }
    // ---- no input makes a parser panic or run forever
    h_tot_line(l) { total(&parser!(line(string(alpha+) ": " any_char) lines(digit*)), &sym::utf8(size(l))) }
    h_tot_sections(l) { total(&parser!(sections(lines(repeat_sep(string(alnum+), " ")))), &sym::utf8(size(l))) }
    h_tot_any(l) { total(&parser!(any_char any_char* upper? lower?), &sym::utf8(size(l))) }
    h_tot_chars(l) { total(&parser!((char_of("aé€😂") digit_hex? "é"?)*), &sym::utf8(size(l))) }
    h_tot_nums(l) { let _ = (i64.parse("1"), u8_hex.parse("1")); total(&parser!(lines(i64 "," u8_hex)), &sym::utf8(size(l))) }
    h_tot_float(l) { let _ = f64.parse("1"); total(&parser!(f64? any_char*), &sym::ascii_upto(size(l), "0.eE+-x\n")) }
    h_tot_bool(l) { let _ = bool.parse("true"); total(&parser!(line(bool) string(any_char)?), &sym::utf8(size(l))) }
    h_tot_mixed(l) { total(&parser!(section(line("é" any_char*) lines({"a" => 1u32, c:alpha => c as u32}+)) section(string(any_char*))?), &sym::utf8(size(l))) }
    h_tot_rules(l) { total(&parser!(rule e: Vec<char> = {"(" v:e* ")" => v.concat(), c:any_char => vec![c]}; lines(e)), &sym::utf8(size(l))) }
    h_tot_empty(l) { total(&parser!((""* alpha*)* ("b"?)+ (""?)* line("")* (lines("a"*) "c"?)*), &sym::ascii_upto(size(l), "abc\n")) }
    h_tot_emptysep(l) { total(&parser!(repeat_sep("a"?, "") repeat_sep("", "b"?) repeat_sep(section("")?, line("")?)), &sym::ascii_upto(size(l), "ab\n")) }
    h_tot_debug(l) {
        let s = sym::ascii_upto(size(l), "");
        match parser!(lines("a" digit?) section(digit+)).parse(&s) { Ok(_) => sym::reach(1), Err(e) => { sym::reach(2); let m = format!("{e:?}"); sym::check(!m.is_empty(), "an error displays as nothing") } }
    }
    h_tot_emptysub(l) {
        let s = &"................"[..size(l)];
        let t = [Table::new(0, s, alts(l)), Table::new(1, s, alts(l))];
        let (a, b) = (t[0].sub(), t[1].sub());
        total(&parser!((a*)* repeat_sep(a?, b?)), s)
    }
}
#[allow(dead_code)]
fn unused() { let _ = (Cmp::Value, g as fn(&Table) -> G<'_>); }
