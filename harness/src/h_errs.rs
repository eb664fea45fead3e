//! Error values: where, in what text, and how they are displayed.
use crate::refm::{self as r, alts, diff, mode, size, Sub, Table, G};
use crate::sym;
use aoc_parse::{parser, prelude::*, ParseContext, ParseError, Parser};

fn g(t: &Table) -> G<'_> { G::Sub(t) }
fn seq<'a>(v: Vec<G<'a>>) -> G<'a> { G::Seq(v) }
fn alt<'a>(v: Vec<G<'a>>) -> G<'a> { G::Alt(v) }
// sub-parsers that report their failures anywhere at or after their start
macro_rules! subs {
    ($l:ident $t:ident $s:ident $alpha:literal ; $($a:ident)*) => {
        let text = sym::ascii(size($l), $alpha);
        let $s: &str = &text;
        let k = alts($l);
        let $t = [Table::new(0, $s, k).with_errloc(), Table::new(1, $s, k).with_errloc(), Table::new(2, $s, k).with_errloc()];
        let mut it = $t.iter();
        $( let $a: Sub = it.next().unwrap().sub(); )*
        let _ = &mut it;
    };
}
/// where an error is, as a user counts: line and column from 1, columns in characters
fn place(s: &str, at: usize) -> String {
    if at == s.len() { return " at end of input".into(); }
    let b = s.as_bytes();
    let (mut line, mut col) = (1, 1);
    let mut i = 0;
    while i < at {
        if b[i] == b'\n' { line += 1; col = 1; } else { if b[i] & 0xC0 != 0x80 { col += 1; } }
        i += 1;
    }
    format!(" at line {line} column {col}")
}
fn boundary(s: &str, at: usize) -> bool { at == s.len() || (at < s.len() && s.as_bytes()[at] & 0xC0 != 0x80) }
fn shown(e: &ParseError, src: &str) {
    sym::observe(e.location as u64);
    sym::check(e.source.as_bytes() == src.as_bytes(), "error source is not the full input");
    sym::check(boundary(src, e.location), "error location is not a character boundary of the input");
    if !boundary(src, e.location) { return; }
    let msg = e.to_string();
    sym::check(msg.ends_with(place(src, e.location).as_str()), "the displayed place is not the line and column of the error location");
    sym::check(!msg.starts_with(" at "), "the displayed error gives no reason");
}
fn show<P: Parser>(p: &P, src: &str) {
    match p.parse(src) { Ok(_) => sym::reach(1), Err(e) => { sym::reach(2); shown(&e, src) } }
}

harness! {
    // ---- display
    h_disp_any(l) {
        let s = sym::utf8(size(l));
        let at = sym::choose(size(l) as u64 + 1) as usize;
        sym::assume(boundary(&s, at));
        let mut c = ParseContext::new(&s);
        c.error_expected(at, "something");
        let e = c.into_reported_error();
        sym::reach(2);
        sym::check(e.location == at, "a reported error is not at the reported location");
        let want = format!("expected something{}", place(&s, at));
        sym::check(e.to_string() == want, "the displayed place is not the line and column of the error location");
        sym::check(e.source == s, "error source is not the full input");
    }
    h_disp_mix(l) {
        let s = sym::uchars(size(l));
        let at = sym::choose(s.len() as u64 + 1) as usize;
        sym::assume(boundary(&s, at));
        let mut c = ParseContext::new(&s);
        c.error_expected(at, "something");
        let e = c.into_reported_error();
        sym::reach(2);
        sym::check(e.location == at, "a reported error is not at the reported location");
        let want = format!("expected something{}", place(&s, at));
        sym::check(e.to_string() == want, "the displayed place is not the line and column of the error location");
        sym::check(e.source == s, "error source is not the full input");
    }
    h_disp_ascii(l) {
        let s = sym::ascii(size(l), "a\n\r");
        let at = sym::choose(size(l) as u64 + 1) as usize;
        let mut c = ParseContext::new(&s);
        c.error_extra(at);
        let e = c.into_reported_error();
        sym::reach(2);
        let want = format!("extra unparsed text after match{}", place(&s, at));
        sym::check(e.to_string() == want, "the displayed place is not the line and column of the error location");
    }
    // more than nine lines and columns
    h_disp_long(l) {
        let s = format!("{}{}{}{}", "ab\n".repeat(8 + sym::choose(3) as usize), sym::ascii(size(l), "é a\n".split('é').next_back().unwrap()), "x".repeat(9), sym::ascii(1, "\nx"));
        let at = sym::choose(s.len() as u64 + 1) as usize;
        let mut c = ParseContext::new(&s);
        c.error_expected(at, "q");
        let e = c.into_reported_error();
        sym::reach(2);
        sym::check(e.to_string() == format!("expected q{}", place(&s, at)), "the displayed place is not the line and column of the error location");
    }
    h_debug(l) {
        let s = sym::ascii(size(l), "a\n");
        let at = sym::choose(size(l) as u64 + 1) as usize;
        let mut c = ParseContext::new(&s);
        c.error_expected(at, "q");
        let e = c.into_reported_error();
        sym::reach(2);
        let want = format!("summary: \"expected q{}\"", place(&s, at));
        sym::check(format!("{e:?}").contains(&want), "the debug form does not contain the displayed message");
        let f = e.clone();
        sym::check(f.to_string() == e.to_string() && f.location == e.location, "a clone of an error differs from it");
    }
    h_from_str(l) {
        let s = sym::ascii(size(l), "1x");
        let at = sym::choose(size(l) as u64) as usize;
        let mut c = ParseContext::new(&s);
        c.error_from_str_failed(at, size(l), "thing", "no good".into());
        let e = c.into_reported_error();
        sym::reach(2);
        sym::check(e.to_string() == format!("failed to parse {:?} as type thing: no good{}", &s[at..], place(&s, at)), "a conversion failure does not show its text, type, message and place");
    }
    // ---- the foremost of a series of reports, the first among equals
    h_foremost(l) {
        let n = size(l);
        let src = "................";
        let mut c = ParseContext::new(src);
        let mut best: Option<(usize, usize)> = None;
        for i in 0..n {
            let at = sym::byte() as usize;
            sym::assume(at <= 6);
            let at = sym::concrete(at as u64) as usize;
            match i % 3 { 0 => { c.error_expected(at, r::NOUNS[i % 5]); } 1 => { c.error_extra(at); } _ => { c.error_from_str_failed(at, at, r::NOUNS[i % 5], String::new()); } }
            if best.map_or(true, |b| at > b.0) { best = Some((at, i)); }
        }
        let (at, i) = best.unwrap();
        let e = c.into_reported_error();
        sym::reach(2);
        sym::check(e.location == at, "the error is not the one at the furthest reported location");
        let m = e.to_string();
        let start = match i % 3 { 0 => format!("expected {} ", r::NOUNS[i % 5]), 1 => "extra unparsed".into(), _ => format!("failed to parse \"\" as type {}:", r::NOUNS[i % 5]) };
        sym::check(m.starts_with(start.as_str()), "the error is not the first one reported at the furthest location");
    }
    // ---- failures anywhere, under every combinator
    h_e_one(l) { subs!(l t s "."; a); diff(&parser!(a), &g(&t[0]), s, mode(l)) }
    h_e_seq(l) { subs!(l t s "."; a b); diff(&parser!(a b), &seq(vec![g(&t[0]), g(&t[1])]), s, mode(l)) }
    h_e_alt(l) { subs!(l t s "."; a b); diff(&parser!({a, b}), &alt(vec![g(&t[0]), g(&t[1])]), s, mode(l)) }
    h_e_alt_seq(l) { subs!(l t s "."; a b c); diff(&parser!({a, b} c), &seq(vec![alt(vec![g(&t[0]), g(&t[1])]), g(&t[2])]), s, mode(l)) }
    h_e_opt(l) { subs!(l t s "."; a b); diff(&parser!(a? b), &seq(vec![r::opt(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_e_star(l) { subs!(l t s "."; a b); diff(&parser!(a* b), &seq(vec![r::star(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_e_plus(l) { subs!(l t s "."; a b); diff(&parser!(a+ b?), &seq(vec![r::plus(g(&t[0])), r::opt(g(&t[1]))]), s, mode(l)) }
    h_e_sep(l) { subs!(l t s "."; a b); diff(&parser!(repeat_sep(a, b)), &r::sep(g(&t[0]), g(&t[1])), s, mode(l)) }
    h_e_map(l) { subs!(l t s "."; a b); diff(&parser!(x:a y:b => (x, y)), &seq(vec![g(&t[0]), g(&t[1])]), s, mode(l)) }
    h_e_string(l) { subs!(l t s "."; a b); diff(&parser!(string(a) b), &seq(vec![r::string(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_e_line(l) { subs!(l t s "x\n"; a); diff(&parser!(line(a)), &r::line(g(&t[0])), s, mode(l)) }
    h_e_line_seq(l) { subs!(l t s "x\n"; a b); diff(&parser!(line(a) b), &seq(vec![r::line(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_e_seq_line(l) { subs!(l t s "x\n"; a b); diff(&parser!(a line(b)), &seq(vec![g(&t[0]), r::line(g(&t[1]))]), s, mode(l)) }
    h_e_lines(l) { subs!(l t s "x\n"; a); diff(&parser!(lines(a)), &r::lines(g(&t[0])), s, mode(l)) }
    h_e_lines_seq(l) { subs!(l t s "x\n"; a b); diff(&parser!(lines(a) b), &seq(vec![r::lines(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_e_section(l) { subs!(l t s "x\n"; a b); diff(&parser!(section(a) b), &seq(vec![r::section(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_e_sections(l) { subs!(l t s "x\n"; a); diff(&parser!(sections(a)), &r::sections(g(&t[0])), s, mode(l)) }
    h_e_section_lines(l) { subs!(l t s "x\n"; a b); diff(&parser!(section(line(a) lines(b))), &r::section(seq(vec![r::line(g(&t[0])), r::lines(g(&t[1]))])), s, mode(l)) }
    h_e_sections_lines(l) { subs!(l t s "x\n"; a); diff(&parser!(sections(lines(a))), &r::sections(r::lines(g(&t[0]))), s, mode(l)) }
    h_e_line_alt(l) { subs!(l t s "x\n"; a b); diff(&parser!({line(a), line(b)}), &alt(vec![r::line(g(&t[0])), r::line(g(&t[1]))]), s, mode(l)) }
    h_e_line_line(l) { subs!(l t s "x\n"; a b); diff(&parser!(line(line(a) b)), &r::line(seq(vec![r::line(g(&t[0])), g(&t[1])])), s, mode(l)) }
    h_e_nested3(l) { subs!(l t s "x\n"; a); diff(&parser!(section(section(line(a)))), &r::section(r::section(r::line(g(&t[0])))), s, mode(l)) }
    h_e_set(l) { subs!(l t s "."; a b); diff(&parser!(vec_deque(a*) b), &seq(vec![r::star(g(&t[0])), g(&t[1])]), s, mode(l)) }
    // ---- errors of real patterns on arbitrary text: place shown, source, boundary
    h_show_lines(l) { show(&parser!(lines(repeat_sep(string(digit+), {" ", "é"}))), &sym::utf8(size(l))) }
    h_show_sections(l) { show(&parser!(sections(lines(char_of("aé€")))), &sym::utf8(size(l))) }
    h_show_mixed(l) { show(&parser!(line("é" any_char+) section(lines({"a" => 0usize, digit})) lines(digit+)), &sym::utf8(size(l))) }
    h_show_num(l) { let _ = u8.parse("1"); show(&parser!(lines(repeat_sep(u8, ","))), &sym::utf8(size(l))) }
    h_show_opt(l) { show(&parser!("é"? '€'* char_of("é\n") digit_hex?), &sym::utf8(size(l))) }
    h_show_ascii(l) { show(&parser!(line("ab") lines(string(alpha) "-" digit)), &sym::ascii_upto(size(l), "")) }
    h_show_mix(l) { show(&parser!(lines(any_char any_char? "é"?)), &sym::uchars(size(l))) }
    h_show_mix_after(l) { let s = format!("é€x😀\n{}\nq", sym::uchars(size(l))); show(&parser!(line(any_char+) lines({"q" => 0, any_char "a" => 1})), &s) }
    h_show_mix_section(l) { let s = format!("é\n😀\n\n{}", sym::uchars(size(l))); show(&parser!(sections(line(any_char) lines({"€", "😀"} any_char?))), &s) }
    h_show_mix_chars(l) { show(&parser!(alnum? char_of("é😀\n") upper? digit?), &sym::uchars(size(l))) }
    h_show_second_line(l) { let s = format!("é€x\n{}\nrest é\n", sym::utf8(size(l))); show(&parser!(line(any_char+) line(any_char "é"? digit) line("rest " digit)), &s) }
    h_show_section2(l) { let s = format!("é\n\nü\n{}", sym::utf8(size(l))); show(&parser!(section(lines(any_char)) section(lines(char_of("ü€")))), &s) }
}
