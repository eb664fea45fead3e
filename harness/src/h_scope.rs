//! line, lines, section and sections over symbolic text.
use crate::refm::{self as r, alts, diff, mode, size, Cmp, Sub, Table, G};
use crate::sym;
use aoc_parse::{parser, prelude::*};

fn txt(l: u32) -> String { sym::ascii(size(l), "") }
fn txt_upto(l: u32) -> String { sym::ascii_upto(size(l), "") }
fn ab(l: u32) -> String { sym::ascii_upto(size(l), "ab\n") }
fn lit<'a>(s: &'a str) -> G<'a> { G::Lit(s) }
fn anys<'a>() -> G<'a> { r::string(r::star(r::any())) }
fn anys1<'a>() -> G<'a> { r::string(r::plus(r::any())) }
fn g(t: &Table) -> G<'_> { G::Sub(t) }
fn seq<'a>(v: Vec<G<'a>>) -> G<'a> { G::Seq(v) }

macro_rules! t {
    ($l:ident, $src:expr, $p:expr, $g:expr) => {{ let s = $src; diff(&$p, &$g, &s, mode($l)) }};
}
// arbitrary sub-parsers over text with symbolic newlines
macro_rules! subs {
    ($l:ident $t:ident $s:ident ; $($a:ident)*) => {
        let text = sym::ascii(size($l), "x\n");
        let $s: &str = &text;
        let $t = [Table::new(0, $s, alts($l)), Table::new(1, $s, alts($l)), Table::new(2, $s, alts($l))];
        let mut it = $t.iter();
        $( let $a: Sub = it.next().unwrap().sub(); )*
        let _ = &mut it;
    };
}

harness! {
    // ---- line: which text it sees, what it consumes, where it may start
    h_line(l) { t!(l, txt_upto(l), parser!(line(string(any_char*))), r::line(anys())) }
    h_line1(l) { t!(l, txt_upto(l), parser!(line(string(any_char+))), r::line(anys1())) }
    h_line_then(l) { t!(l, txt_upto(l), parser!(line(string(any_char*)) string(any_char*)), seq(vec![r::line(anys()), anys()])) }
    h_line_line(l) { t!(l, txt_upto(l), parser!(line(string(any_char*)) line(string(any_char*))), seq(vec![r::line(anys()), r::line(anys())])) }
    h_any_line(l) { t!(l, txt_upto(l), parser!(string(any_char*) line(string(any_char*))), seq(vec![anys(), r::line(anys())])) }
    h_line_lit(l) { t!(l, ab(l), parser!(line("a") line("b")), seq(vec![r::line(lit("a")), r::line(lit("b"))])) }
    h_line_blank(l) { t!(l, ab(l), parser!(line("a") line("") line("b")), seq(vec![r::line(lit("a")), r::line(lit("")), r::line(lit("b"))])) }
    h_line_nl_inside(l) { t!(l, ab(l), parser!(line("a\nb") "b"*), seq(vec![r::line(lit("a\nb")), r::star(lit("b"))])) }
    h_line_of_line(l) { t!(l, txt_upto(l), parser!(line(line(string(any_char*)))), r::line(r::line(anys()))) }
    h_line_of_lines(l) { t!(l, txt_upto(l), parser!(line(lines(string(any_char*)))), r::line(r::lines(anys()))) }
    h_line_opt(l) { t!(l, ab(l), parser!(line("a")? line("a" "b"?)), seq(vec![r::opt(r::line(lit("a"))), r::line(seq(vec![lit("a"), r::opt(lit("b"))]))])) }
    h_line_alt(l) { t!(l, ab(l), parser!({line("a"), line("ab")} "b"?), seq(vec![G::Alt(vec![r::line(lit("a")), r::line(lit("ab"))]), r::opt(lit("b"))])) }
    h_line_alpha(l) { t!(l, ab(l), parser!(line(string(alpha*)) line(string(alpha+))), seq(vec![r::line(r::string(r::star(r::alpha()))), r::line(r::string(r::plus(r::alpha())))])) }
    // inside a line, backtracking must reach the whole line
    h_line_inner_bt(l) { t!(l, ab(l), parser!(lines(string("a"*) string("a"*) "b"?)), r::lines(seq(vec![r::string(r::star(lit("a"))), r::string(r::star(lit("a"))), r::opt(lit("b"))]))) }
    h_lines(l) { t!(l, txt_upto(l), parser!(lines(string(any_char*))), r::lines(anys())) }
    h_lines1(l) { t!(l, txt_upto(l), parser!(lines(string(any_char+))), r::lines(anys1())) }
    h_lines_a(l) { t!(l, ab(l), parser!(lines("a"+)), r::lines(r::plus(lit("a")))) }
    h_lines_lines(l) { t!(l, ab(l), parser!(lines("a") lines("b")), seq(vec![r::lines(lit("a")), r::lines(lit("b"))])) }
    h_lines_star(l) { t!(l, ab(l), parser!(lines("a"*) lines("a"*) line("b")), seq(vec![r::lines(r::star(lit("a"))), r::lines(r::star(lit("a"))), r::line(lit("b"))])) }
    h_lines_any(l) { t!(l, ab(l), parser!(lines("a") string(any_char*)), seq(vec![r::lines(lit("a")), anys()])) }
    h_line_plus(l) { t!(l, ab(l), parser!(line("a"+)+ line("b"*)), seq(vec![r::plus(r::line(r::plus(lit("a")))), r::line(r::star(lit("b")))])) }
    h_line_sep(l) { t!(l, ab(l), parser!(repeat_sep(line("a"), line("b"))), r::sep(r::line(lit("a")), r::line(lit("b")))) }
    // every text, not only ASCII
    h_line_utf8(l) { let s = sym::utf8(size(l)); diff(&parser!(line(string(any_char*)) string(any_char*)), &seq(vec![r::line(anys()), anys()]), &s, mode(l)) }
    h_lines_utf8(l) { let s = sym::utf8(size(l)); diff(&parser!(lines(string(any_char+))), &r::lines(anys1()), &s, mode(l)) }
    // ---- arbitrary patterns inside
    h_line_sub(l) { subs!(l t s; a); diff(&parser!(line(a)), &r::line(g(&t[0])), s, mode(l)) }
    h_line_sub_seq(l) { subs!(l t s; a b); diff(&parser!(line(a) b), &seq(vec![r::line(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_sub_line(l) { subs!(l t s; a b); diff(&parser!(a line(b)), &seq(vec![g(&t[0]), r::line(g(&t[1]))]), s, mode(l)) }
    h_line_two_subs(l) { subs!(l t s; a b); diff(&parser!(line(a b)), &r::line(seq(vec![g(&t[0]), g(&t[1])])), s, mode(l)) }
    h_lines_sub(l) { subs!(l t s; a); diff(&parser!(lines(a)), &r::lines(g(&t[0])), s, mode(l)) }
    h_lines_sub_seq(l) { subs!(l t s; a b); diff(&parser!(lines(a) b), &seq(vec![r::lines(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_line_alt_sub(l) { subs!(l t s; a b c); diff(&parser!({line(a), b} c), &seq(vec![G::Alt(vec![r::line(g(&t[0])), g(&t[1])]), g(&t[2])]), s, mode(l)) }
    h_section_sub(l) { subs!(l t s; a); diff(&parser!(section(a)), &r::section(g(&t[0])), s, mode(l)) }
    h_section_sub_seq(l) { subs!(l t s; a b); diff(&parser!(section(a) b), &seq(vec![r::section(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_sub_section(l) { subs!(l t s; a b); diff(&parser!(a section(b)), &seq(vec![g(&t[0]), r::section(g(&t[1]))]), s, mode(l)) }
    h_sections_sub(l) { subs!(l t s; a); diff(&parser!(sections(a)), &r::sections(g(&t[0])), s, mode(l)) }
    h_section_lines_sub(l) { subs!(l t s; a); diff(&parser!(section(lines(a))), &r::section(r::lines(g(&t[0]))), s, mode(l)) }
    h_section_line_sub(l) { subs!(l t s; a b); diff(&parser!(section(line(a) b)), &r::section(seq(vec![r::line(g(&t[0])), g(&t[1])])), s, mode(l)) }
    h_line_section_sub(l) { subs!(l t s; a b); diff(&parser!(line(a) section(b)), &seq(vec![r::line(g(&t[0])), r::section(g(&t[1]))]), s, mode(l)) }
    // ---- section
    h_section(l) { t!(l, txt_upto(l), parser!(section(string(any_char*))), r::section(anys())) }
    h_section_then(l) { t!(l, txt_upto(l), parser!(section(string(any_char*)) string(any_char*)), seq(vec![r::section(anys()), anys()])) }
    h_section_section(l) { t!(l, txt_upto(l), parser!(section(string(any_char*)) section(string(any_char*))), seq(vec![r::section(anys()), r::section(anys())])) }
    h_any_section(l) { t!(l, txt_upto(l), parser!(string(any_char*) section(string(any_char*))), seq(vec![anys(), r::section(anys())])) }
    h_section_lines(l) { t!(l, txt_upto(l), parser!(section(lines(string(any_char+)))), r::section(r::lines(anys1()))) }
    h_section_a(l) { t!(l, ab(l), parser!(section(lines("a"+)) section(lines("b"+))), seq(vec![r::section(r::lines(r::plus(lit("a")))), r::section(r::lines(r::plus(lit("b"))))])) }
    h_section_line(l) { t!(l, ab(l), parser!(section(line("a")) line("b")), seq(vec![r::section(r::line(lit("a"))), r::line(lit("b"))])) }
    h_line_section(l) { t!(l, ab(l), parser!(line("a") section(lines("b"*))), seq(vec![r::line(lit("a")), r::section(r::lines(r::star(lit("b"))))])) }
    h_lines_section(l) { t!(l, ab(l), parser!(lines("a"*) section(lines("a"+))), seq(vec![r::lines(r::star(lit("a"))), r::section(r::lines(r::plus(lit("a"))))])) }
    h_section_nonl(l) { t!(l, ab(l), parser!(section("ab")), r::section(lit("ab"))) }
    h_section_nl_lit(l) { t!(l, ab(l), parser!(section("a\n") section("b\n")?), seq(vec![r::section(lit("a\n")), r::opt(r::section(lit("b\n")))])) }
    h_section_of_section(l) { t!(l, txt_upto(l), parser!(section(section(string(any_char*)))), r::section(r::section(anys()))) }
    h_sections(l) { t!(l, txt_upto(l), parser!(sections(string(any_char*))), r::sections(anys())) }
    h_sections_lines(l) { t!(l, txt_upto(l), parser!(sections(lines(string(any_char+)))), r::sections(r::lines(anys1()))) }
    h_sections_a(l) { t!(l, ab(l), parser!(sections(lines("a"+))), r::sections(r::lines(r::plus(lit("a"))))) }
    h_sections_head(l) { t!(l, ab(l), parser!(sections(line("a") lines("b"*))), r::sections(seq(vec![r::line(lit("a")), r::lines(r::star(lit("b")))]))) }
    h_sections_any(l) { t!(l, ab(l), parser!(sections(lines("a")) string(any_char*)), seq(vec![r::sections(r::lines(lit("a"))), anys()])) }
    h_section_alt(l) { t!(l, ab(l), parser!({section(lines("a")), section(lines({"a", "b"}))} section("b"?)?), seq(vec![G::Alt(vec![r::section(r::lines(lit("a"))), r::section(r::lines(G::Alt(vec![lit("a"), lit("b")])))]), r::opt(r::section(r::opt(lit("b"))))])) }
    h_section_utf8(l) { let s = sym::utf8(size(l)); diff(&parser!(section(string(any_char*)) string(any_char*)), &seq(vec![r::section(anys()), anys()]), &s, mode(l)) }
    h_sections_utf8(l) { let s = sym::utf8(size(l)); diff(&parser!(sections(string(any_char+))), &r::sections(anys1()), &s, mode(l)) }
    // ---- longer inputs: many lines, a symbolic one among them
    h_lines_long(l) {
        let n = size(l);
        let mut s = String::new();
        for i in 0..n { s.push_str(if i % 3 == 0 { "ab\n" } else if i % 3 == 1 { "b\n" } else { "aab\n" }); }
        s.push_str(&sym::ascii(2, "ab\n"));
        s.push_str("b\nab");
        diff(&parser!(lines(string(alpha+))), &r::lines(r::string(r::plus(r::alpha()))), &s, mode(l))
    }
    h_sections_long(l) {
        let n = size(l);
        let mut s = String::new();
        for i in 0..n { s.push_str(if i % 3 == 0 { "ab\n\n" } else if i % 3 == 1 { "b\na\n\n" } else { "aab\nb\nab\n\n" }); }
        s.push_str(&sym::ascii(3, "ab\n"));
        s.push_str("b\nab");
        diff(&parser!(sections(lines(string(alpha+)))), &r::sections(r::lines(r::string(r::plus(r::alpha())))), &s, mode(l))
    }
}
#[allow(unused)]
fn unused() { sym::reach(0); let _ = Cmp::Value; }
