//! Combinators over sub-parsers of arbitrary behaviour: every sub-parser may
//! match any of up to `k` ends, in any order, at every position.
use crate::refm::{self as r, diff, Sub, Table, G};
use crate::sym;
use aoc_parse::{parser, prelude::*};

const DOTS: &str = "................";
fn src(n: u32) -> &'static str { &DOTS[..n as usize] }
fn tabs(s: &str, k: usize) -> [Table; 5] { [Table::new(0, s, k), Table::new(1, s, k), Table::new(2, s, k), Table::new(3, s, k), Table::new(4, s, k)] }
fn g(t: &Table) -> G<'_> { G::Sub(t) }
fn lv(l: u32) -> (&'static str, usize) { (src(r::size(l) as u32), r::alts(l)) }

macro_rules! subs {
    ($l:ident $t:ident $s:ident ; $($a:ident)*) => {
        let ($s, k) = lv($l);
        let $t = tabs($s, k);
        let mut it = $t.iter();
        $( let $a: Sub = it.next().unwrap().sub(); )*
        let _ = &mut it;
    };
}

harness! {
    // ---- concatenation
    h_seq2(l) { subs!(l t s; a b); diff(&parser!(a b), &G::Seq(vec![g(&t[0]), g(&t[1])]), s, r::mode(l)) }
    h_seq3(l) { subs!(l t s; a b c); diff(&parser!(a b c), &G::Seq(vec![g(&t[0]), g(&t[1]), g(&t[2])]), s, r::mode(l)) }
    h_seq4(l) { subs!(l t s; a b c d); diff(&parser!(a b c d), &G::Seq(vec![g(&t[0]), g(&t[1]), g(&t[2]), g(&t[3])]), s, r::mode(l)) }
    h_seq_group_l(l) { subs!(l t s; a b c); diff(&parser!((a b) c), &G::Seq(vec![g(&t[0]), g(&t[1]), g(&t[2])]), s, r::mode(l)) }
    h_seq_group_r(l) { subs!(l t s; a b c); let bc = parser!(b c); diff(&parser!(a bc), &G::Seq(vec![g(&t[0]), g(&t[1]), g(&t[2])]), s, r::mode(l)) }
    h_seq_map(l) { subs!(l t s; a b c); diff(&parser!(x:a y:b z:c => (77u64, x, y, z)), &r::tag(77, G::Seq(vec![g(&t[0]), g(&t[1]), g(&t[2])])), s, r::mode(l)) }
    // ---- alternation
    h_alt2(l) { subs!(l t s; a b); diff(&parser!({a, b}), &G::Alt(vec![g(&t[0]), g(&t[1])]), s, r::mode(l)) }
    h_alt3(l) { subs!(l t s; a b c); diff(&parser!({a, b, c}), &G::Alt(vec![g(&t[0]), g(&t[1]), g(&t[2])]), s, r::mode(l)) }
    h_alt5(l) { subs!(l t s; a b c d e); diff(&parser!({a, b, c, d, e}), &G::Alt(vec![g(&t[0]), g(&t[1]), g(&t[2]), g(&t[3]), g(&t[4])]), s, r::mode(l)) }
    h_alt_seq(l) { subs!(l t s; a b c); diff(&parser!({a, b} c), &G::Seq(vec![G::Alt(vec![g(&t[0]), g(&t[1])]), g(&t[2])]), s, r::mode(l)) }
    h_seq_alt(l) { subs!(l t s; a b c); diff(&parser!(a {b, c}), &G::Seq(vec![g(&t[0]), G::Alt(vec![g(&t[1]), g(&t[2])])]), s, r::mode(l)) }
    h_alt_arms(l) {
        subs!(l t s; a b c d);
        diff(&parser!({x:a y:b => (1u64, x, y), z:c => (2u64, z, 0u64)} d), &G::Seq(vec![G::Alt(vec![r::tag(1, G::Seq(vec![g(&t[0]), g(&t[1])])), r::tag(2, G::Seq(vec![g(&t[2]), r::tag(0, G::Empty)]))]), g(&t[3])]), s, r::mode(l))
    }
    h_alt_nested(l) { subs!(l t s; a b c d); diff(&parser!({{a, b}, c} d), &G::Seq(vec![G::Alt(vec![G::Alt(vec![g(&t[0]), g(&t[1])]), g(&t[2])]), g(&t[3])]), s, r::mode(l)) }
    // ---- optional
    h_opt(l) { subs!(l t s; a); diff(&parser!(a?), &r::opt(g(&t[0])), s, r::mode(l)) }
    h_opt_seq(l) { subs!(l t s; a b); diff(&parser!(a? b), &G::Seq(vec![r::opt(g(&t[0])), g(&t[1])]), s, r::mode(l)) }
    h_opt_opt(l) { subs!(l t s; a b c); diff(&parser!(a? b? c), &G::Seq(vec![r::opt(g(&t[0])), r::opt(g(&t[1])), g(&t[2])]), s, r::mode(l)) }
    h_opt_group(l) { subs!(l t s; a b c); diff(&parser!((a b)? c?), &G::Seq(vec![r::opt(G::Seq(vec![g(&t[0]), g(&t[1])])), r::opt(g(&t[2]))]), s, r::mode(l)) }
    h_opt_alt(l) { subs!(l t s; a b c); diff(&parser!({a, b}? c), &G::Seq(vec![r::opt(G::Alt(vec![g(&t[0]), g(&t[1])])), g(&t[2])]), s, r::mode(l)) }
    h_opt_in_alt(l) { subs!(l t s; a b c); diff(&parser!({a?, x:b => Some(x)} c), &G::Seq(vec![G::Alt(vec![r::opt(g(&t[0])), { G::Seq(vec![r::tag(crate::flat::SOME, G::Empty), g(&t[1])]) }]), g(&t[2])]), s, r::mode(l)) }
    // ---- repetition
    h_star(l) { subs!(l t s; a); diff(&parser!(a*), &r::star(g(&t[0])), s, r::mode(l)) }
    h_plus(l) { subs!(l t s; a); diff(&parser!(a+), &r::plus(g(&t[0])), s, r::mode(l)) }
    h_star_seq(l) { subs!(l t s; a b); diff(&parser!(a* b), &G::Seq(vec![r::star(g(&t[0])), g(&t[1])]), s, r::mode(l)) }
    h_plus_seq(l) { subs!(l t s; a b); diff(&parser!(a+ b), &G::Seq(vec![r::plus(g(&t[0])), g(&t[1])]), s, r::mode(l)) }
    h_seq_star(l) { subs!(l t s; a b); diff(&parser!(a b*), &G::Seq(vec![g(&t[0]), r::star(g(&t[1]))]), s, r::mode(l)) }
    h_star_group(l) { subs!(l t s; a b); diff(&parser!((a b)*), &r::star(G::Seq(vec![g(&t[0]), g(&t[1])])), s, r::mode(l)) }
    h_star_alt(l) { subs!(l t s; a b); diff(&parser!({a, b}*), &r::star(G::Alt(vec![g(&t[0]), g(&t[1])])), s, r::mode(l)) }
    h_star_star(l) { subs!(l t s; a b); diff(&parser!(a* b*), &G::Seq(vec![r::star(g(&t[0])), r::star(g(&t[1]))]), s, r::mode(l)) }
    h_star_of_star(l) { subs!(l t s; a); diff(&parser!((a*)*), &r::star(r::star(g(&t[0]))), s, r::mode(l)) }
    h_plus_of_opt(l) { subs!(l t s; a b); diff(&parser!((a?)+ b), &G::Seq(vec![r::plus(r::opt(g(&t[0]))), g(&t[1])]), s, r::mode(l)) }
    h_opt_of_plus(l) { subs!(l t s; a b); diff(&parser!((a+)? b), &G::Seq(vec![r::opt(r::plus(g(&t[0]))), g(&t[1])]), s, r::mode(l)) }
    // ---- separated repetition
    h_sep(l) { subs!(l t s; a b); diff(&parser!(repeat_sep(a, b)), &r::sep(g(&t[0]), g(&t[1])), s, r::mode(l)) }
    h_sep_seq(l) { subs!(l t s; a b c); diff(&parser!(repeat_sep(a, b) c), &G::Seq(vec![r::sep(g(&t[0]), g(&t[1])), g(&t[2])]), s, r::mode(l)) }
    h_seq_sep(l) { subs!(l t s; a b c); diff(&parser!(a repeat_sep(b, c)), &G::Seq(vec![g(&t[0]), r::sep(g(&t[1]), g(&t[2]))]), s, r::mode(l)) }
    h_sep_group(l) { subs!(l t s; a b c); diff(&parser!(repeat_sep(a b, c)), &r::sep(G::Seq(vec![g(&t[0]), g(&t[1])]), g(&t[2])), s, r::mode(l)) }
    h_sep_sep(l) { subs!(l t s; a b c); diff(&parser!(repeat_sep(repeat_sep(a, b), c)), &r::sep(r::sep(g(&t[0]), g(&t[1])), g(&t[2])), s, r::mode(l)) }
    h_sep_alt(l) { subs!(l t s; a b c); diff(&parser!(repeat_sep(a, {b, c})), &r::sep(g(&t[0]), G::Alt(vec![g(&t[1]), g(&t[2])])), s, r::mode(l)) }
    h_sep_star(l) { subs!(l t s; a b); diff(&parser!(repeat_sep(a, b*)), &r::sep(g(&t[0]), r::star(g(&t[1]))), s, r::mode(l)) }
}
#[allow(unused)]
fn unused() { sym::reach(0) }
