//! Generated by ../mgen.py: every form of term under every quantifier at every
//! place a term can stand in parser!(), against the pattern it stands for.
use crate::flat::*;
use crate::refm::{self as r, diff, mode, size, G};
use crate::sym;
use aoc_parse::{parser, prelude::*};

fn lit<'a>(s: &'a str) -> G<'a> { G::Lit(s) }
fn seq<'a>(v: Vec<G<'a>>) -> G<'a> { G::Seq(v) }
fn alt<'a>(v: Vec<G<'a>>) -> G<'a> { G::Alt(v) }
fn t(n: u64, g: G) -> G { r::tag(n, g) }
fn drop1(g: G) -> G { G::Drop(r::b(g)) }
fn al<'a>() -> G<'a> { r::alpha() }
fn dg<'a>() -> G<'a> { r::digit() }
/// the tokens of a value, which may be part of a larger one
struct Toks(Vec<u64>);
impl Flat for Toks { fn flat(&self, o: &mut Vec<u64>) { o.extend(&self.0) } }

// one pattern after another on one text
macro_rules! each { ($s:ident $c:ident; $( $p:expr, $g:expr; )*) => { $( diff(&$p, &$g, &$s, $c); )* } }

harness! {
    h_g_sole_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(alpha), al();
            parser!(alpha?), r::opt(al());
            parser!(alpha*), r::star(al());
            parser!(alpha+), r::plus(al());
            parser!("a"), lit("a");
            parser!("a"?), r::opt(lit("a"));
            parser!("a"*), r::star(lit("a"));
            parser!("a"+), r::plus(lit("a"));
            parser!('1'), lit("1");
            parser!('1'?), r::opt(lit("1"));
            parser!('1'*), r::star(lit("1"));
            parser!('1'+), r::plus(lit("1"));
            parser!(string(alpha)), r::string(al());
            parser!(string(alpha)?), r::opt(r::string(al()));
            parser!(string(alpha)*), r::star(r::string(al()));
            parser!(string(alpha)+), r::plus(r::string(al()));
            parser!(char_of("a,")), G::CharOf("a,");
            parser!(char_of("a,")?), r::opt(G::CharOf("a,"));
            parser!(char_of("a,")*), r::star(G::CharOf("a,"));
            parser!(char_of("a,")+), r::plus(G::CharOf("a,"));
            parser!((alpha digit)), seq(vec![al(), dg()]);
            parser!((alpha digit)?), r::opt(seq(vec![al(), dg()]));
            parser!((alpha digit)*), r::star(seq(vec![al(), dg()]));
            parser!((alpha digit)+), r::plus(seq(vec![al(), dg()]));
        }
    }
    h_g_sole_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!((digit)), dg();
            parser!((digit)?), r::opt(dg());
            parser!((digit)*), r::star(dg());
            parser!((digit)+), r::plus(dg());
            parser!(("a" "1"?)), seq(vec![lit("a"), r::opt(lit("1"))]);
            parser!(("a" "1"?)?), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]));
            parser!(("a" "1"?)*), r::star(seq(vec![lit("a"), r::opt(lit("1"))]));
            parser!(("a" "1"?)+), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]));
            parser!({char_of("1"), digit}), alt(vec![G::CharOf("1"), dg()]);
            parser!({char_of("1"), digit}?), r::opt(alt(vec![G::CharOf("1"), dg()]));
            parser!({char_of("1"), digit}*), r::star(alt(vec![G::CharOf("1"), dg()]));
            parser!({char_of("1"), digit}+), r::plus(alt(vec![G::CharOf("1"), dg()]));
            parser!({"a" => 7u64, y:digit => y as u64}), alt(vec![t(7, lit("a")), dg()]);
            parser!({"a" => 7u64, y:digit => y as u64}?), r::opt(alt(vec![t(7, lit("a")), dg()]));
            parser!({"a" => 7u64, y:digit => y as u64}*), r::star(alt(vec![t(7, lit("a")), dg()]));
            parser!({"a" => 7u64, y:digit => y as u64}+), r::plus(alt(vec![t(7, lit("a")), dg()]));
            parser!({alpha}), al();
            parser!({alpha}?), r::opt(al());
            parser!({alpha}*), r::star(al());
            parser!({alpha}+), r::plus(al());
            parser!((y:alpha digit => y)), seq(vec![al(), drop1(dg())]);
            parser!((y:alpha digit => y)?), r::opt(seq(vec![al(), drop1(dg())]));
            parser!((y:alpha digit => y)*), r::star(seq(vec![al(), drop1(dg())]));
            parser!((y:alpha digit => y)+), r::plus(seq(vec![al(), drop1(dg())]));
        }
    }
    h_g_first_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(alpha ","), seq(vec![al(), lit(",")]);
            parser!(alpha? ","), seq(vec![r::opt(al()), lit(",")]);
            parser!(alpha* ","), seq(vec![r::star(al()), lit(",")]);
            parser!(alpha+ ","), seq(vec![r::plus(al()), lit(",")]);
            parser!("a" ","), seq(vec![lit("a"), lit(",")]);
            parser!("a"? ","), seq(vec![r::opt(lit("a")), lit(",")]);
            parser!("a"* ","), seq(vec![r::star(lit("a")), lit(",")]);
            parser!("a"+ ","), seq(vec![r::plus(lit("a")), lit(",")]);
            parser!('1' ","), seq(vec![lit("1"), lit(",")]);
            parser!('1'? ","), seq(vec![r::opt(lit("1")), lit(",")]);
            parser!('1'* ","), seq(vec![r::star(lit("1")), lit(",")]);
            parser!('1'+ ","), seq(vec![r::plus(lit("1")), lit(",")]);
            parser!(string(alpha) ","), seq(vec![r::string(al()), lit(",")]);
            parser!(string(alpha)? ","), seq(vec![r::opt(r::string(al())), lit(",")]);
            parser!(string(alpha)* ","), seq(vec![r::star(r::string(al())), lit(",")]);
            parser!(string(alpha)+ ","), seq(vec![r::plus(r::string(al())), lit(",")]);
            parser!(char_of("a,") ","), seq(vec![G::CharOf("a,"), lit(",")]);
            parser!(char_of("a,")? ","), seq(vec![r::opt(G::CharOf("a,")), lit(",")]);
            parser!(char_of("a,")* ","), seq(vec![r::star(G::CharOf("a,")), lit(",")]);
            parser!(char_of("a,")+ ","), seq(vec![r::plus(G::CharOf("a,")), lit(",")]);
            parser!((alpha digit) ","), seq(vec![seq(vec![al(), dg()]), lit(",")]);
            parser!((alpha digit)? ","), seq(vec![r::opt(seq(vec![al(), dg()])), lit(",")]);
            parser!((alpha digit)* ","), seq(vec![r::star(seq(vec![al(), dg()])), lit(",")]);
            parser!((alpha digit)+ ","), seq(vec![r::plus(seq(vec![al(), dg()])), lit(",")]);
        }
    }
    h_g_first_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!((digit) ","), seq(vec![dg(), lit(",")]);
            parser!((digit)? ","), seq(vec![r::opt(dg()), lit(",")]);
            parser!((digit)* ","), seq(vec![r::star(dg()), lit(",")]);
            parser!((digit)+ ","), seq(vec![r::plus(dg()), lit(",")]);
            parser!(("a" "1"?) ","), seq(vec![seq(vec![lit("a"), r::opt(lit("1"))]), lit(",")]);
            parser!(("a" "1"?)? ","), seq(vec![r::opt(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")]);
            parser!(("a" "1"?)* ","), seq(vec![r::star(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")]);
            parser!(("a" "1"?)+ ","), seq(vec![r::plus(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")]);
            parser!({char_of("1"), digit} ","), seq(vec![alt(vec![G::CharOf("1"), dg()]), lit(",")]);
            parser!({char_of("1"), digit}? ","), seq(vec![r::opt(alt(vec![G::CharOf("1"), dg()])), lit(",")]);
            parser!({char_of("1"), digit}* ","), seq(vec![r::star(alt(vec![G::CharOf("1"), dg()])), lit(",")]);
            parser!({char_of("1"), digit}+ ","), seq(vec![r::plus(alt(vec![G::CharOf("1"), dg()])), lit(",")]);
            parser!({"a" => 7u64, y:digit => y as u64} ","), seq(vec![alt(vec![t(7, lit("a")), dg()]), lit(",")]);
            parser!({"a" => 7u64, y:digit => y as u64}? ","), seq(vec![r::opt(alt(vec![t(7, lit("a")), dg()])), lit(",")]);
            parser!({"a" => 7u64, y:digit => y as u64}* ","), seq(vec![r::star(alt(vec![t(7, lit("a")), dg()])), lit(",")]);
            parser!({"a" => 7u64, y:digit => y as u64}+ ","), seq(vec![r::plus(alt(vec![t(7, lit("a")), dg()])), lit(",")]);
            parser!({alpha} ","), seq(vec![al(), lit(",")]);
            parser!({alpha}? ","), seq(vec![r::opt(al()), lit(",")]);
            parser!({alpha}* ","), seq(vec![r::star(al()), lit(",")]);
            parser!({alpha}+ ","), seq(vec![r::plus(al()), lit(",")]);
            parser!((y:alpha digit => y) ","), seq(vec![seq(vec![al(), drop1(dg())]), lit(",")]);
            parser!((y:alpha digit => y)? ","), seq(vec![r::opt(seq(vec![al(), drop1(dg())])), lit(",")]);
            parser!((y:alpha digit => y)* ","), seq(vec![r::star(seq(vec![al(), drop1(dg())])), lit(",")]);
            parser!((y:alpha digit => y)+ ","), seq(vec![r::plus(seq(vec![al(), drop1(dg())])), lit(",")]);
        }
    }
    h_g_last_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!("a" alpha), seq(vec![lit("a"), al()]);
            parser!("a" alpha?), seq(vec![lit("a"), r::opt(al())]);
            parser!("a" alpha*), seq(vec![lit("a"), r::star(al())]);
            parser!("a" alpha+), seq(vec![lit("a"), r::plus(al())]);
            parser!("a" "a"), seq(vec![lit("a"), lit("a")]);
            parser!("a" "a"?), seq(vec![lit("a"), r::opt(lit("a"))]);
            parser!("a" "a"*), seq(vec![lit("a"), r::star(lit("a"))]);
            parser!("a" "a"+), seq(vec![lit("a"), r::plus(lit("a"))]);
            parser!("a" '1'), seq(vec![lit("a"), lit("1")]);
            parser!("a" '1'?), seq(vec![lit("a"), r::opt(lit("1"))]);
            parser!("a" '1'*), seq(vec![lit("a"), r::star(lit("1"))]);
            parser!("a" '1'+), seq(vec![lit("a"), r::plus(lit("1"))]);
            parser!("a" string(alpha)), seq(vec![lit("a"), r::string(al())]);
            parser!("a" string(alpha)?), seq(vec![lit("a"), r::opt(r::string(al()))]);
            parser!("a" string(alpha)*), seq(vec![lit("a"), r::star(r::string(al()))]);
            parser!("a" string(alpha)+), seq(vec![lit("a"), r::plus(r::string(al()))]);
            parser!("a" char_of("a,")), seq(vec![lit("a"), G::CharOf("a,")]);
            parser!("a" char_of("a,")?), seq(vec![lit("a"), r::opt(G::CharOf("a,"))]);
            parser!("a" char_of("a,")*), seq(vec![lit("a"), r::star(G::CharOf("a,"))]);
            parser!("a" char_of("a,")+), seq(vec![lit("a"), r::plus(G::CharOf("a,"))]);
            parser!("a" (alpha digit)), seq(vec![lit("a"), seq(vec![al(), dg()])]);
            parser!("a" (alpha digit)?), seq(vec![lit("a"), r::opt(seq(vec![al(), dg()]))]);
            parser!("a" (alpha digit)*), seq(vec![lit("a"), r::star(seq(vec![al(), dg()]))]);
            parser!("a" (alpha digit)+), seq(vec![lit("a"), r::plus(seq(vec![al(), dg()]))]);
        }
    }
    h_g_last_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!("a" (digit)), seq(vec![lit("a"), dg()]);
            parser!("a" (digit)?), seq(vec![lit("a"), r::opt(dg())]);
            parser!("a" (digit)*), seq(vec![lit("a"), r::star(dg())]);
            parser!("a" (digit)+), seq(vec![lit("a"), r::plus(dg())]);
            parser!("a" ("a" "1"?)), seq(vec![lit("a"), seq(vec![lit("a"), r::opt(lit("1"))])]);
            parser!("a" ("a" "1"?)?), seq(vec![lit("a"), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!("a" ("a" "1"?)*), seq(vec![lit("a"), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!("a" ("a" "1"?)+), seq(vec![lit("a"), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!("a" {char_of("1"), digit}), seq(vec![lit("a"), alt(vec![G::CharOf("1"), dg()])]);
            parser!("a" {char_of("1"), digit}?), seq(vec![lit("a"), r::opt(alt(vec![G::CharOf("1"), dg()]))]);
            parser!("a" {char_of("1"), digit}*), seq(vec![lit("a"), r::star(alt(vec![G::CharOf("1"), dg()]))]);
            parser!("a" {char_of("1"), digit}+), seq(vec![lit("a"), r::plus(alt(vec![G::CharOf("1"), dg()]))]);
            parser!("a" {"a" => 7u64, y:digit => y as u64}), seq(vec![lit("a"), alt(vec![t(7, lit("a")), dg()])]);
            parser!("a" {"a" => 7u64, y:digit => y as u64}?), seq(vec![lit("a"), r::opt(alt(vec![t(7, lit("a")), dg()]))]);
            parser!("a" {"a" => 7u64, y:digit => y as u64}*), seq(vec![lit("a"), r::star(alt(vec![t(7, lit("a")), dg()]))]);
            parser!("a" {"a" => 7u64, y:digit => y as u64}+), seq(vec![lit("a"), r::plus(alt(vec![t(7, lit("a")), dg()]))]);
            parser!("a" {alpha}), seq(vec![lit("a"), al()]);
            parser!("a" {alpha}?), seq(vec![lit("a"), r::opt(al())]);
            parser!("a" {alpha}*), seq(vec![lit("a"), r::star(al())]);
            parser!("a" {alpha}+), seq(vec![lit("a"), r::plus(al())]);
            parser!("a" (y:alpha digit => y)), seq(vec![lit("a"), seq(vec![al(), drop1(dg())])]);
            parser!("a" (y:alpha digit => y)?), seq(vec![lit("a"), r::opt(seq(vec![al(), drop1(dg())]))]);
            parser!("a" (y:alpha digit => y)*), seq(vec![lit("a"), r::star(seq(vec![al(), drop1(dg())]))]);
            parser!("a" (y:alpha digit => y)+), seq(vec![lit("a"), r::plus(seq(vec![al(), drop1(dg())]))]);
        }
    }
    h_g_mid_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(alpha? alpha digit*), seq(vec![r::opt(al()), al(), r::star(dg())]);
            parser!(alpha? alpha? digit*), seq(vec![r::opt(al()), r::opt(al()), r::star(dg())]);
            parser!(alpha? alpha* digit*), seq(vec![r::opt(al()), r::star(al()), r::star(dg())]);
            parser!(alpha? alpha+ digit*), seq(vec![r::opt(al()), r::plus(al()), r::star(dg())]);
            parser!(alpha? "a" digit*), seq(vec![r::opt(al()), lit("a"), r::star(dg())]);
            parser!(alpha? "a"? digit*), seq(vec![r::opt(al()), r::opt(lit("a")), r::star(dg())]);
            parser!(alpha? "a"* digit*), seq(vec![r::opt(al()), r::star(lit("a")), r::star(dg())]);
            parser!(alpha? "a"+ digit*), seq(vec![r::opt(al()), r::plus(lit("a")), r::star(dg())]);
            parser!(alpha? '1' digit*), seq(vec![r::opt(al()), lit("1"), r::star(dg())]);
            parser!(alpha? '1'? digit*), seq(vec![r::opt(al()), r::opt(lit("1")), r::star(dg())]);
            parser!(alpha? '1'* digit*), seq(vec![r::opt(al()), r::star(lit("1")), r::star(dg())]);
            parser!(alpha? '1'+ digit*), seq(vec![r::opt(al()), r::plus(lit("1")), r::star(dg())]);
            parser!(alpha? string(alpha) digit*), seq(vec![r::opt(al()), r::string(al()), r::star(dg())]);
            parser!(alpha? string(alpha)? digit*), seq(vec![r::opt(al()), r::opt(r::string(al())), r::star(dg())]);
            parser!(alpha? string(alpha)* digit*), seq(vec![r::opt(al()), r::star(r::string(al())), r::star(dg())]);
            parser!(alpha? string(alpha)+ digit*), seq(vec![r::opt(al()), r::plus(r::string(al())), r::star(dg())]);
            parser!(alpha? char_of("a,") digit*), seq(vec![r::opt(al()), G::CharOf("a,"), r::star(dg())]);
            parser!(alpha? char_of("a,")? digit*), seq(vec![r::opt(al()), r::opt(G::CharOf("a,")), r::star(dg())]);
            parser!(alpha? char_of("a,")* digit*), seq(vec![r::opt(al()), r::star(G::CharOf("a,")), r::star(dg())]);
            parser!(alpha? char_of("a,")+ digit*), seq(vec![r::opt(al()), r::plus(G::CharOf("a,")), r::star(dg())]);
            parser!(alpha? (alpha digit) digit*), seq(vec![r::opt(al()), seq(vec![al(), dg()]), r::star(dg())]);
            parser!(alpha? (alpha digit)? digit*), seq(vec![r::opt(al()), r::opt(seq(vec![al(), dg()])), r::star(dg())]);
            parser!(alpha? (alpha digit)* digit*), seq(vec![r::opt(al()), r::star(seq(vec![al(), dg()])), r::star(dg())]);
            parser!(alpha? (alpha digit)+ digit*), seq(vec![r::opt(al()), r::plus(seq(vec![al(), dg()])), r::star(dg())]);
        }
    }
    h_g_mid_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(alpha? (digit) digit*), seq(vec![r::opt(al()), dg(), r::star(dg())]);
            parser!(alpha? (digit)? digit*), seq(vec![r::opt(al()), r::opt(dg()), r::star(dg())]);
            parser!(alpha? (digit)* digit*), seq(vec![r::opt(al()), r::star(dg()), r::star(dg())]);
            parser!(alpha? (digit)+ digit*), seq(vec![r::opt(al()), r::plus(dg()), r::star(dg())]);
            parser!(alpha? ("a" "1"?) digit*), seq(vec![r::opt(al()), seq(vec![lit("a"), r::opt(lit("1"))]), r::star(dg())]);
            parser!(alpha? ("a" "1"?)? digit*), seq(vec![r::opt(al()), r::opt(seq(vec![lit("a"), r::opt(lit("1"))])), r::star(dg())]);
            parser!(alpha? ("a" "1"?)* digit*), seq(vec![r::opt(al()), r::star(seq(vec![lit("a"), r::opt(lit("1"))])), r::star(dg())]);
            parser!(alpha? ("a" "1"?)+ digit*), seq(vec![r::opt(al()), r::plus(seq(vec![lit("a"), r::opt(lit("1"))])), r::star(dg())]);
            parser!(alpha? {char_of("1"), digit} digit*), seq(vec![r::opt(al()), alt(vec![G::CharOf("1"), dg()]), r::star(dg())]);
            parser!(alpha? {char_of("1"), digit}? digit*), seq(vec![r::opt(al()), r::opt(alt(vec![G::CharOf("1"), dg()])), r::star(dg())]);
            parser!(alpha? {char_of("1"), digit}* digit*), seq(vec![r::opt(al()), r::star(alt(vec![G::CharOf("1"), dg()])), r::star(dg())]);
            parser!(alpha? {char_of("1"), digit}+ digit*), seq(vec![r::opt(al()), r::plus(alt(vec![G::CharOf("1"), dg()])), r::star(dg())]);
            parser!(alpha? {"a" => 7u64, y:digit => y as u64} digit*), seq(vec![r::opt(al()), alt(vec![t(7, lit("a")), dg()]), r::star(dg())]);
            parser!(alpha? {"a" => 7u64, y:digit => y as u64}? digit*), seq(vec![r::opt(al()), r::opt(alt(vec![t(7, lit("a")), dg()])), r::star(dg())]);
            parser!(alpha? {"a" => 7u64, y:digit => y as u64}* digit*), seq(vec![r::opt(al()), r::star(alt(vec![t(7, lit("a")), dg()])), r::star(dg())]);
            parser!(alpha? {"a" => 7u64, y:digit => y as u64}+ digit*), seq(vec![r::opt(al()), r::plus(alt(vec![t(7, lit("a")), dg()])), r::star(dg())]);
            parser!(alpha? {alpha} digit*), seq(vec![r::opt(al()), al(), r::star(dg())]);
            parser!(alpha? {alpha}? digit*), seq(vec![r::opt(al()), r::opt(al()), r::star(dg())]);
            parser!(alpha? {alpha}* digit*), seq(vec![r::opt(al()), r::star(al()), r::star(dg())]);
            parser!(alpha? {alpha}+ digit*), seq(vec![r::opt(al()), r::plus(al()), r::star(dg())]);
            parser!(alpha? (y:alpha digit => y) digit*), seq(vec![r::opt(al()), seq(vec![al(), drop1(dg())]), r::star(dg())]);
            parser!(alpha? (y:alpha digit => y)? digit*), seq(vec![r::opt(al()), r::opt(seq(vec![al(), drop1(dg())])), r::star(dg())]);
            parser!(alpha? (y:alpha digit => y)* digit*), seq(vec![r::opt(al()), r::star(seq(vec![al(), drop1(dg())])), r::star(dg())]);
            parser!(alpha? (y:alpha digit => y)+ digit*), seq(vec![r::opt(al()), r::plus(seq(vec![al(), drop1(dg())])), r::star(dg())]);
        }
    }
    h_g_group_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(("," alpha)? any_char?), seq(vec![r::opt(seq(vec![lit(","), al()])), r::opt(r::any())]);
            parser!(("," alpha?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(al())])), r::opt(r::any())]);
            parser!(("," alpha*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(al())])), r::opt(r::any())]);
            parser!(("," alpha+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(al())])), r::opt(r::any())]);
            parser!(("," "a")? any_char?), seq(vec![r::opt(seq(vec![lit(","), lit("a")])), r::opt(r::any())]);
            parser!(("," "a"?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(lit("a"))])), r::opt(r::any())]);
            parser!(("," "a"*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(lit("a"))])), r::opt(r::any())]);
            parser!(("," "a"+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(lit("a"))])), r::opt(r::any())]);
            parser!(("," '1')? any_char?), seq(vec![r::opt(seq(vec![lit(","), lit("1")])), r::opt(r::any())]);
            parser!(("," '1'?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(lit("1"))])), r::opt(r::any())]);
            parser!(("," '1'*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(lit("1"))])), r::opt(r::any())]);
            parser!(("," '1'+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(lit("1"))])), r::opt(r::any())]);
            parser!(("," string(alpha))? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::string(al())])), r::opt(r::any())]);
            parser!(("," string(alpha)?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(r::string(al()))])), r::opt(r::any())]);
            parser!(("," string(alpha)*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(r::string(al()))])), r::opt(r::any())]);
            parser!(("," string(alpha)+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(r::string(al()))])), r::opt(r::any())]);
            parser!(("," char_of("a,"))? any_char?), seq(vec![r::opt(seq(vec![lit(","), G::CharOf("a,")])), r::opt(r::any())]);
            parser!(("," char_of("a,")?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(G::CharOf("a,"))])), r::opt(r::any())]);
            parser!(("," char_of("a,")*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(G::CharOf("a,"))])), r::opt(r::any())]);
            parser!(("," char_of("a,")+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(G::CharOf("a,"))])), r::opt(r::any())]);
            parser!(("," (alpha digit))? any_char?), seq(vec![r::opt(seq(vec![lit(","), seq(vec![al(), dg()])])), r::opt(r::any())]);
            parser!(("," (alpha digit)?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(seq(vec![al(), dg()]))])), r::opt(r::any())]);
            parser!(("," (alpha digit)*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(seq(vec![al(), dg()]))])), r::opt(r::any())]);
            parser!(("," (alpha digit)+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(seq(vec![al(), dg()]))])), r::opt(r::any())]);
        }
    }
    h_g_group_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(("," (digit))? any_char?), seq(vec![r::opt(seq(vec![lit(","), dg()])), r::opt(r::any())]);
            parser!(("," (digit)?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(dg())])), r::opt(r::any())]);
            parser!(("," (digit)*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(dg())])), r::opt(r::any())]);
            parser!(("," (digit)+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(dg())])), r::opt(r::any())]);
            parser!(("," ("a" "1"?))? any_char?), seq(vec![r::opt(seq(vec![lit(","), seq(vec![lit("a"), r::opt(lit("1"))])])), r::opt(r::any())]);
            parser!(("," ("a" "1"?)?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))])), r::opt(r::any())]);
            parser!(("," ("a" "1"?)*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))])), r::opt(r::any())]);
            parser!(("," ("a" "1"?)+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))])), r::opt(r::any())]);
            parser!(("," {char_of("1"), digit})? any_char?), seq(vec![r::opt(seq(vec![lit(","), alt(vec![G::CharOf("1"), dg()])])), r::opt(r::any())]);
            parser!(("," {char_of("1"), digit}?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(alt(vec![G::CharOf("1"), dg()]))])), r::opt(r::any())]);
            parser!(("," {char_of("1"), digit}*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(alt(vec![G::CharOf("1"), dg()]))])), r::opt(r::any())]);
            parser!(("," {char_of("1"), digit}+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(alt(vec![G::CharOf("1"), dg()]))])), r::opt(r::any())]);
            parser!(("," {"a" => 7u64, y:digit => y as u64})? any_char?), seq(vec![r::opt(seq(vec![lit(","), alt(vec![t(7, lit("a")), dg()])])), r::opt(r::any())]);
            parser!(("," {"a" => 7u64, y:digit => y as u64}?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(alt(vec![t(7, lit("a")), dg()]))])), r::opt(r::any())]);
            parser!(("," {"a" => 7u64, y:digit => y as u64}*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(alt(vec![t(7, lit("a")), dg()]))])), r::opt(r::any())]);
            parser!(("," {"a" => 7u64, y:digit => y as u64}+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(alt(vec![t(7, lit("a")), dg()]))])), r::opt(r::any())]);
            parser!(("," {alpha})? any_char?), seq(vec![r::opt(seq(vec![lit(","), al()])), r::opt(r::any())]);
            parser!(("," {alpha}?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(al())])), r::opt(r::any())]);
            parser!(("," {alpha}*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(al())])), r::opt(r::any())]);
            parser!(("," {alpha}+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(al())])), r::opt(r::any())]);
            parser!(("," (y:alpha digit => y))? any_char?), seq(vec![r::opt(seq(vec![lit(","), seq(vec![al(), drop1(dg())])])), r::opt(r::any())]);
            parser!(("," (y:alpha digit => y)?)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(seq(vec![al(), drop1(dg())]))])), r::opt(r::any())]);
            parser!(("," (y:alpha digit => y)*)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(seq(vec![al(), drop1(dg())]))])), r::opt(r::any())]);
            parser!(("," (y:alpha digit => y)+)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(seq(vec![al(), drop1(dg())]))])), r::opt(r::any())]);
        }
    }
    h_g_arms_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!({"," alpha, alpha ",", alpha}), alt(vec![seq(vec![lit(","), al()]), seq(vec![al(), lit(",")]), al()]);
            parser!({"," alpha?, alpha? ",", alpha?}), alt(vec![seq(vec![lit(","), r::opt(al())]), seq(vec![r::opt(al()), lit(",")]), r::opt(al())]);
            parser!({"," alpha*, alpha* ",", alpha*}), alt(vec![seq(vec![lit(","), r::star(al())]), seq(vec![r::star(al()), lit(",")]), r::star(al())]);
            parser!({"," alpha+, alpha+ ",", alpha+}), alt(vec![seq(vec![lit(","), r::plus(al())]), seq(vec![r::plus(al()), lit(",")]), r::plus(al())]);
            parser!({"," "a", "a" ",", "a"}), alt(vec![seq(vec![lit(","), lit("a")]), seq(vec![lit("a"), lit(",")]), lit("a")]);
            parser!({"," "a"?, "a"? ",", "a"?}), alt(vec![seq(vec![lit(","), r::opt(lit("a"))]), seq(vec![r::opt(lit("a")), lit(",")]), r::opt(lit("a"))]);
            parser!({"," "a"*, "a"* ",", "a"*}), alt(vec![seq(vec![lit(","), r::star(lit("a"))]), seq(vec![r::star(lit("a")), lit(",")]), r::star(lit("a"))]);
            parser!({"," "a"+, "a"+ ",", "a"+}), alt(vec![seq(vec![lit(","), r::plus(lit("a"))]), seq(vec![r::plus(lit("a")), lit(",")]), r::plus(lit("a"))]);
            parser!({"," '1', '1' ",", '1'}), alt(vec![seq(vec![lit(","), lit("1")]), seq(vec![lit("1"), lit(",")]), lit("1")]);
            parser!({"," '1'?, '1'? ",", '1'?}), alt(vec![seq(vec![lit(","), r::opt(lit("1"))]), seq(vec![r::opt(lit("1")), lit(",")]), r::opt(lit("1"))]);
            parser!({"," '1'*, '1'* ",", '1'*}), alt(vec![seq(vec![lit(","), r::star(lit("1"))]), seq(vec![r::star(lit("1")), lit(",")]), r::star(lit("1"))]);
            parser!({"," '1'+, '1'+ ",", '1'+}), alt(vec![seq(vec![lit(","), r::plus(lit("1"))]), seq(vec![r::plus(lit("1")), lit(",")]), r::plus(lit("1"))]);
            parser!({"," string(alpha), string(alpha) ",", string(alpha)}), alt(vec![seq(vec![lit(","), r::string(al())]), seq(vec![r::string(al()), lit(",")]), r::string(al())]);
            parser!({"," string(alpha)?, string(alpha)? ",", string(alpha)?}), alt(vec![seq(vec![lit(","), r::opt(r::string(al()))]), seq(vec![r::opt(r::string(al())), lit(",")]), r::opt(r::string(al()))]);
            parser!({"," string(alpha)*, string(alpha)* ",", string(alpha)*}), alt(vec![seq(vec![lit(","), r::star(r::string(al()))]), seq(vec![r::star(r::string(al())), lit(",")]), r::star(r::string(al()))]);
            parser!({"," string(alpha)+, string(alpha)+ ",", string(alpha)+}), alt(vec![seq(vec![lit(","), r::plus(r::string(al()))]), seq(vec![r::plus(r::string(al())), lit(",")]), r::plus(r::string(al()))]);
            parser!({"," char_of("a,"), char_of("a,") ",", char_of("a,")}), alt(vec![seq(vec![lit(","), G::CharOf("a,")]), seq(vec![G::CharOf("a,"), lit(",")]), G::CharOf("a,")]);
            parser!({"," char_of("a,")?, char_of("a,")? ",", char_of("a,")?}), alt(vec![seq(vec![lit(","), r::opt(G::CharOf("a,"))]), seq(vec![r::opt(G::CharOf("a,")), lit(",")]), r::opt(G::CharOf("a,"))]);
            parser!({"," char_of("a,")*, char_of("a,")* ",", char_of("a,")*}), alt(vec![seq(vec![lit(","), r::star(G::CharOf("a,"))]), seq(vec![r::star(G::CharOf("a,")), lit(",")]), r::star(G::CharOf("a,"))]);
            parser!({"," char_of("a,")+, char_of("a,")+ ",", char_of("a,")+}), alt(vec![seq(vec![lit(","), r::plus(G::CharOf("a,"))]), seq(vec![r::plus(G::CharOf("a,")), lit(",")]), r::plus(G::CharOf("a,"))]);
            parser!({"," (alpha digit), (alpha digit) ",", (alpha digit)}), alt(vec![seq(vec![lit(","), seq(vec![al(), dg()])]), seq(vec![seq(vec![al(), dg()]), lit(",")]), seq(vec![al(), dg()])]);
            parser!({"," (alpha digit)?, (alpha digit)? ",", (alpha digit)?}), alt(vec![seq(vec![lit(","), r::opt(seq(vec![al(), dg()]))]), seq(vec![r::opt(seq(vec![al(), dg()])), lit(",")]), r::opt(seq(vec![al(), dg()]))]);
            parser!({"," (alpha digit)*, (alpha digit)* ",", (alpha digit)*}), alt(vec![seq(vec![lit(","), r::star(seq(vec![al(), dg()]))]), seq(vec![r::star(seq(vec![al(), dg()])), lit(",")]), r::star(seq(vec![al(), dg()]))]);
            parser!({"," (alpha digit)+, (alpha digit)+ ",", (alpha digit)+}), alt(vec![seq(vec![lit(","), r::plus(seq(vec![al(), dg()]))]), seq(vec![r::plus(seq(vec![al(), dg()])), lit(",")]), r::plus(seq(vec![al(), dg()]))]);
        }
    }
    h_g_arms_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!({"," (digit), (digit) ",", (digit)}), alt(vec![seq(vec![lit(","), dg()]), seq(vec![dg(), lit(",")]), dg()]);
            parser!({"," (digit)?, (digit)? ",", (digit)?}), alt(vec![seq(vec![lit(","), r::opt(dg())]), seq(vec![r::opt(dg()), lit(",")]), r::opt(dg())]);
            parser!({"," (digit)*, (digit)* ",", (digit)*}), alt(vec![seq(vec![lit(","), r::star(dg())]), seq(vec![r::star(dg()), lit(",")]), r::star(dg())]);
            parser!({"," (digit)+, (digit)+ ",", (digit)+}), alt(vec![seq(vec![lit(","), r::plus(dg())]), seq(vec![r::plus(dg()), lit(",")]), r::plus(dg())]);
            parser!({"," ("a" "1"?), ("a" "1"?) ",", ("a" "1"?)}), alt(vec![seq(vec![lit(","), seq(vec![lit("a"), r::opt(lit("1"))])]), seq(vec![seq(vec![lit("a"), r::opt(lit("1"))]), lit(",")]), seq(vec![lit("a"), r::opt(lit("1"))])]);
            parser!({"," ("a" "1"?)?, ("a" "1"?)? ",", ("a" "1"?)?}), alt(vec![seq(vec![lit(","), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))]), seq(vec![r::opt(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")]), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!({"," ("a" "1"?)*, ("a" "1"?)* ",", ("a" "1"?)*}), alt(vec![seq(vec![lit(","), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))]), seq(vec![r::star(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")]), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!({"," ("a" "1"?)+, ("a" "1"?)+ ",", ("a" "1"?)+}), alt(vec![seq(vec![lit(","), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))]), seq(vec![r::plus(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")]), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!({"," {char_of("1"), digit}, {char_of("1"), digit} ",", {char_of("1"), digit}}), alt(vec![seq(vec![lit(","), alt(vec![G::CharOf("1"), dg()])]), seq(vec![alt(vec![G::CharOf("1"), dg()]), lit(",")]), alt(vec![G::CharOf("1"), dg()])]);
            parser!({"," {char_of("1"), digit}?, {char_of("1"), digit}? ",", {char_of("1"), digit}?}), alt(vec![seq(vec![lit(","), r::opt(alt(vec![G::CharOf("1"), dg()]))]), seq(vec![r::opt(alt(vec![G::CharOf("1"), dg()])), lit(",")]), r::opt(alt(vec![G::CharOf("1"), dg()]))]);
            parser!({"," {char_of("1"), digit}*, {char_of("1"), digit}* ",", {char_of("1"), digit}*}), alt(vec![seq(vec![lit(","), r::star(alt(vec![G::CharOf("1"), dg()]))]), seq(vec![r::star(alt(vec![G::CharOf("1"), dg()])), lit(",")]), r::star(alt(vec![G::CharOf("1"), dg()]))]);
            parser!({"," {char_of("1"), digit}+, {char_of("1"), digit}+ ",", {char_of("1"), digit}+}), alt(vec![seq(vec![lit(","), r::plus(alt(vec![G::CharOf("1"), dg()]))]), seq(vec![r::plus(alt(vec![G::CharOf("1"), dg()])), lit(",")]), r::plus(alt(vec![G::CharOf("1"), dg()]))]);
            parser!({"," {"a" => 7u64, y:digit => y as u64}, {"a" => 7u64, y:digit => y as u64} ",", {"a" => 7u64, y:digit => y as u64}}), alt(vec![seq(vec![lit(","), alt(vec![t(7, lit("a")), dg()])]), seq(vec![alt(vec![t(7, lit("a")), dg()]), lit(",")]), alt(vec![t(7, lit("a")), dg()])]);
            parser!({"," {"a" => 7u64, y:digit => y as u64}?, {"a" => 7u64, y:digit => y as u64}? ",", {"a" => 7u64, y:digit => y as u64}?}), alt(vec![seq(vec![lit(","), r::opt(alt(vec![t(7, lit("a")), dg()]))]), seq(vec![r::opt(alt(vec![t(7, lit("a")), dg()])), lit(",")]), r::opt(alt(vec![t(7, lit("a")), dg()]))]);
            parser!({"," {"a" => 7u64, y:digit => y as u64}*, {"a" => 7u64, y:digit => y as u64}* ",", {"a" => 7u64, y:digit => y as u64}*}), alt(vec![seq(vec![lit(","), r::star(alt(vec![t(7, lit("a")), dg()]))]), seq(vec![r::star(alt(vec![t(7, lit("a")), dg()])), lit(",")]), r::star(alt(vec![t(7, lit("a")), dg()]))]);
            parser!({"," {"a" => 7u64, y:digit => y as u64}+, {"a" => 7u64, y:digit => y as u64}+ ",", {"a" => 7u64, y:digit => y as u64}+}), alt(vec![seq(vec![lit(","), r::plus(alt(vec![t(7, lit("a")), dg()]))]), seq(vec![r::plus(alt(vec![t(7, lit("a")), dg()])), lit(",")]), r::plus(alt(vec![t(7, lit("a")), dg()]))]);
            parser!({"," {alpha}, {alpha} ",", {alpha}}), alt(vec![seq(vec![lit(","), al()]), seq(vec![al(), lit(",")]), al()]);
            parser!({"," {alpha}?, {alpha}? ",", {alpha}?}), alt(vec![seq(vec![lit(","), r::opt(al())]), seq(vec![r::opt(al()), lit(",")]), r::opt(al())]);
            parser!({"," {alpha}*, {alpha}* ",", {alpha}*}), alt(vec![seq(vec![lit(","), r::star(al())]), seq(vec![r::star(al()), lit(",")]), r::star(al())]);
            parser!({"," {alpha}+, {alpha}+ ",", {alpha}+}), alt(vec![seq(vec![lit(","), r::plus(al())]), seq(vec![r::plus(al()), lit(",")]), r::plus(al())]);
            parser!({"," (y:alpha digit => y), (y:alpha digit => y) ",", (y:alpha digit => y)}), alt(vec![seq(vec![lit(","), seq(vec![al(), drop1(dg())])]), seq(vec![seq(vec![al(), drop1(dg())]), lit(",")]), seq(vec![al(), drop1(dg())])]);
            parser!({"," (y:alpha digit => y)?, (y:alpha digit => y)? ",", (y:alpha digit => y)?}), alt(vec![seq(vec![lit(","), r::opt(seq(vec![al(), drop1(dg())]))]), seq(vec![r::opt(seq(vec![al(), drop1(dg())])), lit(",")]), r::opt(seq(vec![al(), drop1(dg())]))]);
            parser!({"," (y:alpha digit => y)*, (y:alpha digit => y)* ",", (y:alpha digit => y)*}), alt(vec![seq(vec![lit(","), r::star(seq(vec![al(), drop1(dg())]))]), seq(vec![r::star(seq(vec![al(), drop1(dg())])), lit(",")]), r::star(seq(vec![al(), drop1(dg())]))]);
            parser!({"," (y:alpha digit => y)+, (y:alpha digit => y)+ ",", (y:alpha digit => y)+}), alt(vec![seq(vec![lit(","), r::plus(seq(vec![al(), drop1(dg())]))]), seq(vec![r::plus(seq(vec![al(), drop1(dg())])), lit(",")]), r::plus(seq(vec![al(), drop1(dg())]))]);
        }
    }
    h_g_map_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(alpha => 5u64), t(5, drop1(al()));
            parser!(alpha? => 5u64), t(5, drop1(r::opt(al())));
            parser!(alpha* => 5u64), t(5, drop1(r::star(al())));
            parser!(alpha+ => 5u64), t(5, drop1(r::plus(al())));
            parser!("a" => 5u64), t(5, drop1(lit("a")));
            parser!("a"? => 5u64), t(5, drop1(r::opt(lit("a"))));
            parser!("a"* => 5u64), t(5, drop1(r::star(lit("a"))));
            parser!("a"+ => 5u64), t(5, drop1(r::plus(lit("a"))));
            parser!('1' => 5u64), t(5, drop1(lit("1")));
            parser!('1'? => 5u64), t(5, drop1(r::opt(lit("1"))));
            parser!('1'* => 5u64), t(5, drop1(r::star(lit("1"))));
            parser!('1'+ => 5u64), t(5, drop1(r::plus(lit("1"))));
            parser!(string(alpha) => 5u64), t(5, drop1(r::string(al())));
            parser!(string(alpha)? => 5u64), t(5, drop1(r::opt(r::string(al()))));
            parser!(string(alpha)* => 5u64), t(5, drop1(r::star(r::string(al()))));
            parser!(string(alpha)+ => 5u64), t(5, drop1(r::plus(r::string(al()))));
            parser!(char_of("a,") => 5u64), t(5, drop1(G::CharOf("a,")));
            parser!(char_of("a,")? => 5u64), t(5, drop1(r::opt(G::CharOf("a,"))));
            parser!(char_of("a,")* => 5u64), t(5, drop1(r::star(G::CharOf("a,"))));
            parser!(char_of("a,")+ => 5u64), t(5, drop1(r::plus(G::CharOf("a,"))));
            parser!((alpha digit) => 5u64), t(5, drop1(seq(vec![al(), dg()])));
            parser!((alpha digit)? => 5u64), t(5, drop1(r::opt(seq(vec![al(), dg()]))));
            parser!((alpha digit)* => 5u64), t(5, drop1(r::star(seq(vec![al(), dg()]))));
            parser!((alpha digit)+ => 5u64), t(5, drop1(r::plus(seq(vec![al(), dg()]))));
        }
    }
    h_g_map_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!((digit) => 5u64), t(5, drop1(dg()));
            parser!((digit)? => 5u64), t(5, drop1(r::opt(dg())));
            parser!((digit)* => 5u64), t(5, drop1(r::star(dg())));
            parser!((digit)+ => 5u64), t(5, drop1(r::plus(dg())));
            parser!(("a" "1"?) => 5u64), t(5, drop1(seq(vec![lit("a"), r::opt(lit("1"))])));
            parser!(("a" "1"?)? => 5u64), t(5, drop1(r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))));
            parser!(("a" "1"?)* => 5u64), t(5, drop1(r::star(seq(vec![lit("a"), r::opt(lit("1"))]))));
            parser!(("a" "1"?)+ => 5u64), t(5, drop1(r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))));
            parser!({char_of("1"), digit} => 5u64), t(5, drop1(alt(vec![G::CharOf("1"), dg()])));
            parser!({char_of("1"), digit}? => 5u64), t(5, drop1(r::opt(alt(vec![G::CharOf("1"), dg()]))));
            parser!({char_of("1"), digit}* => 5u64), t(5, drop1(r::star(alt(vec![G::CharOf("1"), dg()]))));
            parser!({char_of("1"), digit}+ => 5u64), t(5, drop1(r::plus(alt(vec![G::CharOf("1"), dg()]))));
            parser!({"a" => 7u64, y:digit => y as u64} => 5u64), t(5, drop1(alt(vec![t(7, lit("a")), dg()])));
            parser!({"a" => 7u64, y:digit => y as u64}? => 5u64), t(5, drop1(r::opt(alt(vec![t(7, lit("a")), dg()]))));
            parser!({"a" => 7u64, y:digit => y as u64}* => 5u64), t(5, drop1(r::star(alt(vec![t(7, lit("a")), dg()]))));
            parser!({"a" => 7u64, y:digit => y as u64}+ => 5u64), t(5, drop1(r::plus(alt(vec![t(7, lit("a")), dg()]))));
            parser!({alpha} => 5u64), t(5, drop1(al()));
            parser!({alpha}? => 5u64), t(5, drop1(r::opt(al())));
            parser!({alpha}* => 5u64), t(5, drop1(r::star(al())));
            parser!({alpha}+ => 5u64), t(5, drop1(r::plus(al())));
            parser!((y:alpha digit => y) => 5u64), t(5, drop1(seq(vec![al(), drop1(dg())])));
            parser!((y:alpha digit => y)? => 5u64), t(5, drop1(r::opt(seq(vec![al(), drop1(dg())]))));
            parser!((y:alpha digit => y)* => 5u64), t(5, drop1(r::star(seq(vec![al(), drop1(dg())]))));
            parser!((y:alpha digit => y)+ => 5u64), t(5, drop1(r::plus(seq(vec![al(), drop1(dg())]))));
        }
    }
    h_g_mapmid_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!('a' alpha "," => 5u64), t(5, seq(vec![lit("a"), drop1(al()), lit(",")]));
            parser!('a' alpha? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(al())), lit(",")]));
            parser!('a' alpha* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(al())), lit(",")]));
            parser!('a' alpha+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(al())), lit(",")]));
            parser!('a' "a" "," => 5u64), t(5, seq(vec![lit("a"), drop1(lit("a")), lit(",")]));
            parser!('a' "a"? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(lit("a"))), lit(",")]));
            parser!('a' "a"* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(lit("a"))), lit(",")]));
            parser!('a' "a"+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(lit("a"))), lit(",")]));
            parser!('a' '1' "," => 5u64), t(5, seq(vec![lit("a"), drop1(lit("1")), lit(",")]));
            parser!('a' '1'? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(lit("1"))), lit(",")]));
            parser!('a' '1'* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(lit("1"))), lit(",")]));
            parser!('a' '1'+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(lit("1"))), lit(",")]));
            parser!('a' string(alpha) "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::string(al())), lit(",")]));
            parser!('a' string(alpha)? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(r::string(al()))), lit(",")]));
            parser!('a' string(alpha)* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(r::string(al()))), lit(",")]));
            parser!('a' string(alpha)+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(r::string(al()))), lit(",")]));
            parser!('a' char_of("a,") "," => 5u64), t(5, seq(vec![lit("a"), drop1(G::CharOf("a,")), lit(",")]));
            parser!('a' char_of("a,")? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(G::CharOf("a,"))), lit(",")]));
            parser!('a' char_of("a,")* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(G::CharOf("a,"))), lit(",")]));
            parser!('a' char_of("a,")+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(G::CharOf("a,"))), lit(",")]));
            parser!('a' (alpha digit) "," => 5u64), t(5, seq(vec![lit("a"), drop1(seq(vec![al(), dg()])), lit(",")]));
            parser!('a' (alpha digit)? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(seq(vec![al(), dg()]))), lit(",")]));
            parser!('a' (alpha digit)* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(seq(vec![al(), dg()]))), lit(",")]));
            parser!('a' (alpha digit)+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(seq(vec![al(), dg()]))), lit(",")]));
        }
    }
    h_g_mapmid_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!('a' (digit) "," => 5u64), t(5, seq(vec![lit("a"), drop1(dg()), lit(",")]));
            parser!('a' (digit)? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(dg())), lit(",")]));
            parser!('a' (digit)* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(dg())), lit(",")]));
            parser!('a' (digit)+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(dg())), lit(",")]));
            parser!('a' ("a" "1"?) "," => 5u64), t(5, seq(vec![lit("a"), drop1(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")]));
            parser!('a' ("a" "1"?)? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))), lit(",")]));
            parser!('a' ("a" "1"?)* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(seq(vec![lit("a"), r::opt(lit("1"))]))), lit(",")]));
            parser!('a' ("a" "1"?)+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))), lit(",")]));
            parser!('a' {char_of("1"), digit} "," => 5u64), t(5, seq(vec![lit("a"), drop1(alt(vec![G::CharOf("1"), dg()])), lit(",")]));
            parser!('a' {char_of("1"), digit}? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(alt(vec![G::CharOf("1"), dg()]))), lit(",")]));
            parser!('a' {char_of("1"), digit}* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(alt(vec![G::CharOf("1"), dg()]))), lit(",")]));
            parser!('a' {char_of("1"), digit}+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(alt(vec![G::CharOf("1"), dg()]))), lit(",")]));
            parser!('a' {"a" => 7u64, y:digit => y as u64} "," => 5u64), t(5, seq(vec![lit("a"), drop1(alt(vec![t(7, lit("a")), dg()])), lit(",")]));
            parser!('a' {"a" => 7u64, y:digit => y as u64}? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(alt(vec![t(7, lit("a")), dg()]))), lit(",")]));
            parser!('a' {"a" => 7u64, y:digit => y as u64}* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(alt(vec![t(7, lit("a")), dg()]))), lit(",")]));
            parser!('a' {"a" => 7u64, y:digit => y as u64}+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(alt(vec![t(7, lit("a")), dg()]))), lit(",")]));
            parser!('a' {alpha} "," => 5u64), t(5, seq(vec![lit("a"), drop1(al()), lit(",")]));
            parser!('a' {alpha}? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(al())), lit(",")]));
            parser!('a' {alpha}* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(al())), lit(",")]));
            parser!('a' {alpha}+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(al())), lit(",")]));
            parser!('a' (y:alpha digit => y) "," => 5u64), t(5, seq(vec![lit("a"), drop1(seq(vec![al(), drop1(dg())])), lit(",")]));
            parser!('a' (y:alpha digit => y)? "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::opt(seq(vec![al(), drop1(dg())]))), lit(",")]));
            parser!('a' (y:alpha digit => y)* "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::star(seq(vec![al(), drop1(dg())]))), lit(",")]));
            parser!('a' (y:alpha digit => y)+ "," => 5u64), t(5, seq(vec![lit("a"), drop1(r::plus(seq(vec![al(), drop1(dg())]))), lit(",")]));
        }
    }
    h_g_arg_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(string("," alpha) "a"?), seq(vec![r::string(seq(vec![lit(","), al()])), r::opt(lit("a"))]);
            parser!(string("," alpha?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(al())])), r::opt(lit("a"))]);
            parser!(string("," alpha*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(al())])), r::opt(lit("a"))]);
            parser!(string("," alpha+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(al())])), r::opt(lit("a"))]);
            parser!(string("," "a") "a"?), seq(vec![r::string(seq(vec![lit(","), lit("a")])), r::opt(lit("a"))]);
            parser!(string("," "a"?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(lit("a"))])), r::opt(lit("a"))]);
            parser!(string("," "a"*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(lit("a"))])), r::opt(lit("a"))]);
            parser!(string("," "a"+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(lit("a"))])), r::opt(lit("a"))]);
            parser!(string("," '1') "a"?), seq(vec![r::string(seq(vec![lit(","), lit("1")])), r::opt(lit("a"))]);
            parser!(string("," '1'?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(lit("1"))])), r::opt(lit("a"))]);
            parser!(string("," '1'*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(lit("1"))])), r::opt(lit("a"))]);
            parser!(string("," '1'+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(lit("1"))])), r::opt(lit("a"))]);
            parser!(string("," string(alpha)) "a"?), seq(vec![r::string(seq(vec![lit(","), r::string(al())])), r::opt(lit("a"))]);
            parser!(string("," string(alpha)?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(r::string(al()))])), r::opt(lit("a"))]);
            parser!(string("," string(alpha)*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(r::string(al()))])), r::opt(lit("a"))]);
            parser!(string("," string(alpha)+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(r::string(al()))])), r::opt(lit("a"))]);
            parser!(string("," char_of("a,")) "a"?), seq(vec![r::string(seq(vec![lit(","), G::CharOf("a,")])), r::opt(lit("a"))]);
            parser!(string("," char_of("a,")?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(G::CharOf("a,"))])), r::opt(lit("a"))]);
            parser!(string("," char_of("a,")*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(G::CharOf("a,"))])), r::opt(lit("a"))]);
            parser!(string("," char_of("a,")+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(G::CharOf("a,"))])), r::opt(lit("a"))]);
            parser!(string("," (alpha digit)) "a"?), seq(vec![r::string(seq(vec![lit(","), seq(vec![al(), dg()])])), r::opt(lit("a"))]);
            parser!(string("," (alpha digit)?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(seq(vec![al(), dg()]))])), r::opt(lit("a"))]);
            parser!(string("," (alpha digit)*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(seq(vec![al(), dg()]))])), r::opt(lit("a"))]);
            parser!(string("," (alpha digit)+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(seq(vec![al(), dg()]))])), r::opt(lit("a"))]);
        }
    }
    h_g_arg_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(string("," (digit)) "a"?), seq(vec![r::string(seq(vec![lit(","), dg()])), r::opt(lit("a"))]);
            parser!(string("," (digit)?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(dg())])), r::opt(lit("a"))]);
            parser!(string("," (digit)*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(dg())])), r::opt(lit("a"))]);
            parser!(string("," (digit)+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(dg())])), r::opt(lit("a"))]);
            parser!(string("," ("a" "1"?)) "a"?), seq(vec![r::string(seq(vec![lit(","), seq(vec![lit("a"), r::opt(lit("1"))])])), r::opt(lit("a"))]);
            parser!(string("," ("a" "1"?)?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))])), r::opt(lit("a"))]);
            parser!(string("," ("a" "1"?)*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))])), r::opt(lit("a"))]);
            parser!(string("," ("a" "1"?)+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))])), r::opt(lit("a"))]);
            parser!(string("," {char_of("1"), digit}) "a"?), seq(vec![r::string(seq(vec![lit(","), alt(vec![G::CharOf("1"), dg()])])), r::opt(lit("a"))]);
            parser!(string("," {char_of("1"), digit}?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(alt(vec![G::CharOf("1"), dg()]))])), r::opt(lit("a"))]);
            parser!(string("," {char_of("1"), digit}*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(alt(vec![G::CharOf("1"), dg()]))])), r::opt(lit("a"))]);
            parser!(string("," {char_of("1"), digit}+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(alt(vec![G::CharOf("1"), dg()]))])), r::opt(lit("a"))]);
            parser!(string("," {"a" => 7u64, y:digit => y as u64}) "a"?), seq(vec![r::string(seq(vec![lit(","), alt(vec![t(7, lit("a")), dg()])])), r::opt(lit("a"))]);
            parser!(string("," {"a" => 7u64, y:digit => y as u64}?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(alt(vec![t(7, lit("a")), dg()]))])), r::opt(lit("a"))]);
            parser!(string("," {"a" => 7u64, y:digit => y as u64}*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(alt(vec![t(7, lit("a")), dg()]))])), r::opt(lit("a"))]);
            parser!(string("," {"a" => 7u64, y:digit => y as u64}+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(alt(vec![t(7, lit("a")), dg()]))])), r::opt(lit("a"))]);
            parser!(string("," {alpha}) "a"?), seq(vec![r::string(seq(vec![lit(","), al()])), r::opt(lit("a"))]);
            parser!(string("," {alpha}?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(al())])), r::opt(lit("a"))]);
            parser!(string("," {alpha}*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(al())])), r::opt(lit("a"))]);
            parser!(string("," {alpha}+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(al())])), r::opt(lit("a"))]);
            parser!(string("," (y:alpha digit => y)) "a"?), seq(vec![r::string(seq(vec![lit(","), seq(vec![al(), drop1(dg())])])), r::opt(lit("a"))]);
            parser!(string("," (y:alpha digit => y)?) "a"?), seq(vec![r::string(seq(vec![lit(","), r::opt(seq(vec![al(), drop1(dg())]))])), r::opt(lit("a"))]);
            parser!(string("," (y:alpha digit => y)*) "a"?), seq(vec![r::string(seq(vec![lit(","), r::star(seq(vec![al(), drop1(dg())]))])), r::opt(lit("a"))]);
            parser!(string("," (y:alpha digit => y)+) "a"?), seq(vec![r::string(seq(vec![lit(","), r::plus(seq(vec![al(), drop1(dg())]))])), r::opt(lit("a"))]);
        }
    }
    h_g_lab_sole_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(x:alpha => (3u64, x)), t(3, al());
            parser!(x:alpha? => (3u64, x)), t(3, r::opt(al()));
            parser!(x:alpha* => (3u64, x)), t(3, r::star(al()));
            parser!(x:alpha+ => (3u64, x)), t(3, r::plus(al()));
            parser!(x:"a" => (3u64, x)), t(3, lit("a"));
            parser!(x:"a"? => (3u64, x)), t(3, r::opt(lit("a")));
            parser!(x:"a"* => (3u64, x)), t(3, r::star(lit("a")));
            parser!(x:"a"+ => (3u64, x)), t(3, r::plus(lit("a")));
            parser!(x:'1' => (3u64, x)), t(3, lit("1"));
            parser!(x:'1'? => (3u64, x)), t(3, r::opt(lit("1")));
            parser!(x:'1'* => (3u64, x)), t(3, r::star(lit("1")));
            parser!(x:'1'+ => (3u64, x)), t(3, r::plus(lit("1")));
            parser!(x:string(alpha) => (3u64, x)), t(3, r::string(al()));
            parser!(x:string(alpha)? => (3u64, x)), t(3, r::opt(r::string(al())));
            parser!(x:string(alpha)* => (3u64, x)), t(3, r::star(r::string(al())));
            parser!(x:string(alpha)+ => (3u64, x)), t(3, r::plus(r::string(al())));
            parser!(x:char_of("a,") => (3u64, x)), t(3, G::CharOf("a,"));
            parser!(x:char_of("a,")? => (3u64, x)), t(3, r::opt(G::CharOf("a,")));
            parser!(x:char_of("a,")* => (3u64, x)), t(3, r::star(G::CharOf("a,")));
            parser!(x:char_of("a,")+ => (3u64, x)), t(3, r::plus(G::CharOf("a,")));
            parser!(x:(alpha digit) => (3u64, x)), t(3, seq(vec![al(), dg()]));
            parser!(x:(alpha digit)? => (3u64, x)), t(3, r::opt(seq(vec![al(), dg()])));
            parser!(x:(alpha digit)* => (3u64, x)), t(3, r::star(seq(vec![al(), dg()])));
            parser!(x:(alpha digit)+ => (3u64, x)), t(3, r::plus(seq(vec![al(), dg()])));
        }
    }
    h_g_lab_sole_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(x:(digit) => (3u64, x)), t(3, dg());
            parser!(x:(digit)? => (3u64, x)), t(3, r::opt(dg()));
            parser!(x:(digit)* => (3u64, x)), t(3, r::star(dg()));
            parser!(x:(digit)+ => (3u64, x)), t(3, r::plus(dg()));
            parser!(x:("a" "1"?) => (3u64, x)), t(3, seq(vec![lit("a"), r::opt(lit("1"))]));
            parser!(x:("a" "1"?)? => (3u64, x)), t(3, r::opt(seq(vec![lit("a"), r::opt(lit("1"))])));
            parser!(x:("a" "1"?)* => (3u64, x)), t(3, r::star(seq(vec![lit("a"), r::opt(lit("1"))])));
            parser!(x:("a" "1"?)+ => (3u64, x)), t(3, r::plus(seq(vec![lit("a"), r::opt(lit("1"))])));
            parser!(x:{char_of("1"), digit} => (3u64, x)), t(3, alt(vec![G::CharOf("1"), dg()]));
            parser!(x:{char_of("1"), digit}? => (3u64, x)), t(3, r::opt(alt(vec![G::CharOf("1"), dg()])));
            parser!(x:{char_of("1"), digit}* => (3u64, x)), t(3, r::star(alt(vec![G::CharOf("1"), dg()])));
            parser!(x:{char_of("1"), digit}+ => (3u64, x)), t(3, r::plus(alt(vec![G::CharOf("1"), dg()])));
            parser!(x:{"a" => 7u64, y:digit => y as u64} => (3u64, x)), t(3, alt(vec![t(7, lit("a")), dg()]));
            parser!(x:{"a" => 7u64, y:digit => y as u64}? => (3u64, x)), t(3, r::opt(alt(vec![t(7, lit("a")), dg()])));
            parser!(x:{"a" => 7u64, y:digit => y as u64}* => (3u64, x)), t(3, r::star(alt(vec![t(7, lit("a")), dg()])));
            parser!(x:{"a" => 7u64, y:digit => y as u64}+ => (3u64, x)), t(3, r::plus(alt(vec![t(7, lit("a")), dg()])));
            parser!(x:{alpha} => (3u64, x)), t(3, al());
            parser!(x:{alpha}? => (3u64, x)), t(3, r::opt(al()));
            parser!(x:{alpha}* => (3u64, x)), t(3, r::star(al()));
            parser!(x:{alpha}+ => (3u64, x)), t(3, r::plus(al()));
            parser!(x:(y:alpha digit => y) => (3u64, x)), t(3, seq(vec![al(), drop1(dg())]));
            parser!(x:(y:alpha digit => y)? => (3u64, x)), t(3, r::opt(seq(vec![al(), drop1(dg())])));
            parser!(x:(y:alpha digit => y)* => (3u64, x)), t(3, r::star(seq(vec![al(), drop1(dg())])));
            parser!(x:(y:alpha digit => y)+ => (3u64, x)), t(3, r::plus(seq(vec![al(), drop1(dg())])));
        }
    }
    h_g_lab_first_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(x:alpha "," => (3u64, x)), t(3, seq(vec![al(), lit(",")]));
            parser!(x:alpha? "," => (3u64, x)), t(3, seq(vec![r::opt(al()), lit(",")]));
            parser!(x:alpha* "," => (3u64, x)), t(3, seq(vec![r::star(al()), lit(",")]));
            parser!(x:alpha+ "," => (3u64, x)), t(3, seq(vec![r::plus(al()), lit(",")]));
            parser!(x:"a" "," => (3u64, x)), t(3, seq(vec![lit("a"), lit(",")]));
            parser!(x:"a"? "," => (3u64, x)), t(3, seq(vec![r::opt(lit("a")), lit(",")]));
            parser!(x:"a"* "," => (3u64, x)), t(3, seq(vec![r::star(lit("a")), lit(",")]));
            parser!(x:"a"+ "," => (3u64, x)), t(3, seq(vec![r::plus(lit("a")), lit(",")]));
            parser!(x:'1' "," => (3u64, x)), t(3, seq(vec![lit("1"), lit(",")]));
            parser!(x:'1'? "," => (3u64, x)), t(3, seq(vec![r::opt(lit("1")), lit(",")]));
            parser!(x:'1'* "," => (3u64, x)), t(3, seq(vec![r::star(lit("1")), lit(",")]));
            parser!(x:'1'+ "," => (3u64, x)), t(3, seq(vec![r::plus(lit("1")), lit(",")]));
            parser!(x:string(alpha) "," => (3u64, x)), t(3, seq(vec![r::string(al()), lit(",")]));
            parser!(x:string(alpha)? "," => (3u64, x)), t(3, seq(vec![r::opt(r::string(al())), lit(",")]));
            parser!(x:string(alpha)* "," => (3u64, x)), t(3, seq(vec![r::star(r::string(al())), lit(",")]));
            parser!(x:string(alpha)+ "," => (3u64, x)), t(3, seq(vec![r::plus(r::string(al())), lit(",")]));
            parser!(x:char_of("a,") "," => (3u64, x)), t(3, seq(vec![G::CharOf("a,"), lit(",")]));
            parser!(x:char_of("a,")? "," => (3u64, x)), t(3, seq(vec![r::opt(G::CharOf("a,")), lit(",")]));
            parser!(x:char_of("a,")* "," => (3u64, x)), t(3, seq(vec![r::star(G::CharOf("a,")), lit(",")]));
            parser!(x:char_of("a,")+ "," => (3u64, x)), t(3, seq(vec![r::plus(G::CharOf("a,")), lit(",")]));
            parser!(x:(alpha digit) "," => (3u64, x)), t(3, seq(vec![seq(vec![al(), dg()]), lit(",")]));
            parser!(x:(alpha digit)? "," => (3u64, x)), t(3, seq(vec![r::opt(seq(vec![al(), dg()])), lit(",")]));
            parser!(x:(alpha digit)* "," => (3u64, x)), t(3, seq(vec![r::star(seq(vec![al(), dg()])), lit(",")]));
            parser!(x:(alpha digit)+ "," => (3u64, x)), t(3, seq(vec![r::plus(seq(vec![al(), dg()])), lit(",")]));
        }
    }
    h_g_lab_first_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(x:(digit) "," => (3u64, x)), t(3, seq(vec![dg(), lit(",")]));
            parser!(x:(digit)? "," => (3u64, x)), t(3, seq(vec![r::opt(dg()), lit(",")]));
            parser!(x:(digit)* "," => (3u64, x)), t(3, seq(vec![r::star(dg()), lit(",")]));
            parser!(x:(digit)+ "," => (3u64, x)), t(3, seq(vec![r::plus(dg()), lit(",")]));
            parser!(x:("a" "1"?) "," => (3u64, x)), t(3, seq(vec![seq(vec![lit("a"), r::opt(lit("1"))]), lit(",")]));
            parser!(x:("a" "1"?)? "," => (3u64, x)), t(3, seq(vec![r::opt(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")]));
            parser!(x:("a" "1"?)* "," => (3u64, x)), t(3, seq(vec![r::star(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")]));
            parser!(x:("a" "1"?)+ "," => (3u64, x)), t(3, seq(vec![r::plus(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")]));
            parser!(x:{char_of("1"), digit} "," => (3u64, x)), t(3, seq(vec![alt(vec![G::CharOf("1"), dg()]), lit(",")]));
            parser!(x:{char_of("1"), digit}? "," => (3u64, x)), t(3, seq(vec![r::opt(alt(vec![G::CharOf("1"), dg()])), lit(",")]));
            parser!(x:{char_of("1"), digit}* "," => (3u64, x)), t(3, seq(vec![r::star(alt(vec![G::CharOf("1"), dg()])), lit(",")]));
            parser!(x:{char_of("1"), digit}+ "," => (3u64, x)), t(3, seq(vec![r::plus(alt(vec![G::CharOf("1"), dg()])), lit(",")]));
            parser!(x:{"a" => 7u64, y:digit => y as u64} "," => (3u64, x)), t(3, seq(vec![alt(vec![t(7, lit("a")), dg()]), lit(",")]));
            parser!(x:{"a" => 7u64, y:digit => y as u64}? "," => (3u64, x)), t(3, seq(vec![r::opt(alt(vec![t(7, lit("a")), dg()])), lit(",")]));
            parser!(x:{"a" => 7u64, y:digit => y as u64}* "," => (3u64, x)), t(3, seq(vec![r::star(alt(vec![t(7, lit("a")), dg()])), lit(",")]));
            parser!(x:{"a" => 7u64, y:digit => y as u64}+ "," => (3u64, x)), t(3, seq(vec![r::plus(alt(vec![t(7, lit("a")), dg()])), lit(",")]));
            parser!(x:{alpha} "," => (3u64, x)), t(3, seq(vec![al(), lit(",")]));
            parser!(x:{alpha}? "," => (3u64, x)), t(3, seq(vec![r::opt(al()), lit(",")]));
            parser!(x:{alpha}* "," => (3u64, x)), t(3, seq(vec![r::star(al()), lit(",")]));
            parser!(x:{alpha}+ "," => (3u64, x)), t(3, seq(vec![r::plus(al()), lit(",")]));
            parser!(x:(y:alpha digit => y) "," => (3u64, x)), t(3, seq(vec![seq(vec![al(), drop1(dg())]), lit(",")]));
            parser!(x:(y:alpha digit => y)? "," => (3u64, x)), t(3, seq(vec![r::opt(seq(vec![al(), drop1(dg())])), lit(",")]));
            parser!(x:(y:alpha digit => y)* "," => (3u64, x)), t(3, seq(vec![r::star(seq(vec![al(), drop1(dg())])), lit(",")]));
            parser!(x:(y:alpha digit => y)+ "," => (3u64, x)), t(3, seq(vec![r::plus(seq(vec![al(), drop1(dg())])), lit(",")]));
        }
    }
    h_g_lab_last_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(any_char "a" x:alpha => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), al()]));
            parser!(any_char "a" x:alpha? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(al())]));
            parser!(any_char "a" x:alpha* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(al())]));
            parser!(any_char "a" x:alpha+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(al())]));
            parser!(any_char "a" x:"a" => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), lit("a")]));
            parser!(any_char "a" x:"a"? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(lit("a"))]));
            parser!(any_char "a" x:"a"* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(lit("a"))]));
            parser!(any_char "a" x:"a"+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(lit("a"))]));
            parser!(any_char "a" x:'1' => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), lit("1")]));
            parser!(any_char "a" x:'1'? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(lit("1"))]));
            parser!(any_char "a" x:'1'* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(lit("1"))]));
            parser!(any_char "a" x:'1'+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(lit("1"))]));
            parser!(any_char "a" x:string(alpha) => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::string(al())]));
            parser!(any_char "a" x:string(alpha)? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(r::string(al()))]));
            parser!(any_char "a" x:string(alpha)* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(r::string(al()))]));
            parser!(any_char "a" x:string(alpha)+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(r::string(al()))]));
            parser!(any_char "a" x:char_of("a,") => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), G::CharOf("a,")]));
            parser!(any_char "a" x:char_of("a,")? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(G::CharOf("a,"))]));
            parser!(any_char "a" x:char_of("a,")* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(G::CharOf("a,"))]));
            parser!(any_char "a" x:char_of("a,")+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(G::CharOf("a,"))]));
            parser!(any_char "a" x:(alpha digit) => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), seq(vec![al(), dg()])]));
            parser!(any_char "a" x:(alpha digit)? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(seq(vec![al(), dg()]))]));
            parser!(any_char "a" x:(alpha digit)* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(seq(vec![al(), dg()]))]));
            parser!(any_char "a" x:(alpha digit)+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(seq(vec![al(), dg()]))]));
        }
    }
    h_g_lab_last_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(any_char "a" x:(digit) => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), dg()]));
            parser!(any_char "a" x:(digit)? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(dg())]));
            parser!(any_char "a" x:(digit)* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(dg())]));
            parser!(any_char "a" x:(digit)+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(dg())]));
            parser!(any_char "a" x:("a" "1"?) => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), seq(vec![lit("a"), r::opt(lit("1"))])]));
            parser!(any_char "a" x:("a" "1"?)? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))]));
            parser!(any_char "a" x:("a" "1"?)* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))]));
            parser!(any_char "a" x:("a" "1"?)+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))]));
            parser!(any_char "a" x:{char_of("1"), digit} => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), alt(vec![G::CharOf("1"), dg()])]));
            parser!(any_char "a" x:{char_of("1"), digit}? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(alt(vec![G::CharOf("1"), dg()]))]));
            parser!(any_char "a" x:{char_of("1"), digit}* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(alt(vec![G::CharOf("1"), dg()]))]));
            parser!(any_char "a" x:{char_of("1"), digit}+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(alt(vec![G::CharOf("1"), dg()]))]));
            parser!(any_char "a" x:{"a" => 7u64, y:digit => y as u64} => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), alt(vec![t(7, lit("a")), dg()])]));
            parser!(any_char "a" x:{"a" => 7u64, y:digit => y as u64}? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(alt(vec![t(7, lit("a")), dg()]))]));
            parser!(any_char "a" x:{"a" => 7u64, y:digit => y as u64}* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(alt(vec![t(7, lit("a")), dg()]))]));
            parser!(any_char "a" x:{"a" => 7u64, y:digit => y as u64}+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(alt(vec![t(7, lit("a")), dg()]))]));
            parser!(any_char "a" x:{alpha} => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), al()]));
            parser!(any_char "a" x:{alpha}? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(al())]));
            parser!(any_char "a" x:{alpha}* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(al())]));
            parser!(any_char "a" x:{alpha}+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(al())]));
            parser!(any_char "a" x:(y:alpha digit => y) => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), seq(vec![al(), drop1(dg())])]));
            parser!(any_char "a" x:(y:alpha digit => y)? => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::opt(seq(vec![al(), drop1(dg())]))]));
            parser!(any_char "a" x:(y:alpha digit => y)* => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::star(seq(vec![al(), drop1(dg())]))]));
            parser!(any_char "a" x:(y:alpha digit => y)+ => (3u64, x)), t(3, seq(vec![drop1(r::any()), lit("a"), r::plus(seq(vec![al(), drop1(dg())]))]));
        }
    }
    h_g_lab_two_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(x:alpha z:any_char => (x, z)), seq(vec![al(), r::any()]);
            parser!(x:alpha? z:any_char => (x, z)), seq(vec![r::opt(al()), r::any()]);
            parser!(x:alpha* z:any_char => (x, z)), seq(vec![r::star(al()), r::any()]);
            parser!(x:alpha+ z:any_char => (x, z)), seq(vec![r::plus(al()), r::any()]);
            parser!(x:"a" z:any_char => (x, z)), seq(vec![lit("a"), r::any()]);
            parser!(x:"a"? z:any_char => (x, z)), seq(vec![r::opt(lit("a")), r::any()]);
            parser!(x:"a"* z:any_char => (x, z)), seq(vec![r::star(lit("a")), r::any()]);
            parser!(x:"a"+ z:any_char => (x, z)), seq(vec![r::plus(lit("a")), r::any()]);
            parser!(x:'1' z:any_char => (x, z)), seq(vec![lit("1"), r::any()]);
            parser!(x:'1'? z:any_char => (x, z)), seq(vec![r::opt(lit("1")), r::any()]);
            parser!(x:'1'* z:any_char => (x, z)), seq(vec![r::star(lit("1")), r::any()]);
            parser!(x:'1'+ z:any_char => (x, z)), seq(vec![r::plus(lit("1")), r::any()]);
            parser!(x:string(alpha) z:any_char => (x, z)), seq(vec![r::string(al()), r::any()]);
            parser!(x:string(alpha)? z:any_char => (x, z)), seq(vec![r::opt(r::string(al())), r::any()]);
            parser!(x:string(alpha)* z:any_char => (x, z)), seq(vec![r::star(r::string(al())), r::any()]);
            parser!(x:string(alpha)+ z:any_char => (x, z)), seq(vec![r::plus(r::string(al())), r::any()]);
            parser!(x:char_of("a,") z:any_char => (x, z)), seq(vec![G::CharOf("a,"), r::any()]);
            parser!(x:char_of("a,")? z:any_char => (x, z)), seq(vec![r::opt(G::CharOf("a,")), r::any()]);
            parser!(x:char_of("a,")* z:any_char => (x, z)), seq(vec![r::star(G::CharOf("a,")), r::any()]);
            parser!(x:char_of("a,")+ z:any_char => (x, z)), seq(vec![r::plus(G::CharOf("a,")), r::any()]);
            parser!(x:(alpha digit) z:any_char => (x, z)), seq(vec![seq(vec![al(), dg()]), r::any()]);
            parser!(x:(alpha digit)? z:any_char => (x, z)), seq(vec![r::opt(seq(vec![al(), dg()])), r::any()]);
            parser!(x:(alpha digit)* z:any_char => (x, z)), seq(vec![r::star(seq(vec![al(), dg()])), r::any()]);
            parser!(x:(alpha digit)+ z:any_char => (x, z)), seq(vec![r::plus(seq(vec![al(), dg()])), r::any()]);
        }
    }
    h_g_lab_two_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(x:(digit) z:any_char => (x, z)), seq(vec![dg(), r::any()]);
            parser!(x:(digit)? z:any_char => (x, z)), seq(vec![r::opt(dg()), r::any()]);
            parser!(x:(digit)* z:any_char => (x, z)), seq(vec![r::star(dg()), r::any()]);
            parser!(x:(digit)+ z:any_char => (x, z)), seq(vec![r::plus(dg()), r::any()]);
            parser!(x:("a" "1"?) z:any_char => (x, z)), seq(vec![seq(vec![lit("a"), r::opt(lit("1"))]), r::any()]);
            parser!(x:("a" "1"?)? z:any_char => (x, z)), seq(vec![r::opt(seq(vec![lit("a"), r::opt(lit("1"))])), r::any()]);
            parser!(x:("a" "1"?)* z:any_char => (x, z)), seq(vec![r::star(seq(vec![lit("a"), r::opt(lit("1"))])), r::any()]);
            parser!(x:("a" "1"?)+ z:any_char => (x, z)), seq(vec![r::plus(seq(vec![lit("a"), r::opt(lit("1"))])), r::any()]);
            parser!(x:{char_of("1"), digit} z:any_char => (x, z)), seq(vec![alt(vec![G::CharOf("1"), dg()]), r::any()]);
            parser!(x:{char_of("1"), digit}? z:any_char => (x, z)), seq(vec![r::opt(alt(vec![G::CharOf("1"), dg()])), r::any()]);
            parser!(x:{char_of("1"), digit}* z:any_char => (x, z)), seq(vec![r::star(alt(vec![G::CharOf("1"), dg()])), r::any()]);
            parser!(x:{char_of("1"), digit}+ z:any_char => (x, z)), seq(vec![r::plus(alt(vec![G::CharOf("1"), dg()])), r::any()]);
            parser!(x:{"a" => 7u64, y:digit => y as u64} z:any_char => (x, z)), seq(vec![alt(vec![t(7, lit("a")), dg()]), r::any()]);
            parser!(x:{"a" => 7u64, y:digit => y as u64}? z:any_char => (x, z)), seq(vec![r::opt(alt(vec![t(7, lit("a")), dg()])), r::any()]);
            parser!(x:{"a" => 7u64, y:digit => y as u64}* z:any_char => (x, z)), seq(vec![r::star(alt(vec![t(7, lit("a")), dg()])), r::any()]);
            parser!(x:{"a" => 7u64, y:digit => y as u64}+ z:any_char => (x, z)), seq(vec![r::plus(alt(vec![t(7, lit("a")), dg()])), r::any()]);
            parser!(x:{alpha} z:any_char => (x, z)), seq(vec![al(), r::any()]);
            parser!(x:{alpha}? z:any_char => (x, z)), seq(vec![r::opt(al()), r::any()]);
            parser!(x:{alpha}* z:any_char => (x, z)), seq(vec![r::star(al()), r::any()]);
            parser!(x:{alpha}+ z:any_char => (x, z)), seq(vec![r::plus(al()), r::any()]);
            parser!(x:(y:alpha digit => y) z:any_char => (x, z)), seq(vec![seq(vec![al(), drop1(dg())]), r::any()]);
            parser!(x:(y:alpha digit => y)? z:any_char => (x, z)), seq(vec![r::opt(seq(vec![al(), drop1(dg())])), r::any()]);
            parser!(x:(y:alpha digit => y)* z:any_char => (x, z)), seq(vec![r::star(seq(vec![al(), drop1(dg())])), r::any()]);
            parser!(x:(y:alpha digit => y)+ z:any_char => (x, z)), seq(vec![r::plus(seq(vec![al(), drop1(dg())])), r::any()]);
        }
    }
    h_g_lab_second_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(z:any_char x:alpha => (z, x)), seq(vec![r::any(), al()]);
            parser!(z:any_char x:alpha? => (z, x)), seq(vec![r::any(), r::opt(al())]);
            parser!(z:any_char x:alpha* => (z, x)), seq(vec![r::any(), r::star(al())]);
            parser!(z:any_char x:alpha+ => (z, x)), seq(vec![r::any(), r::plus(al())]);
            parser!(z:any_char x:"a" => (z, x)), seq(vec![r::any(), lit("a")]);
            parser!(z:any_char x:"a"? => (z, x)), seq(vec![r::any(), r::opt(lit("a"))]);
            parser!(z:any_char x:"a"* => (z, x)), seq(vec![r::any(), r::star(lit("a"))]);
            parser!(z:any_char x:"a"+ => (z, x)), seq(vec![r::any(), r::plus(lit("a"))]);
            parser!(z:any_char x:'1' => (z, x)), seq(vec![r::any(), lit("1")]);
            parser!(z:any_char x:'1'? => (z, x)), seq(vec![r::any(), r::opt(lit("1"))]);
            parser!(z:any_char x:'1'* => (z, x)), seq(vec![r::any(), r::star(lit("1"))]);
            parser!(z:any_char x:'1'+ => (z, x)), seq(vec![r::any(), r::plus(lit("1"))]);
            parser!(z:any_char x:string(alpha) => (z, x)), seq(vec![r::any(), r::string(al())]);
            parser!(z:any_char x:string(alpha)? => (z, x)), seq(vec![r::any(), r::opt(r::string(al()))]);
            parser!(z:any_char x:string(alpha)* => (z, x)), seq(vec![r::any(), r::star(r::string(al()))]);
            parser!(z:any_char x:string(alpha)+ => (z, x)), seq(vec![r::any(), r::plus(r::string(al()))]);
            parser!(z:any_char x:char_of("a,") => (z, x)), seq(vec![r::any(), G::CharOf("a,")]);
            parser!(z:any_char x:char_of("a,")? => (z, x)), seq(vec![r::any(), r::opt(G::CharOf("a,"))]);
            parser!(z:any_char x:char_of("a,")* => (z, x)), seq(vec![r::any(), r::star(G::CharOf("a,"))]);
            parser!(z:any_char x:char_of("a,")+ => (z, x)), seq(vec![r::any(), r::plus(G::CharOf("a,"))]);
            parser!(z:any_char x:(alpha digit) => (z, x)), seq(vec![r::any(), seq(vec![al(), dg()])]);
            parser!(z:any_char x:(alpha digit)? => (z, x)), seq(vec![r::any(), r::opt(seq(vec![al(), dg()]))]);
            parser!(z:any_char x:(alpha digit)* => (z, x)), seq(vec![r::any(), r::star(seq(vec![al(), dg()]))]);
            parser!(z:any_char x:(alpha digit)+ => (z, x)), seq(vec![r::any(), r::plus(seq(vec![al(), dg()]))]);
        }
    }
    h_g_lab_second_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(z:any_char x:(digit) => (z, x)), seq(vec![r::any(), dg()]);
            parser!(z:any_char x:(digit)? => (z, x)), seq(vec![r::any(), r::opt(dg())]);
            parser!(z:any_char x:(digit)* => (z, x)), seq(vec![r::any(), r::star(dg())]);
            parser!(z:any_char x:(digit)+ => (z, x)), seq(vec![r::any(), r::plus(dg())]);
            parser!(z:any_char x:("a" "1"?) => (z, x)), seq(vec![r::any(), seq(vec![lit("a"), r::opt(lit("1"))])]);
            parser!(z:any_char x:("a" "1"?)? => (z, x)), seq(vec![r::any(), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!(z:any_char x:("a" "1"?)* => (z, x)), seq(vec![r::any(), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!(z:any_char x:("a" "1"?)+ => (z, x)), seq(vec![r::any(), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!(z:any_char x:{char_of("1"), digit} => (z, x)), seq(vec![r::any(), alt(vec![G::CharOf("1"), dg()])]);
            parser!(z:any_char x:{char_of("1"), digit}? => (z, x)), seq(vec![r::any(), r::opt(alt(vec![G::CharOf("1"), dg()]))]);
            parser!(z:any_char x:{char_of("1"), digit}* => (z, x)), seq(vec![r::any(), r::star(alt(vec![G::CharOf("1"), dg()]))]);
            parser!(z:any_char x:{char_of("1"), digit}+ => (z, x)), seq(vec![r::any(), r::plus(alt(vec![G::CharOf("1"), dg()]))]);
            parser!(z:any_char x:{"a" => 7u64, y:digit => y as u64} => (z, x)), seq(vec![r::any(), alt(vec![t(7, lit("a")), dg()])]);
            parser!(z:any_char x:{"a" => 7u64, y:digit => y as u64}? => (z, x)), seq(vec![r::any(), r::opt(alt(vec![t(7, lit("a")), dg()]))]);
            parser!(z:any_char x:{"a" => 7u64, y:digit => y as u64}* => (z, x)), seq(vec![r::any(), r::star(alt(vec![t(7, lit("a")), dg()]))]);
            parser!(z:any_char x:{"a" => 7u64, y:digit => y as u64}+ => (z, x)), seq(vec![r::any(), r::plus(alt(vec![t(7, lit("a")), dg()]))]);
            parser!(z:any_char x:{alpha} => (z, x)), seq(vec![r::any(), al()]);
            parser!(z:any_char x:{alpha}? => (z, x)), seq(vec![r::any(), r::opt(al())]);
            parser!(z:any_char x:{alpha}* => (z, x)), seq(vec![r::any(), r::star(al())]);
            parser!(z:any_char x:{alpha}+ => (z, x)), seq(vec![r::any(), r::plus(al())]);
            parser!(z:any_char x:(y:alpha digit => y) => (z, x)), seq(vec![r::any(), seq(vec![al(), drop1(dg())])]);
            parser!(z:any_char x:(y:alpha digit => y)? => (z, x)), seq(vec![r::any(), r::opt(seq(vec![al(), drop1(dg())]))]);
            parser!(z:any_char x:(y:alpha digit => y)* => (z, x)), seq(vec![r::any(), r::star(seq(vec![al(), drop1(dg())]))]);
            parser!(z:any_char x:(y:alpha digit => y)+ => (z, x)), seq(vec![r::any(), r::plus(seq(vec![al(), drop1(dg())]))]);
        }
    }
    h_g_lab_skip_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(x:alpha any_char z:alpha => (x, z)), seq(vec![al(), drop1(r::any()), al()]);
            parser!(x:alpha? any_char z:alpha? => (x, z)), seq(vec![r::opt(al()), drop1(r::any()), r::opt(al())]);
            parser!(x:alpha* any_char z:alpha* => (x, z)), seq(vec![r::star(al()), drop1(r::any()), r::star(al())]);
            parser!(x:alpha+ any_char z:alpha+ => (x, z)), seq(vec![r::plus(al()), drop1(r::any()), r::plus(al())]);
            parser!(x:"a" any_char z:"a" => (x, z)), seq(vec![lit("a"), drop1(r::any()), lit("a")]);
            parser!(x:"a"? any_char z:"a"? => (x, z)), seq(vec![r::opt(lit("a")), drop1(r::any()), r::opt(lit("a"))]);
            parser!(x:"a"* any_char z:"a"* => (x, z)), seq(vec![r::star(lit("a")), drop1(r::any()), r::star(lit("a"))]);
            parser!(x:"a"+ any_char z:"a"+ => (x, z)), seq(vec![r::plus(lit("a")), drop1(r::any()), r::plus(lit("a"))]);
            parser!(x:'1' any_char z:'1' => (x, z)), seq(vec![lit("1"), drop1(r::any()), lit("1")]);
            parser!(x:'1'? any_char z:'1'? => (x, z)), seq(vec![r::opt(lit("1")), drop1(r::any()), r::opt(lit("1"))]);
            parser!(x:'1'* any_char z:'1'* => (x, z)), seq(vec![r::star(lit("1")), drop1(r::any()), r::star(lit("1"))]);
            parser!(x:'1'+ any_char z:'1'+ => (x, z)), seq(vec![r::plus(lit("1")), drop1(r::any()), r::plus(lit("1"))]);
            parser!(x:string(alpha) any_char z:string(alpha) => (x, z)), seq(vec![r::string(al()), drop1(r::any()), r::string(al())]);
            parser!(x:string(alpha)? any_char z:string(alpha)? => (x, z)), seq(vec![r::opt(r::string(al())), drop1(r::any()), r::opt(r::string(al()))]);
            parser!(x:string(alpha)* any_char z:string(alpha)* => (x, z)), seq(vec![r::star(r::string(al())), drop1(r::any()), r::star(r::string(al()))]);
            parser!(x:string(alpha)+ any_char z:string(alpha)+ => (x, z)), seq(vec![r::plus(r::string(al())), drop1(r::any()), r::plus(r::string(al()))]);
            parser!(x:char_of("a,") any_char z:char_of("a,") => (x, z)), seq(vec![G::CharOf("a,"), drop1(r::any()), G::CharOf("a,")]);
            parser!(x:char_of("a,")? any_char z:char_of("a,")? => (x, z)), seq(vec![r::opt(G::CharOf("a,")), drop1(r::any()), r::opt(G::CharOf("a,"))]);
            parser!(x:char_of("a,")* any_char z:char_of("a,")* => (x, z)), seq(vec![r::star(G::CharOf("a,")), drop1(r::any()), r::star(G::CharOf("a,"))]);
            parser!(x:char_of("a,")+ any_char z:char_of("a,")+ => (x, z)), seq(vec![r::plus(G::CharOf("a,")), drop1(r::any()), r::plus(G::CharOf("a,"))]);
            parser!(x:(alpha digit) any_char z:(alpha digit) => (x, z)), seq(vec![seq(vec![al(), dg()]), drop1(r::any()), seq(vec![al(), dg()])]);
            parser!(x:(alpha digit)? any_char z:(alpha digit)? => (x, z)), seq(vec![r::opt(seq(vec![al(), dg()])), drop1(r::any()), r::opt(seq(vec![al(), dg()]))]);
            parser!(x:(alpha digit)* any_char z:(alpha digit)* => (x, z)), seq(vec![r::star(seq(vec![al(), dg()])), drop1(r::any()), r::star(seq(vec![al(), dg()]))]);
            parser!(x:(alpha digit)+ any_char z:(alpha digit)+ => (x, z)), seq(vec![r::plus(seq(vec![al(), dg()])), drop1(r::any()), r::plus(seq(vec![al(), dg()]))]);
        }
    }
    h_g_lab_skip_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(x:(digit) any_char z:(digit) => (x, z)), seq(vec![dg(), drop1(r::any()), dg()]);
            parser!(x:(digit)? any_char z:(digit)? => (x, z)), seq(vec![r::opt(dg()), drop1(r::any()), r::opt(dg())]);
            parser!(x:(digit)* any_char z:(digit)* => (x, z)), seq(vec![r::star(dg()), drop1(r::any()), r::star(dg())]);
            parser!(x:(digit)+ any_char z:(digit)+ => (x, z)), seq(vec![r::plus(dg()), drop1(r::any()), r::plus(dg())]);
            parser!(x:("a" "1"?) any_char z:("a" "1"?) => (x, z)), seq(vec![seq(vec![lit("a"), r::opt(lit("1"))]), drop1(r::any()), seq(vec![lit("a"), r::opt(lit("1"))])]);
            parser!(x:("a" "1"?)? any_char z:("a" "1"?)? => (x, z)), seq(vec![r::opt(seq(vec![lit("a"), r::opt(lit("1"))])), drop1(r::any()), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!(x:("a" "1"?)* any_char z:("a" "1"?)* => (x, z)), seq(vec![r::star(seq(vec![lit("a"), r::opt(lit("1"))])), drop1(r::any()), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!(x:("a" "1"?)+ any_char z:("a" "1"?)+ => (x, z)), seq(vec![r::plus(seq(vec![lit("a"), r::opt(lit("1"))])), drop1(r::any()), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!(x:{char_of("1"), digit} any_char z:{char_of("1"), digit} => (x, z)), seq(vec![alt(vec![G::CharOf("1"), dg()]), drop1(r::any()), alt(vec![G::CharOf("1"), dg()])]);
            parser!(x:{char_of("1"), digit}? any_char z:{char_of("1"), digit}? => (x, z)), seq(vec![r::opt(alt(vec![G::CharOf("1"), dg()])), drop1(r::any()), r::opt(alt(vec![G::CharOf("1"), dg()]))]);
            parser!(x:{char_of("1"), digit}* any_char z:{char_of("1"), digit}* => (x, z)), seq(vec![r::star(alt(vec![G::CharOf("1"), dg()])), drop1(r::any()), r::star(alt(vec![G::CharOf("1"), dg()]))]);
            parser!(x:{char_of("1"), digit}+ any_char z:{char_of("1"), digit}+ => (x, z)), seq(vec![r::plus(alt(vec![G::CharOf("1"), dg()])), drop1(r::any()), r::plus(alt(vec![G::CharOf("1"), dg()]))]);
            parser!(x:{"a" => 7u64, y:digit => y as u64} any_char z:{"a" => 7u64, y:digit => y as u64} => (x, z)), seq(vec![alt(vec![t(7, lit("a")), dg()]), drop1(r::any()), alt(vec![t(7, lit("a")), dg()])]);
            parser!(x:{"a" => 7u64, y:digit => y as u64}? any_char z:{"a" => 7u64, y:digit => y as u64}? => (x, z)), seq(vec![r::opt(alt(vec![t(7, lit("a")), dg()])), drop1(r::any()), r::opt(alt(vec![t(7, lit("a")), dg()]))]);
            parser!(x:{"a" => 7u64, y:digit => y as u64}* any_char z:{"a" => 7u64, y:digit => y as u64}* => (x, z)), seq(vec![r::star(alt(vec![t(7, lit("a")), dg()])), drop1(r::any()), r::star(alt(vec![t(7, lit("a")), dg()]))]);
            parser!(x:{"a" => 7u64, y:digit => y as u64}+ any_char z:{"a" => 7u64, y:digit => y as u64}+ => (x, z)), seq(vec![r::plus(alt(vec![t(7, lit("a")), dg()])), drop1(r::any()), r::plus(alt(vec![t(7, lit("a")), dg()]))]);
            parser!(x:{alpha} any_char z:{alpha} => (x, z)), seq(vec![al(), drop1(r::any()), al()]);
            parser!(x:{alpha}? any_char z:{alpha}? => (x, z)), seq(vec![r::opt(al()), drop1(r::any()), r::opt(al())]);
            parser!(x:{alpha}* any_char z:{alpha}* => (x, z)), seq(vec![r::star(al()), drop1(r::any()), r::star(al())]);
            parser!(x:{alpha}+ any_char z:{alpha}+ => (x, z)), seq(vec![r::plus(al()), drop1(r::any()), r::plus(al())]);
            parser!(x:(y:alpha digit => y) any_char z:(y:alpha digit => y) => (x, z)), seq(vec![seq(vec![al(), drop1(dg())]), drop1(r::any()), seq(vec![al(), drop1(dg())])]);
            parser!(x:(y:alpha digit => y)? any_char z:(y:alpha digit => y)? => (x, z)), seq(vec![r::opt(seq(vec![al(), drop1(dg())])), drop1(r::any()), r::opt(seq(vec![al(), drop1(dg())]))]);
            parser!(x:(y:alpha digit => y)* any_char z:(y:alpha digit => y)* => (x, z)), seq(vec![r::star(seq(vec![al(), drop1(dg())])), drop1(r::any()), r::star(seq(vec![al(), drop1(dg())]))]);
            parser!(x:(y:alpha digit => y)+ any_char z:(y:alpha digit => y)+ => (x, z)), seq(vec![r::plus(seq(vec![al(), drop1(dg())])), drop1(r::any()), r::plus(seq(vec![al(), drop1(dg())]))]);
        }
    }
    h_g_lab_group_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(("," x:alpha => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), al()])), r::opt(r::any())]);
            parser!(("," x:alpha? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(al())])), r::opt(r::any())]);
            parser!(("," x:alpha* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(al())])), r::opt(r::any())]);
            parser!(("," x:alpha+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(al())])), r::opt(r::any())]);
            parser!(("," x:"a" => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), lit("a")])), r::opt(r::any())]);
            parser!(("," x:"a"? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(lit("a"))])), r::opt(r::any())]);
            parser!(("," x:"a"* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(lit("a"))])), r::opt(r::any())]);
            parser!(("," x:"a"+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(lit("a"))])), r::opt(r::any())]);
            parser!(("," x:'1' => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), lit("1")])), r::opt(r::any())]);
            parser!(("," x:'1'? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(lit("1"))])), r::opt(r::any())]);
            parser!(("," x:'1'* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(lit("1"))])), r::opt(r::any())]);
            parser!(("," x:'1'+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(lit("1"))])), r::opt(r::any())]);
            parser!(("," x:string(alpha) => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::string(al())])), r::opt(r::any())]);
            parser!(("," x:string(alpha)? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(r::string(al()))])), r::opt(r::any())]);
            parser!(("," x:string(alpha)* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(r::string(al()))])), r::opt(r::any())]);
            parser!(("," x:string(alpha)+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(r::string(al()))])), r::opt(r::any())]);
            parser!(("," x:char_of("a,") => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), G::CharOf("a,")])), r::opt(r::any())]);
            parser!(("," x:char_of("a,")? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(G::CharOf("a,"))])), r::opt(r::any())]);
            parser!(("," x:char_of("a,")* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(G::CharOf("a,"))])), r::opt(r::any())]);
            parser!(("," x:char_of("a,")+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(G::CharOf("a,"))])), r::opt(r::any())]);
            parser!(("," x:(alpha digit) => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), seq(vec![al(), dg()])])), r::opt(r::any())]);
            parser!(("," x:(alpha digit)? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(seq(vec![al(), dg()]))])), r::opt(r::any())]);
            parser!(("," x:(alpha digit)* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(seq(vec![al(), dg()]))])), r::opt(r::any())]);
            parser!(("," x:(alpha digit)+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(seq(vec![al(), dg()]))])), r::opt(r::any())]);
        }
    }
    h_g_lab_group_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(("," x:(digit) => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), dg()])), r::opt(r::any())]);
            parser!(("," x:(digit)? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(dg())])), r::opt(r::any())]);
            parser!(("," x:(digit)* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(dg())])), r::opt(r::any())]);
            parser!(("," x:(digit)+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(dg())])), r::opt(r::any())]);
            parser!(("," x:("a" "1"?) => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), seq(vec![lit("a"), r::opt(lit("1"))])])), r::opt(r::any())]);
            parser!(("," x:("a" "1"?)? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))])), r::opt(r::any())]);
            parser!(("," x:("a" "1"?)* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))])), r::opt(r::any())]);
            parser!(("," x:("a" "1"?)+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))])), r::opt(r::any())]);
            parser!(("," x:{char_of("1"), digit} => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), alt(vec![G::CharOf("1"), dg()])])), r::opt(r::any())]);
            parser!(("," x:{char_of("1"), digit}? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(alt(vec![G::CharOf("1"), dg()]))])), r::opt(r::any())]);
            parser!(("," x:{char_of("1"), digit}* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(alt(vec![G::CharOf("1"), dg()]))])), r::opt(r::any())]);
            parser!(("," x:{char_of("1"), digit}+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(alt(vec![G::CharOf("1"), dg()]))])), r::opt(r::any())]);
            parser!(("," x:{"a" => 7u64, y:digit => y as u64} => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), alt(vec![t(7, lit("a")), dg()])])), r::opt(r::any())]);
            parser!(("," x:{"a" => 7u64, y:digit => y as u64}? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(alt(vec![t(7, lit("a")), dg()]))])), r::opt(r::any())]);
            parser!(("," x:{"a" => 7u64, y:digit => y as u64}* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(alt(vec![t(7, lit("a")), dg()]))])), r::opt(r::any())]);
            parser!(("," x:{"a" => 7u64, y:digit => y as u64}+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(alt(vec![t(7, lit("a")), dg()]))])), r::opt(r::any())]);
            parser!(("," x:{alpha} => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), al()])), r::opt(r::any())]);
            parser!(("," x:{alpha}? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(al())])), r::opt(r::any())]);
            parser!(("," x:{alpha}* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(al())])), r::opt(r::any())]);
            parser!(("," x:{alpha}+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(al())])), r::opt(r::any())]);
            parser!(("," x:(y:alpha digit => y) => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), seq(vec![al(), drop1(dg())])])), r::opt(r::any())]);
            parser!(("," x:(y:alpha digit => y)? => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::opt(seq(vec![al(), drop1(dg())]))])), r::opt(r::any())]);
            parser!(("," x:(y:alpha digit => y)* => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::star(seq(vec![al(), drop1(dg())]))])), r::opt(r::any())]);
            parser!(("," x:(y:alpha digit => y)+ => x)? any_char?), seq(vec![r::opt(seq(vec![lit(","), r::plus(seq(vec![al(), drop1(dg())]))])), r::opt(r::any())]);
        }
    }
    h_g_lab_group2_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(z:("," x:alpha => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), al(), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:alpha? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(al()), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:alpha* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(al()), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:alpha+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(al()), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:"a" => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), lit("a"), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:"a"? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(lit("a")), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:"a"* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(lit("a")), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:"a"+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(lit("a")), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:'1' => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), lit("1"), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:'1'? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(lit("1")), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:'1'* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(lit("1")), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:'1'+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(lit("1")), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:string(alpha) => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::string(al()), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:string(alpha)? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(r::string(al())), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:string(alpha)* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(r::string(al())), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:string(alpha)+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(r::string(al())), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:char_of("a,") => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), G::CharOf("a,"), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:char_of("a,")? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(G::CharOf("a,")), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:char_of("a,")* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(G::CharOf("a,")), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:char_of("a,")+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(G::CharOf("a,")), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(alpha digit) => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), seq(vec![al(), dg()]), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(alpha digit)? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(seq(vec![al(), dg()])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(alpha digit)* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(seq(vec![al(), dg()])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(alpha digit)+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(seq(vec![al(), dg()])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
        }
    }
    h_g_lab_group2_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(z:("," x:(digit) => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), dg(), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(digit)? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(dg()), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(digit)* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(dg()), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(digit)+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(dg()), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:("a" "1"?) => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), seq(vec![lit("a"), r::opt(lit("1"))]), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:("a" "1"?)? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(seq(vec![lit("a"), r::opt(lit("1"))])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:("a" "1"?)* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(seq(vec![lit("a"), r::opt(lit("1"))])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:("a" "1"?)+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(seq(vec![lit("a"), r::opt(lit("1"))])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{char_of("1"), digit} => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), alt(vec![G::CharOf("1"), dg()]), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{char_of("1"), digit}? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(alt(vec![G::CharOf("1"), dg()])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{char_of("1"), digit}* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(alt(vec![G::CharOf("1"), dg()])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{char_of("1"), digit}+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(alt(vec![G::CharOf("1"), dg()])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{"a" => 7u64, y:digit => y as u64} => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), alt(vec![t(7, lit("a")), dg()]), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{"a" => 7u64, y:digit => y as u64}? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(alt(vec![t(7, lit("a")), dg()])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{"a" => 7u64, y:digit => y as u64}* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(alt(vec![t(7, lit("a")), dg()])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{"a" => 7u64, y:digit => y as u64}+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(alt(vec![t(7, lit("a")), dg()])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{alpha} => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), al(), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{alpha}? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(al()), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{alpha}* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(al()), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:{alpha}+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(al()), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(y:alpha digit => y) => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), seq(vec![al(), drop1(dg())]), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(y:alpha digit => y)? => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::opt(seq(vec![al(), drop1(dg())])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(y:alpha digit => y)* => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::star(seq(vec![al(), drop1(dg())])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
            parser!(z:("," x:(y:alpha digit => y)+ => (x, 4u64))* any_char? => (6u64, z)), t(6, seq(vec![r::star(seq(vec![lit(","), r::plus(seq(vec![al(), drop1(dg())])), t(4, G::Empty)])), drop1(r::opt(r::any()))]));
        }
    }
    h_g_lab_arms_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!({"," x:alpha => (1u64, x), x:alpha "," => (2u64, x), x:alpha => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), al()])), t(2, seq(vec![al(), lit(",")])), t(3, al())]);
            parser!({"," x:alpha? => (1u64, x), x:alpha? "," => (2u64, x), x:alpha? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(al())])), t(2, seq(vec![r::opt(al()), lit(",")])), t(3, r::opt(al()))]);
            parser!({"," x:alpha* => (1u64, x), x:alpha* "," => (2u64, x), x:alpha* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(al())])), t(2, seq(vec![r::star(al()), lit(",")])), t(3, r::star(al()))]);
            parser!({"," x:alpha+ => (1u64, x), x:alpha+ "," => (2u64, x), x:alpha+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(al())])), t(2, seq(vec![r::plus(al()), lit(",")])), t(3, r::plus(al()))]);
            parser!({"," x:"a" => (1u64, x), x:"a" "," => (2u64, x), x:"a" => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), lit("a")])), t(2, seq(vec![lit("a"), lit(",")])), t(3, lit("a"))]);
            parser!({"," x:"a"? => (1u64, x), x:"a"? "," => (2u64, x), x:"a"? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(lit("a"))])), t(2, seq(vec![r::opt(lit("a")), lit(",")])), t(3, r::opt(lit("a")))]);
            parser!({"," x:"a"* => (1u64, x), x:"a"* "," => (2u64, x), x:"a"* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(lit("a"))])), t(2, seq(vec![r::star(lit("a")), lit(",")])), t(3, r::star(lit("a")))]);
            parser!({"," x:"a"+ => (1u64, x), x:"a"+ "," => (2u64, x), x:"a"+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(lit("a"))])), t(2, seq(vec![r::plus(lit("a")), lit(",")])), t(3, r::plus(lit("a")))]);
            parser!({"," x:'1' => (1u64, x), x:'1' "," => (2u64, x), x:'1' => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), lit("1")])), t(2, seq(vec![lit("1"), lit(",")])), t(3, lit("1"))]);
            parser!({"," x:'1'? => (1u64, x), x:'1'? "," => (2u64, x), x:'1'? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(lit("1"))])), t(2, seq(vec![r::opt(lit("1")), lit(",")])), t(3, r::opt(lit("1")))]);
            parser!({"," x:'1'* => (1u64, x), x:'1'* "," => (2u64, x), x:'1'* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(lit("1"))])), t(2, seq(vec![r::star(lit("1")), lit(",")])), t(3, r::star(lit("1")))]);
            parser!({"," x:'1'+ => (1u64, x), x:'1'+ "," => (2u64, x), x:'1'+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(lit("1"))])), t(2, seq(vec![r::plus(lit("1")), lit(",")])), t(3, r::plus(lit("1")))]);
            parser!({"," x:string(alpha) => (1u64, x), x:string(alpha) "," => (2u64, x), x:string(alpha) => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::string(al())])), t(2, seq(vec![r::string(al()), lit(",")])), t(3, r::string(al()))]);
            parser!({"," x:string(alpha)? => (1u64, x), x:string(alpha)? "," => (2u64, x), x:string(alpha)? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(r::string(al()))])), t(2, seq(vec![r::opt(r::string(al())), lit(",")])), t(3, r::opt(r::string(al())))]);
            parser!({"," x:string(alpha)* => (1u64, x), x:string(alpha)* "," => (2u64, x), x:string(alpha)* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(r::string(al()))])), t(2, seq(vec![r::star(r::string(al())), lit(",")])), t(3, r::star(r::string(al())))]);
            parser!({"," x:string(alpha)+ => (1u64, x), x:string(alpha)+ "," => (2u64, x), x:string(alpha)+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(r::string(al()))])), t(2, seq(vec![r::plus(r::string(al())), lit(",")])), t(3, r::plus(r::string(al())))]);
            parser!({"," x:char_of("a,") => (1u64, x), x:char_of("a,") "," => (2u64, x), x:char_of("a,") => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), G::CharOf("a,")])), t(2, seq(vec![G::CharOf("a,"), lit(",")])), t(3, G::CharOf("a,"))]);
            parser!({"," x:char_of("a,")? => (1u64, x), x:char_of("a,")? "," => (2u64, x), x:char_of("a,")? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(G::CharOf("a,"))])), t(2, seq(vec![r::opt(G::CharOf("a,")), lit(",")])), t(3, r::opt(G::CharOf("a,")))]);
            parser!({"," x:char_of("a,")* => (1u64, x), x:char_of("a,")* "," => (2u64, x), x:char_of("a,")* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(G::CharOf("a,"))])), t(2, seq(vec![r::star(G::CharOf("a,")), lit(",")])), t(3, r::star(G::CharOf("a,")))]);
            parser!({"," x:char_of("a,")+ => (1u64, x), x:char_of("a,")+ "," => (2u64, x), x:char_of("a,")+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(G::CharOf("a,"))])), t(2, seq(vec![r::plus(G::CharOf("a,")), lit(",")])), t(3, r::plus(G::CharOf("a,")))]);
            parser!({"," x:(alpha digit) => (1u64, x), x:(alpha digit) "," => (2u64, x), x:(alpha digit) => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), seq(vec![al(), dg()])])), t(2, seq(vec![seq(vec![al(), dg()]), lit(",")])), t(3, seq(vec![al(), dg()]))]);
            parser!({"," x:(alpha digit)? => (1u64, x), x:(alpha digit)? "," => (2u64, x), x:(alpha digit)? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(seq(vec![al(), dg()]))])), t(2, seq(vec![r::opt(seq(vec![al(), dg()])), lit(",")])), t(3, r::opt(seq(vec![al(), dg()])))]);
            parser!({"," x:(alpha digit)* => (1u64, x), x:(alpha digit)* "," => (2u64, x), x:(alpha digit)* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(seq(vec![al(), dg()]))])), t(2, seq(vec![r::star(seq(vec![al(), dg()])), lit(",")])), t(3, r::star(seq(vec![al(), dg()])))]);
            parser!({"," x:(alpha digit)+ => (1u64, x), x:(alpha digit)+ "," => (2u64, x), x:(alpha digit)+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(seq(vec![al(), dg()]))])), t(2, seq(vec![r::plus(seq(vec![al(), dg()])), lit(",")])), t(3, r::plus(seq(vec![al(), dg()])))]);
        }
    }
    h_g_lab_arms_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!({"," x:(digit) => (1u64, x), x:(digit) "," => (2u64, x), x:(digit) => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), dg()])), t(2, seq(vec![dg(), lit(",")])), t(3, dg())]);
            parser!({"," x:(digit)? => (1u64, x), x:(digit)? "," => (2u64, x), x:(digit)? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(dg())])), t(2, seq(vec![r::opt(dg()), lit(",")])), t(3, r::opt(dg()))]);
            parser!({"," x:(digit)* => (1u64, x), x:(digit)* "," => (2u64, x), x:(digit)* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(dg())])), t(2, seq(vec![r::star(dg()), lit(",")])), t(3, r::star(dg()))]);
            parser!({"," x:(digit)+ => (1u64, x), x:(digit)+ "," => (2u64, x), x:(digit)+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(dg())])), t(2, seq(vec![r::plus(dg()), lit(",")])), t(3, r::plus(dg()))]);
            parser!({"," x:("a" "1"?) => (1u64, x), x:("a" "1"?) "," => (2u64, x), x:("a" "1"?) => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), seq(vec![lit("a"), r::opt(lit("1"))])])), t(2, seq(vec![seq(vec![lit("a"), r::opt(lit("1"))]), lit(",")])), t(3, seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!({"," x:("a" "1"?)? => (1u64, x), x:("a" "1"?)? "," => (2u64, x), x:("a" "1"?)? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))])), t(2, seq(vec![r::opt(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")])), t(3, r::opt(seq(vec![lit("a"), r::opt(lit("1"))])))]);
            parser!({"," x:("a" "1"?)* => (1u64, x), x:("a" "1"?)* "," => (2u64, x), x:("a" "1"?)* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))])), t(2, seq(vec![r::star(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")])), t(3, r::star(seq(vec![lit("a"), r::opt(lit("1"))])))]);
            parser!({"," x:("a" "1"?)+ => (1u64, x), x:("a" "1"?)+ "," => (2u64, x), x:("a" "1"?)+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))])), t(2, seq(vec![r::plus(seq(vec![lit("a"), r::opt(lit("1"))])), lit(",")])), t(3, r::plus(seq(vec![lit("a"), r::opt(lit("1"))])))]);
            parser!({"," x:{char_of("1"), digit} => (1u64, x), x:{char_of("1"), digit} "," => (2u64, x), x:{char_of("1"), digit} => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), alt(vec![G::CharOf("1"), dg()])])), t(2, seq(vec![alt(vec![G::CharOf("1"), dg()]), lit(",")])), t(3, alt(vec![G::CharOf("1"), dg()]))]);
            parser!({"," x:{char_of("1"), digit}? => (1u64, x), x:{char_of("1"), digit}? "," => (2u64, x), x:{char_of("1"), digit}? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(alt(vec![G::CharOf("1"), dg()]))])), t(2, seq(vec![r::opt(alt(vec![G::CharOf("1"), dg()])), lit(",")])), t(3, r::opt(alt(vec![G::CharOf("1"), dg()])))]);
            parser!({"," x:{char_of("1"), digit}* => (1u64, x), x:{char_of("1"), digit}* "," => (2u64, x), x:{char_of("1"), digit}* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(alt(vec![G::CharOf("1"), dg()]))])), t(2, seq(vec![r::star(alt(vec![G::CharOf("1"), dg()])), lit(",")])), t(3, r::star(alt(vec![G::CharOf("1"), dg()])))]);
            parser!({"," x:{char_of("1"), digit}+ => (1u64, x), x:{char_of("1"), digit}+ "," => (2u64, x), x:{char_of("1"), digit}+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(alt(vec![G::CharOf("1"), dg()]))])), t(2, seq(vec![r::plus(alt(vec![G::CharOf("1"), dg()])), lit(",")])), t(3, r::plus(alt(vec![G::CharOf("1"), dg()])))]);
            parser!({"," x:{"a" => 7u64, y:digit => y as u64} => (1u64, x), x:{"a" => 7u64, y:digit => y as u64} "," => (2u64, x), x:{"a" => 7u64, y:digit => y as u64} => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), alt(vec![t(7, lit("a")), dg()])])), t(2, seq(vec![alt(vec![t(7, lit("a")), dg()]), lit(",")])), t(3, alt(vec![t(7, lit("a")), dg()]))]);
            parser!({"," x:{"a" => 7u64, y:digit => y as u64}? => (1u64, x), x:{"a" => 7u64, y:digit => y as u64}? "," => (2u64, x), x:{"a" => 7u64, y:digit => y as u64}? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(alt(vec![t(7, lit("a")), dg()]))])), t(2, seq(vec![r::opt(alt(vec![t(7, lit("a")), dg()])), lit(",")])), t(3, r::opt(alt(vec![t(7, lit("a")), dg()])))]);
            parser!({"," x:{"a" => 7u64, y:digit => y as u64}* => (1u64, x), x:{"a" => 7u64, y:digit => y as u64}* "," => (2u64, x), x:{"a" => 7u64, y:digit => y as u64}* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(alt(vec![t(7, lit("a")), dg()]))])), t(2, seq(vec![r::star(alt(vec![t(7, lit("a")), dg()])), lit(",")])), t(3, r::star(alt(vec![t(7, lit("a")), dg()])))]);
            parser!({"," x:{"a" => 7u64, y:digit => y as u64}+ => (1u64, x), x:{"a" => 7u64, y:digit => y as u64}+ "," => (2u64, x), x:{"a" => 7u64, y:digit => y as u64}+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(alt(vec![t(7, lit("a")), dg()]))])), t(2, seq(vec![r::plus(alt(vec![t(7, lit("a")), dg()])), lit(",")])), t(3, r::plus(alt(vec![t(7, lit("a")), dg()])))]);
            parser!({"," x:{alpha} => (1u64, x), x:{alpha} "," => (2u64, x), x:{alpha} => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), al()])), t(2, seq(vec![al(), lit(",")])), t(3, al())]);
            parser!({"," x:{alpha}? => (1u64, x), x:{alpha}? "," => (2u64, x), x:{alpha}? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(al())])), t(2, seq(vec![r::opt(al()), lit(",")])), t(3, r::opt(al()))]);
            parser!({"," x:{alpha}* => (1u64, x), x:{alpha}* "," => (2u64, x), x:{alpha}* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(al())])), t(2, seq(vec![r::star(al()), lit(",")])), t(3, r::star(al()))]);
            parser!({"," x:{alpha}+ => (1u64, x), x:{alpha}+ "," => (2u64, x), x:{alpha}+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(al())])), t(2, seq(vec![r::plus(al()), lit(",")])), t(3, r::plus(al()))]);
            parser!({"," x:(y:alpha digit => y) => (1u64, x), x:(y:alpha digit => y) "," => (2u64, x), x:(y:alpha digit => y) => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), seq(vec![al(), drop1(dg())])])), t(2, seq(vec![seq(vec![al(), drop1(dg())]), lit(",")])), t(3, seq(vec![al(), drop1(dg())]))]);
            parser!({"," x:(y:alpha digit => y)? => (1u64, x), x:(y:alpha digit => y)? "," => (2u64, x), x:(y:alpha digit => y)? => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::opt(seq(vec![al(), drop1(dg())]))])), t(2, seq(vec![r::opt(seq(vec![al(), drop1(dg())])), lit(",")])), t(3, r::opt(seq(vec![al(), drop1(dg())])))]);
            parser!({"," x:(y:alpha digit => y)* => (1u64, x), x:(y:alpha digit => y)* "," => (2u64, x), x:(y:alpha digit => y)* => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::star(seq(vec![al(), drop1(dg())]))])), t(2, seq(vec![r::star(seq(vec![al(), drop1(dg())])), lit(",")])), t(3, r::star(seq(vec![al(), drop1(dg())])))]);
            parser!({"," x:(y:alpha digit => y)+ => (1u64, x), x:(y:alpha digit => y)+ "," => (2u64, x), x:(y:alpha digit => y)+ => (3u64, x)}), alt(vec![t(1, seq(vec![lit(","), r::plus(seq(vec![al(), drop1(dg())]))])), t(2, seq(vec![r::plus(seq(vec![al(), drop1(dg())])), lit(",")])), t(3, r::plus(seq(vec![al(), drop1(dg())])))]);
        }
    }
    h_g_lab_arms2_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!({"," => None, x:alpha => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, al())]);
            parser!({"," => None, x:alpha? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(al()))]);
            parser!({"," => None, x:alpha* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(al()))]);
            parser!({"," => None, x:alpha+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(al()))]);
            parser!({"," => None, x:"a" => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, lit("a"))]);
            parser!({"," => None, x:"a"? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(lit("a")))]);
            parser!({"," => None, x:"a"* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(lit("a")))]);
            parser!({"," => None, x:"a"+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(lit("a")))]);
            parser!({"," => None, x:'1' => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, lit("1"))]);
            parser!({"," => None, x:'1'? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(lit("1")))]);
            parser!({"," => None, x:'1'* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(lit("1")))]);
            parser!({"," => None, x:'1'+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(lit("1")))]);
            parser!({"," => None, x:string(alpha) => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::string(al()))]);
            parser!({"," => None, x:string(alpha)? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(r::string(al())))]);
            parser!({"," => None, x:string(alpha)* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(r::string(al())))]);
            parser!({"," => None, x:string(alpha)+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(r::string(al())))]);
            parser!({"," => None, x:char_of("a,") => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, G::CharOf("a,"))]);
            parser!({"," => None, x:char_of("a,")? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(G::CharOf("a,")))]);
            parser!({"," => None, x:char_of("a,")* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(G::CharOf("a,")))]);
            parser!({"," => None, x:char_of("a,")+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(G::CharOf("a,")))]);
            parser!({"," => None, x:(alpha digit) => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, seq(vec![al(), dg()]))]);
            parser!({"," => None, x:(alpha digit)? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(seq(vec![al(), dg()])))]);
            parser!({"," => None, x:(alpha digit)* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(seq(vec![al(), dg()])))]);
            parser!({"," => None, x:(alpha digit)+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(seq(vec![al(), dg()])))]);
        }
    }
    h_g_lab_arms2_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!({"," => None, x:(digit) => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, dg())]);
            parser!({"," => None, x:(digit)? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(dg()))]);
            parser!({"," => None, x:(digit)* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(dg()))]);
            parser!({"," => None, x:(digit)+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(dg()))]);
            parser!({"," => None, x:("a" "1"?) => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!({"," => None, x:("a" "1"?)? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(seq(vec![lit("a"), r::opt(lit("1"))])))]);
            parser!({"," => None, x:("a" "1"?)* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(seq(vec![lit("a"), r::opt(lit("1"))])))]);
            parser!({"," => None, x:("a" "1"?)+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(seq(vec![lit("a"), r::opt(lit("1"))])))]);
            parser!({"," => None, x:{char_of("1"), digit} => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, alt(vec![G::CharOf("1"), dg()]))]);
            parser!({"," => None, x:{char_of("1"), digit}? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(alt(vec![G::CharOf("1"), dg()])))]);
            parser!({"," => None, x:{char_of("1"), digit}* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(alt(vec![G::CharOf("1"), dg()])))]);
            parser!({"," => None, x:{char_of("1"), digit}+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(alt(vec![G::CharOf("1"), dg()])))]);
            parser!({"," => None, x:{"a" => 7u64, y:digit => y as u64} => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, alt(vec![t(7, lit("a")), dg()]))]);
            parser!({"," => None, x:{"a" => 7u64, y:digit => y as u64}? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(alt(vec![t(7, lit("a")), dg()])))]);
            parser!({"," => None, x:{"a" => 7u64, y:digit => y as u64}* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(alt(vec![t(7, lit("a")), dg()])))]);
            parser!({"," => None, x:{"a" => 7u64, y:digit => y as u64}+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(alt(vec![t(7, lit("a")), dg()])))]);
            parser!({"," => None, x:{alpha} => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, al())]);
            parser!({"," => None, x:{alpha}? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(al()))]);
            parser!({"," => None, x:{alpha}* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(al()))]);
            parser!({"," => None, x:{alpha}+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(al()))]);
            parser!({"," => None, x:(y:alpha digit => y) => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, seq(vec![al(), drop1(dg())]))]);
            parser!({"," => None, x:(y:alpha digit => y)? => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::opt(seq(vec![al(), drop1(dg())])))]);
            parser!({"," => None, x:(y:alpha digit => y)* => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::star(seq(vec![al(), drop1(dg())])))]);
            parser!({"," => None, x:(y:alpha digit => y)+ => Some(x)}), alt(vec![t(NONE, lit(",")), t(SOME, r::plus(seq(vec![al(), drop1(dg())])))]);
        }
    }
    h_g_lab_arms3_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!({x:alpha => Some(x), "," => None,}), alt(vec![t(SOME, al()), t(NONE, lit(","))]);
            parser!({x:alpha? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(al())), t(NONE, lit(","))]);
            parser!({x:alpha* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(al())), t(NONE, lit(","))]);
            parser!({x:alpha+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(al())), t(NONE, lit(","))]);
            parser!({x:"a" => Some(x), "," => None,}), alt(vec![t(SOME, lit("a")), t(NONE, lit(","))]);
            parser!({x:"a"? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(lit("a"))), t(NONE, lit(","))]);
            parser!({x:"a"* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(lit("a"))), t(NONE, lit(","))]);
            parser!({x:"a"+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(lit("a"))), t(NONE, lit(","))]);
            parser!({x:'1' => Some(x), "," => None,}), alt(vec![t(SOME, lit("1")), t(NONE, lit(","))]);
            parser!({x:'1'? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(lit("1"))), t(NONE, lit(","))]);
            parser!({x:'1'* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(lit("1"))), t(NONE, lit(","))]);
            parser!({x:'1'+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(lit("1"))), t(NONE, lit(","))]);
            parser!({x:string(alpha) => Some(x), "," => None,}), alt(vec![t(SOME, r::string(al())), t(NONE, lit(","))]);
            parser!({x:string(alpha)? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(r::string(al()))), t(NONE, lit(","))]);
            parser!({x:string(alpha)* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(r::string(al()))), t(NONE, lit(","))]);
            parser!({x:string(alpha)+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(r::string(al()))), t(NONE, lit(","))]);
            parser!({x:char_of("a,") => Some(x), "," => None,}), alt(vec![t(SOME, G::CharOf("a,")), t(NONE, lit(","))]);
            parser!({x:char_of("a,")? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(G::CharOf("a,"))), t(NONE, lit(","))]);
            parser!({x:char_of("a,")* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(G::CharOf("a,"))), t(NONE, lit(","))]);
            parser!({x:char_of("a,")+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(G::CharOf("a,"))), t(NONE, lit(","))]);
            parser!({x:(alpha digit) => Some(x), "," => None,}), alt(vec![t(SOME, seq(vec![al(), dg()])), t(NONE, lit(","))]);
            parser!({x:(alpha digit)? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(seq(vec![al(), dg()]))), t(NONE, lit(","))]);
            parser!({x:(alpha digit)* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(seq(vec![al(), dg()]))), t(NONE, lit(","))]);
            parser!({x:(alpha digit)+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(seq(vec![al(), dg()]))), t(NONE, lit(","))]);
        }
    }
    h_g_lab_arms3_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!({x:(digit) => Some(x), "," => None,}), alt(vec![t(SOME, dg()), t(NONE, lit(","))]);
            parser!({x:(digit)? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(dg())), t(NONE, lit(","))]);
            parser!({x:(digit)* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(dg())), t(NONE, lit(","))]);
            parser!({x:(digit)+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(dg())), t(NONE, lit(","))]);
            parser!({x:("a" "1"?) => Some(x), "," => None,}), alt(vec![t(SOME, seq(vec![lit("a"), r::opt(lit("1"))])), t(NONE, lit(","))]);
            parser!({x:("a" "1"?)? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))), t(NONE, lit(","))]);
            parser!({x:("a" "1"?)* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(seq(vec![lit("a"), r::opt(lit("1"))]))), t(NONE, lit(","))]);
            parser!({x:("a" "1"?)+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))), t(NONE, lit(","))]);
            parser!({x:{char_of("1"), digit} => Some(x), "," => None,}), alt(vec![t(SOME, alt(vec![G::CharOf("1"), dg()])), t(NONE, lit(","))]);
            parser!({x:{char_of("1"), digit}? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(alt(vec![G::CharOf("1"), dg()]))), t(NONE, lit(","))]);
            parser!({x:{char_of("1"), digit}* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(alt(vec![G::CharOf("1"), dg()]))), t(NONE, lit(","))]);
            parser!({x:{char_of("1"), digit}+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(alt(vec![G::CharOf("1"), dg()]))), t(NONE, lit(","))]);
            parser!({x:{"a" => 7u64, y:digit => y as u64} => Some(x), "," => None,}), alt(vec![t(SOME, alt(vec![t(7, lit("a")), dg()])), t(NONE, lit(","))]);
            parser!({x:{"a" => 7u64, y:digit => y as u64}? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(alt(vec![t(7, lit("a")), dg()]))), t(NONE, lit(","))]);
            parser!({x:{"a" => 7u64, y:digit => y as u64}* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(alt(vec![t(7, lit("a")), dg()]))), t(NONE, lit(","))]);
            parser!({x:{"a" => 7u64, y:digit => y as u64}+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(alt(vec![t(7, lit("a")), dg()]))), t(NONE, lit(","))]);
            parser!({x:{alpha} => Some(x), "," => None,}), alt(vec![t(SOME, al()), t(NONE, lit(","))]);
            parser!({x:{alpha}? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(al())), t(NONE, lit(","))]);
            parser!({x:{alpha}* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(al())), t(NONE, lit(","))]);
            parser!({x:{alpha}+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(al())), t(NONE, lit(","))]);
            parser!({x:(y:alpha digit => y) => Some(x), "," => None,}), alt(vec![t(SOME, seq(vec![al(), drop1(dg())])), t(NONE, lit(","))]);
            parser!({x:(y:alpha digit => y)? => Some(x), "," => None,}), alt(vec![t(SOME, r::opt(seq(vec![al(), drop1(dg())]))), t(NONE, lit(","))]);
            parser!({x:(y:alpha digit => y)* => Some(x), "," => None,}), alt(vec![t(SOME, r::star(seq(vec![al(), drop1(dg())]))), t(NONE, lit(","))]);
            parser!({x:(y:alpha digit => y)+ => Some(x), "," => None,}), alt(vec![t(SOME, r::plus(seq(vec![al(), drop1(dg())]))), t(NONE, lit(","))]);
        }
    }
    h_g_lab_arg_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(repeat_sep(x:alpha "1"? => (x, 2u64), ",")), r::sep(seq(vec![al(), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:alpha? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(al()), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:alpha* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(al()), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:alpha+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(al()), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:"a" "1"? => (x, 2u64), ",")), r::sep(seq(vec![lit("a"), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:"a"? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(lit("a")), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:"a"* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(lit("a")), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:"a"+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(lit("a")), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:'1' "1"? => (x, 2u64), ",")), r::sep(seq(vec![lit("1"), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:'1'? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(lit("1")), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:'1'* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(lit("1")), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:'1'+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(lit("1")), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:string(alpha) "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::string(al()), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:string(alpha)? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(r::string(al())), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:string(alpha)* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(r::string(al())), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:string(alpha)+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(r::string(al())), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:char_of("a,") "1"? => (x, 2u64), ",")), r::sep(seq(vec![G::CharOf("a,"), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:char_of("a,")? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(G::CharOf("a,")), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:char_of("a,")* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(G::CharOf("a,")), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:char_of("a,")+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(G::CharOf("a,")), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(alpha digit) "1"? => (x, 2u64), ",")), r::sep(seq(vec![seq(vec![al(), dg()]), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(alpha digit)? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(seq(vec![al(), dg()])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(alpha digit)* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(seq(vec![al(), dg()])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(alpha digit)+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(seq(vec![al(), dg()])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
        }
    }
    h_g_lab_arg_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(repeat_sep(x:(digit) "1"? => (x, 2u64), ",")), r::sep(seq(vec![dg(), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(digit)? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(dg()), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(digit)* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(dg()), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(digit)+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(dg()), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:("a" "1"?) "1"? => (x, 2u64), ",")), r::sep(seq(vec![seq(vec![lit("a"), r::opt(lit("1"))]), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:("a" "1"?)? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(seq(vec![lit("a"), r::opt(lit("1"))])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:("a" "1"?)* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(seq(vec![lit("a"), r::opt(lit("1"))])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:("a" "1"?)+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(seq(vec![lit("a"), r::opt(lit("1"))])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{char_of("1"), digit} "1"? => (x, 2u64), ",")), r::sep(seq(vec![alt(vec![G::CharOf("1"), dg()]), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{char_of("1"), digit}? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(alt(vec![G::CharOf("1"), dg()])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{char_of("1"), digit}* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(alt(vec![G::CharOf("1"), dg()])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{char_of("1"), digit}+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(alt(vec![G::CharOf("1"), dg()])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{"a" => 7u64, y:digit => y as u64} "1"? => (x, 2u64), ",")), r::sep(seq(vec![alt(vec![t(7, lit("a")), dg()]), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{"a" => 7u64, y:digit => y as u64}? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(alt(vec![t(7, lit("a")), dg()])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{"a" => 7u64, y:digit => y as u64}* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(alt(vec![t(7, lit("a")), dg()])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{"a" => 7u64, y:digit => y as u64}+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(alt(vec![t(7, lit("a")), dg()])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{alpha} "1"? => (x, 2u64), ",")), r::sep(seq(vec![al(), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{alpha}? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(al()), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{alpha}* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(al()), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:{alpha}+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(al()), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(y:alpha digit => y) "1"? => (x, 2u64), ",")), r::sep(seq(vec![seq(vec![al(), drop1(dg())]), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(y:alpha digit => y)? "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::opt(seq(vec![al(), drop1(dg())])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(y:alpha digit => y)* "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::star(seq(vec![al(), drop1(dg())])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
            parser!(repeat_sep(x:(y:alpha digit => y)+ "1"? => (x, 2u64), ",")), r::sep(seq(vec![r::plus(seq(vec![al(), drop1(dg())])), drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","));
        }
    }
    h_g_lab_rule_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(rule q: Toks = x:alpha => Toks(flat(&x)); "," q), seq(vec![lit(","), al()]);
            parser!(rule q: Toks = x:alpha? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(al())]);
            parser!(rule q: Toks = x:alpha* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(al())]);
            parser!(rule q: Toks = x:alpha+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(al())]);
            parser!(rule q: Toks = x:"a" => Toks(flat(&x)); "," q), seq(vec![lit(","), lit("a")]);
            parser!(rule q: Toks = x:"a"? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(lit("a"))]);
            parser!(rule q: Toks = x:"a"* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(lit("a"))]);
            parser!(rule q: Toks = x:"a"+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(lit("a"))]);
            parser!(rule q: Toks = x:'1' => Toks(flat(&x)); "," q), seq(vec![lit(","), lit("1")]);
            parser!(rule q: Toks = x:'1'? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(lit("1"))]);
            parser!(rule q: Toks = x:'1'* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(lit("1"))]);
            parser!(rule q: Toks = x:'1'+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(lit("1"))]);
            parser!(rule q: Toks = x:string(alpha) => Toks(flat(&x)); "," q), seq(vec![lit(","), r::string(al())]);
            parser!(rule q: Toks = x:string(alpha)? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(r::string(al()))]);
            parser!(rule q: Toks = x:string(alpha)* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(r::string(al()))]);
            parser!(rule q: Toks = x:string(alpha)+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(r::string(al()))]);
            parser!(rule q: Toks = x:char_of("a,") => Toks(flat(&x)); "," q), seq(vec![lit(","), G::CharOf("a,")]);
            parser!(rule q: Toks = x:char_of("a,")? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(G::CharOf("a,"))]);
            parser!(rule q: Toks = x:char_of("a,")* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(G::CharOf("a,"))]);
            parser!(rule q: Toks = x:char_of("a,")+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(G::CharOf("a,"))]);
            parser!(rule q: Toks = x:(alpha digit) => Toks(flat(&x)); "," q), seq(vec![lit(","), seq(vec![al(), dg()])]);
            parser!(rule q: Toks = x:(alpha digit)? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(seq(vec![al(), dg()]))]);
            parser!(rule q: Toks = x:(alpha digit)* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(seq(vec![al(), dg()]))]);
            parser!(rule q: Toks = x:(alpha digit)+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(seq(vec![al(), dg()]))]);
        }
    }
    h_g_lab_rule_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(rule q: Toks = x:(digit) => Toks(flat(&x)); "," q), seq(vec![lit(","), dg()]);
            parser!(rule q: Toks = x:(digit)? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(dg())]);
            parser!(rule q: Toks = x:(digit)* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(dg())]);
            parser!(rule q: Toks = x:(digit)+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(dg())]);
            parser!(rule q: Toks = x:("a" "1"?) => Toks(flat(&x)); "," q), seq(vec![lit(","), seq(vec![lit("a"), r::opt(lit("1"))])]);
            parser!(rule q: Toks = x:("a" "1"?)? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!(rule q: Toks = x:("a" "1"?)* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!(rule q: Toks = x:("a" "1"?)+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))]);
            parser!(rule q: Toks = x:{char_of("1"), digit} => Toks(flat(&x)); "," q), seq(vec![lit(","), alt(vec![G::CharOf("1"), dg()])]);
            parser!(rule q: Toks = x:{char_of("1"), digit}? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(alt(vec![G::CharOf("1"), dg()]))]);
            parser!(rule q: Toks = x:{char_of("1"), digit}* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(alt(vec![G::CharOf("1"), dg()]))]);
            parser!(rule q: Toks = x:{char_of("1"), digit}+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(alt(vec![G::CharOf("1"), dg()]))]);
            parser!(rule q: Toks = x:{"a" => 7u64, y:digit => y as u64} => Toks(flat(&x)); "," q), seq(vec![lit(","), alt(vec![t(7, lit("a")), dg()])]);
            parser!(rule q: Toks = x:{"a" => 7u64, y:digit => y as u64}? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(alt(vec![t(7, lit("a")), dg()]))]);
            parser!(rule q: Toks = x:{"a" => 7u64, y:digit => y as u64}* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(alt(vec![t(7, lit("a")), dg()]))]);
            parser!(rule q: Toks = x:{"a" => 7u64, y:digit => y as u64}+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(alt(vec![t(7, lit("a")), dg()]))]);
            parser!(rule q: Toks = x:{alpha} => Toks(flat(&x)); "," q), seq(vec![lit(","), al()]);
            parser!(rule q: Toks = x:{alpha}? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(al())]);
            parser!(rule q: Toks = x:{alpha}* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(al())]);
            parser!(rule q: Toks = x:{alpha}+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(al())]);
            parser!(rule q: Toks = x:(y:alpha digit => y) => Toks(flat(&x)); "," q), seq(vec![lit(","), seq(vec![al(), drop1(dg())])]);
            parser!(rule q: Toks = x:(y:alpha digit => y)? => Toks(flat(&x)); "," q), seq(vec![lit(","), r::opt(seq(vec![al(), drop1(dg())]))]);
            parser!(rule q: Toks = x:(y:alpha digit => y)* => Toks(flat(&x)); "," q), seq(vec![lit(","), r::star(seq(vec![al(), drop1(dg())]))]);
            parser!(rule q: Toks = x:(y:alpha digit => y)+ => Toks(flat(&x)); "," q), seq(vec![lit(","), r::plus(seq(vec![al(), drop1(dg())]))]);
        }
    }
    h_g_rule_arm_a(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(rule q: Toks = { "," x:alpha => Toks(flat(&x)), x:alpha "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), al()]), seq(vec![al(), lit("1")])]);
            parser!(rule q: Toks = { "," x:alpha? => Toks(flat(&x)), x:alpha? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(al())]), seq(vec![r::opt(al()), lit("1")])]);
            parser!(rule q: Toks = { "," x:alpha* => Toks(flat(&x)), x:alpha* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(al())]), seq(vec![r::star(al()), lit("1")])]);
            parser!(rule q: Toks = { "," x:alpha+ => Toks(flat(&x)), x:alpha+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(al())]), seq(vec![r::plus(al()), lit("1")])]);
            parser!(rule q: Toks = { "," x:"a" => Toks(flat(&x)), x:"a" "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), lit("a")]), seq(vec![lit("a"), lit("1")])]);
            parser!(rule q: Toks = { "," x:"a"? => Toks(flat(&x)), x:"a"? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(lit("a"))]), seq(vec![r::opt(lit("a")), lit("1")])]);
            parser!(rule q: Toks = { "," x:"a"* => Toks(flat(&x)), x:"a"* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(lit("a"))]), seq(vec![r::star(lit("a")), lit("1")])]);
            parser!(rule q: Toks = { "," x:"a"+ => Toks(flat(&x)), x:"a"+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(lit("a"))]), seq(vec![r::plus(lit("a")), lit("1")])]);
            parser!(rule q: Toks = { "," x:'1' => Toks(flat(&x)), x:'1' "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), lit("1")]), seq(vec![lit("1"), lit("1")])]);
            parser!(rule q: Toks = { "," x:'1'? => Toks(flat(&x)), x:'1'? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(lit("1"))]), seq(vec![r::opt(lit("1")), lit("1")])]);
            parser!(rule q: Toks = { "," x:'1'* => Toks(flat(&x)), x:'1'* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(lit("1"))]), seq(vec![r::star(lit("1")), lit("1")])]);
            parser!(rule q: Toks = { "," x:'1'+ => Toks(flat(&x)), x:'1'+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(lit("1"))]), seq(vec![r::plus(lit("1")), lit("1")])]);
            parser!(rule q: Toks = { "," x:string(alpha) => Toks(flat(&x)), x:string(alpha) "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::string(al())]), seq(vec![r::string(al()), lit("1")])]);
            parser!(rule q: Toks = { "," x:string(alpha)? => Toks(flat(&x)), x:string(alpha)? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(r::string(al()))]), seq(vec![r::opt(r::string(al())), lit("1")])]);
            parser!(rule q: Toks = { "," x:string(alpha)* => Toks(flat(&x)), x:string(alpha)* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(r::string(al()))]), seq(vec![r::star(r::string(al())), lit("1")])]);
            parser!(rule q: Toks = { "," x:string(alpha)+ => Toks(flat(&x)), x:string(alpha)+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(r::string(al()))]), seq(vec![r::plus(r::string(al())), lit("1")])]);
            parser!(rule q: Toks = { "," x:char_of("a,") => Toks(flat(&x)), x:char_of("a,") "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), G::CharOf("a,")]), seq(vec![G::CharOf("a,"), lit("1")])]);
            parser!(rule q: Toks = { "," x:char_of("a,")? => Toks(flat(&x)), x:char_of("a,")? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(G::CharOf("a,"))]), seq(vec![r::opt(G::CharOf("a,")), lit("1")])]);
            parser!(rule q: Toks = { "," x:char_of("a,")* => Toks(flat(&x)), x:char_of("a,")* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(G::CharOf("a,"))]), seq(vec![r::star(G::CharOf("a,")), lit("1")])]);
            parser!(rule q: Toks = { "," x:char_of("a,")+ => Toks(flat(&x)), x:char_of("a,")+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(G::CharOf("a,"))]), seq(vec![r::plus(G::CharOf("a,")), lit("1")])]);
            parser!(rule q: Toks = { "," x:(alpha digit) => Toks(flat(&x)), x:(alpha digit) "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), seq(vec![al(), dg()])]), seq(vec![seq(vec![al(), dg()]), lit("1")])]);
            parser!(rule q: Toks = { "," x:(alpha digit)? => Toks(flat(&x)), x:(alpha digit)? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(seq(vec![al(), dg()]))]), seq(vec![r::opt(seq(vec![al(), dg()])), lit("1")])]);
            parser!(rule q: Toks = { "," x:(alpha digit)* => Toks(flat(&x)), x:(alpha digit)* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(seq(vec![al(), dg()]))]), seq(vec![r::star(seq(vec![al(), dg()])), lit("1")])]);
            parser!(rule q: Toks = { "," x:(alpha digit)+ => Toks(flat(&x)), x:(alpha digit)+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(seq(vec![al(), dg()]))]), seq(vec![r::plus(seq(vec![al(), dg()])), lit("1")])]);
        }
    }
    h_g_rule_arm_b(l) {
        let s = sym::ascii_upto(size(l), "a1,");
        let c = mode(l);
        each! { s c;
            parser!(rule q: Toks = { "," x:(digit) => Toks(flat(&x)), x:(digit) "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), dg()]), seq(vec![dg(), lit("1")])]);
            parser!(rule q: Toks = { "," x:(digit)? => Toks(flat(&x)), x:(digit)? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(dg())]), seq(vec![r::opt(dg()), lit("1")])]);
            parser!(rule q: Toks = { "," x:(digit)* => Toks(flat(&x)), x:(digit)* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(dg())]), seq(vec![r::star(dg()), lit("1")])]);
            parser!(rule q: Toks = { "," x:(digit)+ => Toks(flat(&x)), x:(digit)+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(dg())]), seq(vec![r::plus(dg()), lit("1")])]);
            parser!(rule q: Toks = { "," x:("a" "1"?) => Toks(flat(&x)), x:("a" "1"?) "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), seq(vec![lit("a"), r::opt(lit("1"))])]), seq(vec![seq(vec![lit("a"), r::opt(lit("1"))]), lit("1")])]);
            parser!(rule q: Toks = { "," x:("a" "1"?)? => Toks(flat(&x)), x:("a" "1"?)? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(seq(vec![lit("a"), r::opt(lit("1"))]))]), seq(vec![r::opt(seq(vec![lit("a"), r::opt(lit("1"))])), lit("1")])]);
            parser!(rule q: Toks = { "," x:("a" "1"?)* => Toks(flat(&x)), x:("a" "1"?)* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(seq(vec![lit("a"), r::opt(lit("1"))]))]), seq(vec![r::star(seq(vec![lit("a"), r::opt(lit("1"))])), lit("1")])]);
            parser!(rule q: Toks = { "," x:("a" "1"?)+ => Toks(flat(&x)), x:("a" "1"?)+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(seq(vec![lit("a"), r::opt(lit("1"))]))]), seq(vec![r::plus(seq(vec![lit("a"), r::opt(lit("1"))])), lit("1")])]);
            parser!(rule q: Toks = { "," x:{char_of("1"), digit} => Toks(flat(&x)), x:{char_of("1"), digit} "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), alt(vec![G::CharOf("1"), dg()])]), seq(vec![alt(vec![G::CharOf("1"), dg()]), lit("1")])]);
            parser!(rule q: Toks = { "," x:{char_of("1"), digit}? => Toks(flat(&x)), x:{char_of("1"), digit}? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(alt(vec![G::CharOf("1"), dg()]))]), seq(vec![r::opt(alt(vec![G::CharOf("1"), dg()])), lit("1")])]);
            parser!(rule q: Toks = { "," x:{char_of("1"), digit}* => Toks(flat(&x)), x:{char_of("1"), digit}* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(alt(vec![G::CharOf("1"), dg()]))]), seq(vec![r::star(alt(vec![G::CharOf("1"), dg()])), lit("1")])]);
            parser!(rule q: Toks = { "," x:{char_of("1"), digit}+ => Toks(flat(&x)), x:{char_of("1"), digit}+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(alt(vec![G::CharOf("1"), dg()]))]), seq(vec![r::plus(alt(vec![G::CharOf("1"), dg()])), lit("1")])]);
            parser!(rule q: Toks = { "," x:{"a" => 7u64, y:digit => y as u64} => Toks(flat(&x)), x:{"a" => 7u64, y:digit => y as u64} "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), alt(vec![t(7, lit("a")), dg()])]), seq(vec![alt(vec![t(7, lit("a")), dg()]), lit("1")])]);
            parser!(rule q: Toks = { "," x:{"a" => 7u64, y:digit => y as u64}? => Toks(flat(&x)), x:{"a" => 7u64, y:digit => y as u64}? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(alt(vec![t(7, lit("a")), dg()]))]), seq(vec![r::opt(alt(vec![t(7, lit("a")), dg()])), lit("1")])]);
            parser!(rule q: Toks = { "," x:{"a" => 7u64, y:digit => y as u64}* => Toks(flat(&x)), x:{"a" => 7u64, y:digit => y as u64}* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(alt(vec![t(7, lit("a")), dg()]))]), seq(vec![r::star(alt(vec![t(7, lit("a")), dg()])), lit("1")])]);
            parser!(rule q: Toks = { "," x:{"a" => 7u64, y:digit => y as u64}+ => Toks(flat(&x)), x:{"a" => 7u64, y:digit => y as u64}+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(alt(vec![t(7, lit("a")), dg()]))]), seq(vec![r::plus(alt(vec![t(7, lit("a")), dg()])), lit("1")])]);
            parser!(rule q: Toks = { "," x:{alpha} => Toks(flat(&x)), x:{alpha} "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), al()]), seq(vec![al(), lit("1")])]);
            parser!(rule q: Toks = { "," x:{alpha}? => Toks(flat(&x)), x:{alpha}? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(al())]), seq(vec![r::opt(al()), lit("1")])]);
            parser!(rule q: Toks = { "," x:{alpha}* => Toks(flat(&x)), x:{alpha}* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(al())]), seq(vec![r::star(al()), lit("1")])]);
            parser!(rule q: Toks = { "," x:{alpha}+ => Toks(flat(&x)), x:{alpha}+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(al())]), seq(vec![r::plus(al()), lit("1")])]);
            parser!(rule q: Toks = { "," x:(y:alpha digit => y) => Toks(flat(&x)), x:(y:alpha digit => y) "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), seq(vec![al(), drop1(dg())])]), seq(vec![seq(vec![al(), drop1(dg())]), lit("1")])]);
            parser!(rule q: Toks = { "," x:(y:alpha digit => y)? => Toks(flat(&x)), x:(y:alpha digit => y)? "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::opt(seq(vec![al(), drop1(dg())]))]), seq(vec![r::opt(seq(vec![al(), drop1(dg())])), lit("1")])]);
            parser!(rule q: Toks = { "," x:(y:alpha digit => y)* => Toks(flat(&x)), x:(y:alpha digit => y)* "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::star(seq(vec![al(), drop1(dg())]))]), seq(vec![r::star(seq(vec![al(), drop1(dg())])), lit("1")])]);
            parser!(rule q: Toks = { "," x:(y:alpha digit => y)+ => Toks(flat(&x)), x:(y:alpha digit => y)+ "1" => Toks(flat(&x)) }; q), alt(vec![seq(vec![lit(","), r::plus(seq(vec![al(), drop1(dg())]))]), seq(vec![r::plus(seq(vec![al(), drop1(dg())])), lit("1")])]);
        }
    }
}
