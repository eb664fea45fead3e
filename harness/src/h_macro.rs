//! The pattern language as written in parser!: every form of term, with and
//! without a label, under every quantifier, against the pattern it stands for.
use crate::flat::*;
use crate::refm::{self as r, diff, mode, size, G};
use crate::sym;
use aoc_parse::{parser, prelude::*};

fn lit<'a>(s: &'a str) -> G<'a> { G::Lit(s) }
fn seq<'a>(v: Vec<G<'a>>) -> G<'a> { G::Seq(v) }
fn alt<'a>(v: Vec<G<'a>>) -> G<'a> { G::Alt(v) }
fn t(n: u64, g: G) -> G { r::tag(n, g) }
fn drop1(g: G) -> G { G::Drop(r::b(g)) }
macro_rules! m { ($l:ident $alpha:literal $p:expr, $g:expr) => {{ let s = sym::ascii_upto(size($l), $alpha); diff(&$p, &$g, &s, mode($l)) }} }
fn al<'a>() -> G<'a> { r::alpha() }
fn dg<'a>() -> G<'a> { r::digit() }

harness! {
    // ---- unlabelled terms and quantifiers
    h_m_ident(l) { m!(l "a1." parser!(alpha digit? alpha* digit+), seq(vec![al(), r::opt(dg()), r::star(al()), r::plus(dg())])) }
    h_m_lit(l) { m!(l "a1." parser!("a" "1"? "."* "a"+), seq(vec![lit("a"), r::opt(lit("1")), r::star(lit(".")), r::plus(lit("a"))])) }
    h_m_char(l) { m!(l "a1." parser!('a' '1'? '.'* 'a'+), seq(vec![lit("a"), r::opt(lit("1")), r::star(lit(".")), r::plus(lit("a"))])) }
    h_m_call(l) { m!(l "a1," parser!(string(alpha) string(digit)? string("," alpha)* string(digit alpha?)+), seq(vec![r::string(al()), r::opt(r::string(dg())), r::star(r::string(seq(vec![lit(","), al()]))), r::plus(r::string(seq(vec![dg(), r::opt(al())])))])) }
    h_m_group(l) { m!(l "a1" parser!((alpha) (digit alpha)? (alpha "1")* (digit)+), seq(vec![al(), r::opt(seq(vec![dg(), al()])), r::star(seq(vec![al(), lit("1")])), r::plus(dg())])) }
    h_m_brace(l) { m!(l "a1." parser!({alpha, any_char} {digit}? {"a" => 7u64, "1" => 8}* {"." => 9u64, x:digit => x as u64}+), seq(vec![alt(vec![al(), r::any()]), r::opt(dg()), r::star(alt(vec![t(7, lit("a")), t(8, lit("1"))])), r::plus(alt(vec![t(9, lit(".")), dg()]))])) }
    h_m_single(l) { m!(l "a1" parser!(alpha), al()) }
    h_m_empty_group(l) { m!(l "a1" parser!(() alpha), al()) }
    h_m_star_only(l) { m!(l "a1" parser!("a1"*), r::star(lit("a1"))) }
    // ---- labelled terms and quantifiers
    h_m_l_ident(l) { m!(l "a1." parser!(w:alpha x:digit? y:alpha* z:digit+ => (w, x, y, z)), seq(vec![al(), r::opt(dg()), r::star(al()), r::plus(dg())])) }
    h_m_l_lit(l) { m!(l "a1." parser!(w:"a" x:"1"? y:"."* z:"a"+ => (w, x, y, z)), seq(vec![lit("a"), r::opt(lit("1")), r::star(lit(".")), r::plus(lit("a"))])) }
    h_m_l_char(l) { m!(l "a1." parser!(w:'a' x:'1'? y:'.'* z:'a'+ => (w, x, y, z)), seq(vec![lit("a"), r::opt(lit("1")), r::star(lit(".")), r::plus(lit("a"))])) }
    h_m_l_call(l) { m!(l "a1," parser!(w:string(alpha) x:string(digit)? y:string("," alpha)* z:string(digit alpha?)+ => (w, x, y, z)), seq(vec![r::string(al()), r::opt(r::string(dg())), r::star(r::string(seq(vec![lit(","), al()]))), r::plus(r::string(seq(vec![dg(), r::opt(al())])))])) }
    h_m_l_group(l) { m!(l "a1" parser!(w:(alpha) x:(digit alpha)? y:(alpha "1")* z:(digit)+ => (w, x, y, z)), seq(vec![al(), r::opt(seq(vec![dg(), al()])), r::star(seq(vec![al(), lit("1")])), r::plus(dg())])) }
    h_m_l_brace(l) { m!(l "a1." parser!(w:{alpha, any_char} x:{digit}? y:{"a" => 7u64, "1" => 8}* z:{"." => 9u64, x:digit => x as u64}+ => (w, x, y, z)), seq(vec![alt(vec![al(), r::any()]), r::opt(dg()), r::star(alt(vec![t(7, lit("a")), t(8, lit("1"))])), r::plus(alt(vec![t(9, lit(".")), dg()]))])) }
    h_m_l_one(l) { m!(l "a1" parser!(w:alpha => (3u64, w)), t(3, al())) }
    h_m_l_none(l) { m!(l "a1" parser!(alpha digit => 3u64), t(3, seq(vec![drop1(al()), drop1(dg())]))) }
    h_m_l_unit(l) { m!(l "a1" parser!("a"? => 3u64), t(3, drop1(r::opt(lit("a"))))) }
    // ---- labels select; unlabelled terms between them are matched and dropped
    h_m_pick_mid(l) { m!(l "a1." parser!(alpha? "." x:digit "." alpha* => x), seq(vec![drop1(r::opt(al())), lit("."), dg(), lit("."), drop1(r::star(al()))])) }
    h_m_pick_ends(l) { m!(l "a1." parser!(x:alpha any_char any_char y:digit => (x, y)), seq(vec![al(), drop1(r::any()), drop1(r::any()), dg()])) }
    h_m_pick_six(l) { m!(l "a1" parser!(a:alpha b:digit? c:alpha d:digit* e:any_char f:{alpha, any_char} => (a, b, c, d, (e, f))), seq(vec![al(), r::opt(dg()), al(), r::star(dg()), r::any(), alt(vec![al(), r::any()])])) }
    // ---- scope of labels and conversions
    h_m_scope(l) { m!(l "a1" parser!(x:(x:alpha y:digit => (x, y, 1u64)) y:(x:digit y:alpha => (y, x, 2u64)) => (x, y)), seq(vec![al(), dg(), t(1, G::Empty), G::Lex(|s, p| { let b = &s.as_bytes()[p..]; if b.len() >= 2 && b[0] == b'1' && b[1] == b'a' { r::LexR::Ok(p + 2, vec![b'a' as u64, 1, 2]) } else { r::LexR::No } }, "decimal digit")])) }
    h_m_in_arm(l) { m!(l "a1." parser!({x:alpha y:digit => (x, y), y:digit "." x:alpha => (x, y + 100)}), alt(vec![seq(vec![al(), dg()]), G::Lex(|s, p| { let b = &s.as_bytes()[p..]; if b.len() >= 3 && b[0] == b'1' && b[1] == b'.' && b[2] == b'a' { r::LexR::Ok(p + 3, vec![b'a' as u64, 101]) } else { r::LexR::No } }, "decimal digit")])) }
    h_m_in_arg(l) { m!(l "a1," parser!(repeat_sep(x:alpha y:digit => (y, x), d:"," => d)), r::sep(G::Lex(|s, p| { let b = &s.as_bytes()[p..]; if b.len() >= 2 && b[0] == b'a' && b[1] == b'1' { r::LexR::Ok(p + 2, vec![1, b'a' as u64]) } else { r::LexR::No } }, "letter"), lit(","))) }
    h_m_capture(l) { let k = 40u64; let f = |n: usize| n as u64 + k; m!(l "a1" parser!(x:digit y:alpha? => (f(x), y, k)), seq(vec![G::Lex(|s, p| if s.len() > p && s.as_bytes()[p] == b'1' { r::LexR::Ok(p + 1, vec![41]) } else { r::LexR::No }, "decimal digit"), r::opt(al()), t(40, G::Empty)])) }
    h_m_nested_map(l) { m!(l "a1" parser!(((("a" => 1u64) => 2u64) b:("1" => 3u64) => b)* => 4u64), t(4, drop1(r::star(seq(vec![lit("a"), lit("1")]))))) }
    // ---- arguments of calls
    h_m_args_trailing(l) { m!(l "a1," parser!(repeat_sep(alpha, ",",)), r::sep(al(), lit(","))) }
    h_m_args_nested(l) { m!(l "a1,\n" parser!(lines(repeat_sep(string(alpha+ digit?), {",", "1"}))), r::lines(r::sep(r::string(seq(vec![r::plus(al()), r::opt(dg())])), alt(vec![lit(","), lit("1")])))) }
    h_m_args_var(l) { let word = parser!(string(alpha+)); let comma = ","; m!(l "ab," parser!(repeat_sep(word, comma) comma?), seq(vec![r::sep(r::string(r::plus(al())), lit(",")), r::opt(lit(","))])) }
    h_m_args_ref(l) { let word = parser!(alpha+ digit); let w = &word; m!(l "a1," parser!(repeat_sep(w, ",")), r::sep(seq(vec![r::plus(al()), dg()]), lit(","))) }
    // ---- alternatives
    h_m_alt_many(l) { m!(l "abcd" parser!({"a" => 0u64, "ab" => 1, "abc" => 2, "b" => 3, "bc" => 4, "c" => 5, "cd" => 6, "d" => 7}+), r::plus(alt(vec![t(0, lit("a")), t(1, lit("ab")), t(2, lit("abc")), t(3, lit("b")), t(4, lit("bc")), t(5, lit("c")), t(6, lit("cd")), t(7, lit("d"))]))) }
    h_m_alt_trailing(l) { m!(l "ab" parser!({"a" => 0u64, "b" => 1,}*), r::star(alt(vec![t(0, lit("a")), t(1, lit("b"))]))) }
    h_m_alt_nested(l) { m!(l "abc" parser!({{"a" => 0u64, "ab" => 1}, {"abc" => 2, "b" => 3}} "c"*), seq(vec![alt(vec![alt(vec![t(0, lit("a")), t(1, lit("ab"))]), alt(vec![t(2, lit("abc")), t(3, lit("b"))])]), r::star(lit("c"))])) }
    h_m_alt_empty_arm(l) { m!(l "ab" parser!({"ab" => 0u64, "" => 1, "a" => 2} "b"?), seq(vec![alt(vec![t(0, lit("ab")), t(1, lit("")), t(2, lit("a"))]), r::opt(lit("b"))])) }
    h_m_alt_fn(l) { m!(l "ab" parser!({"a" x:alpha? => Some(x), "b" => None, "aa" => None}), alt(vec![seq(vec![lit("a"), t(SOME, r::opt(al()))]), t(NONE, lit("b")), t(NONE, lit("aa"))])) }
    // ---- several steps of nesting
    h_m_deep(l) { m!(l "a1," parser!(((alpha digit?)+ ("," (alpha)*)?)*), r::star(seq(vec![r::plus(seq(vec![al(), r::opt(dg())])), r::opt(seq(vec![lit(","), r::star(al())]))]))) }
    h_m_long(l) { m!(l "a1" parser!("a"? alpha "1"? "a"? digit "a"? any_char* => 5u64), t(5, seq(vec![drop1(r::opt(lit("a"))), drop1(al()), drop1(r::opt(lit("1"))), drop1(r::opt(lit("a"))), drop1(dg()), drop1(r::opt(lit("a"))), drop1(r::star(r::any()))]))) }
    // ---- rules written every way
    h_m_rules(l) { m!(l "a1(" parser!(rule x: (char, Option<usize>) = alpha digit?; rule y: u64 = {"(" => 1, "1" => 2,}; rule z: Vec<char> = a:x b:y* => { let mut v = vec![a.0]; for i in b { v.push(if i == 1 { '(' } else { '1' }) } v }; z+), r::plus(seq(vec![t(LIST, al()), drop1(r::opt(dg())), r::star_flat(alt(vec![lit_tok("(", '('), lit_tok("1", '1')])), t(END, G::Empty)]))) }
}
fn lit_tok<'a>(s: &'a str, c: char) -> G<'a> { t(c as u64, lit(s)) }
