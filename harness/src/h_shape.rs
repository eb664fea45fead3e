//! The shape of the value a pattern produces, and when conversions run.
use crate::flat::*;
use crate::refm::{self as r, diff, Sub, Table, G};
use crate::sym;
use aoc_parse::{parser, prelude::*, Parser};
use std::cell::RefCell;

/// the type of a value, spelled out
pub trait Shape { fn shape() -> String; }
impl Shape for u64 { fn shape() -> String { "n".into() } }
impl Shape for usize { fn shape() -> String { "z".into() } }
impl Shape for char { fn shape() -> String { "c".into() } }
impl Shape for String { fn shape() -> String { "s".into() } }
impl Shape for () { fn shape() -> String { "()".into() } }
impl<T: Shape> Shape for Vec<T> { fn shape() -> String { format!("[{}]", T::shape()) } }
impl<T: Shape> Shape for Option<T> { fn shape() -> String { format!("{}?", T::shape()) } }
macro_rules! tup { ($($t:ident)*) => { impl<$($t: Shape),*> Shape for ($($t,)*) { fn shape() -> String { let v: Vec<String> = vec![$( $t::shape() ),*]; format!("({})", v.join(",")) } } } }
tup!(A);
tup!(A B);
tup!(A B C);
tup!(A B C D);
tup!(A B C D E);
tup!(A B C D E F);
tup!(A B C D E F G);
tup!(A B C D E F G H);

const DOTS: &str = "................";
fn g(t: &Table) -> G<'_> { G::Sub(t) }
fn dot<'a>() -> G<'a> { G::Lit(".") }
fn seq<'a>(v: Vec<G<'a>>) -> G<'a> { G::Seq(v) }
fn alt<'a>(v: Vec<G<'a>>) -> G<'a> { G::Alt(v) }
fn drop1(g: G) -> G { G::Drop(r::b(g)) }
fn same_shape(a: &str, b: &str) -> bool { a == b }
fn shaped<P: Parser>(p: &P, want: &str, g: G, s: &str, l: u32) where P::Output: Flat + Shape {
    sym::check(same_shape(&P::Output::shape(), want), "the value does not have the documented type");
    diff(p, &g, s, r::mode(l));
}
macro_rules! subs {
    ($l:ident $t:ident $s:ident ; $($a:ident)*) => {
        let $s = &DOTS[..r::size($l)];
        let k = r::alts($l);
        let $t = [Table::new(0, $s, k), Table::new(1, $s, k), Table::new(2, $s, k), Table::new(3, $s, k)];
        let mut it = $t.iter();
        $( let $a: Sub = it.next().unwrap().sub(); )*
        let _ = &mut it;
    };
}
/// Did the conversions in `log` happen exactly once for each of `want`?
fn ran(log: &RefCell<Vec<u64>>, mut want: Vec<u64>) {
    let mut l = log.borrow().clone();
    l.sort();
    want.sort();
    sym::check(eq_tokens_sorted(&l, &want), "conversion expressions did not run exactly once for each value of the result");
}
fn eq_tokens_sorted(a: &[u64], b: &[u64]) -> bool { r::eq_tokens(a, b) }
/// mapped values are tagged so that they can be found in the result
const T: u64 = 1 << 40;
fn check_log<P: Parser>(p: &P, s: &str, log: &RefCell<Vec<u64>>) where P::Output: Flat {
    match p.parse(s) {
        Ok(v) => {
            sym::reach(1);
            let all = flat(&v);
            ran(log, all.into_iter().filter(|x| x & T != 0 && x >> 41 == 0).collect());
        }
        Err(_) => { sym::reach(2); ran(log, vec![]) }
    }
}

harness! {
    h_one(l) { subs!(l t s; a); shaped(&parser!(a), "n", g(&t[0]), s, l) }
    h_two(l) { subs!(l t s; a b); shaped(&parser!(a b), "(n,n)", seq(vec![g(&t[0]), g(&t[1])]), s, l) }
    h_between(l) { subs!(l t s; a b); shaped(&parser!(a "." b), "(n,n)", seq(vec![g(&t[0]), dot(), g(&t[1])]), s, l) }
    h_around(l) { subs!(l t s; a); shaped(&parser!("." a '.'), "n", seq(vec![dot(), g(&t[0]), dot()]), s, l) }
    h_none(l) { let s = sym::ascii_upto(r::size(l), ".x"); shaped(&parser!("." '.'), "()", seq(vec![dot(), dot()]), &s, l) }
    h_group_l(l) { subs!(l t s; a b c); shaped(&parser!((a b) c), "((n,n),n)", seq(vec![g(&t[0]), g(&t[1]), g(&t[2])]), s, l) }
    h_group_r(l) { subs!(l t s; a b c); shaped(&parser!(a "" (b "." c)), "(n,(n,n))", seq(vec![g(&t[0]), G::Lit(""), g(&t[1]), dot(), g(&t[2])]), s, l) }
    h_group_1(l) { subs!(l t s; a b); shaped(&parser!((a) "." (b)), "(n,n)", seq(vec![g(&t[0]), dot(), g(&t[1])]), s, l) }
    h_group_unit(l) { subs!(l t s; a); shaped(&parser!((".") a), "((),n)", seq(vec![dot(), g(&t[0])]), s, l) }
    h_named(l) { subs!(l t s; a b c); let p = parser!(a b); shaped(&parser!(p c), "((n,n),n)", seq(vec![g(&t[0]), g(&t[1]), g(&t[2])]), s, l) }
    h_named_lit(l) { subs!(l t s; a); let p = parser!(a "."); let q = "."; shaped(&parser!(q p), "n", seq(vec![dot(), g(&t[0]), dot()]), s, l) }
    h_opt1(l) { subs!(l t s; a); shaped(&parser!(a? "."*), "(n?,[()])", seq(vec![r::opt(g(&t[0])), r::star(dot())]), s, l) }
    h_opt_pair(l) { subs!(l t s; a b); shaped(&parser!((a "." b)? "."?), "((n,n)?,()?)", seq(vec![r::opt(seq(vec![g(&t[0]), dot(), g(&t[1])])), r::opt(dot())]), s, l) }
    h_star1(l) { subs!(l t s; a b); shaped(&parser!(a* "." b+), "([n],[n])", seq(vec![r::star(g(&t[0])), dot(), r::plus(g(&t[1]))]), s, l) }
    h_star_pair(l) { subs!(l t s; a b); shaped(&parser!((a b)*), "[(n,n)]", r::star(seq(vec![g(&t[0]), g(&t[1])])), s, l) }
    h_star_of_opt(l) { subs!(l t s; a); shaped(&parser!(("." a?)*), "[n?]", r::star(seq(vec![dot(), r::opt(g(&t[0]))])), s, l) }
    h_opt_of_star(l) { subs!(l t s; a); shaped(&parser!(("." a*)? "."), "[n]?", seq(vec![r::opt(seq(vec![dot(), r::star(g(&t[0]))])), dot()]), s, l) }
    h_sep_val(l) { subs!(l t s; a b); shaped(&parser!(repeat_sep(a, b) "."), "[n]", seq(vec![r::sep(g(&t[0]), g(&t[1])), dot()]), s, l) }
    h_sep_pair(l) { subs!(l t s; a b); shaped(&parser!(repeat_sep(a b, ".")), "[(n,n)]", r::sep(seq(vec![g(&t[0]), g(&t[1])]), dot()), s, l) }
    h_line_val(l) { subs!(l t s; a b); shaped(&parser!(line(a b)), "(n,n)", r::line(seq(vec![g(&t[0]), g(&t[1])])), s, l) }
    h_line_optval(l) { subs!(l t s; a b); shaped(&parser!(line(a)? b?), "(n?,n?)", seq(vec![r::opt(r::line(g(&t[0]))), r::opt(g(&t[1]))]), s, l) }
    h_lines_val(l) { subs!(l t s; a); shaped(&parser!(lines(a)), "[n]", r::lines(g(&t[0])), s, l) }
    h_section_val(l) { subs!(l t s; a b); shaped(&parser!(section(a b)), "(n,n)", r::section(seq(vec![g(&t[0]), g(&t[1])])), s, l) }
    h_sections_val(l) { subs!(l t s; a); shaped(&parser!(sections(lines(a))), "[[n]]", r::sections(r::lines(g(&t[0]))), s, l) }
    h_alt_val(l) { subs!(l t s; a b c); shaped(&parser!({a, b} c), "(n,n)", seq(vec![alt(vec![g(&t[0]), g(&t[1])]), g(&t[2])]), s, l) }
    h_alt_pairs(l) { subs!(l t s; a b c); shaped(&parser!({a b, b "." a} c), "((n,n),n)", seq(vec![alt(vec![seq(vec![g(&t[0]), g(&t[1])]), seq(vec![g(&t[1]), dot(), g(&t[0])])]), g(&t[2])]), s, l) }
    h_alt_trailing(l) { subs!(l t s; a b); shaped(&parser!({ a "." , b , }), "n", alt(vec![seq(vec![g(&t[0]), dot()]), g(&t[1])]), s, l) }
    h_alt_opt(l) { subs!(l t s; a b); shaped(&parser!({a, b}?), "n?", r::opt(alt(vec![g(&t[0]), g(&t[1])])), s, l) }
    h_string_val(l) { subs!(l t s; a b); shaped(&parser!(string(a b) "."?), "(s,()?)", seq(vec![r::string(seq(vec![g(&t[0]), g(&t[1])])), r::opt(dot())]), s, l) }
    h_tuple4(l) { subs!(l t s; a b c d); shaped(&parser!(a b "." c d), "(n,n,n,n)", seq(vec![g(&t[0]), g(&t[1]), dot(), g(&t[2]), g(&t[3])]), s, l) }
    h_tuple8(l) {
        let s = sym::ascii(r::size(l), "");
        shaped(&parser!(any_char any_char any_char any_char any_char any_char any_char any_char), "(c,c,c,c,c,c,c,c)", seq((0..8).map(|_| r::any()).collect()), &s, l)
    }
    h_tuple7(l) {
        let s = sym::ascii(r::size(l), "ab");
        shaped(&parser!(any_char "a"? any_char digit* any_char any_char string(alpha*)), "(c,()?,c,[z],c,c,s)", seq(vec![r::any(), r::opt(G::Lit("a")), r::any(), r::star(r::digit()), r::any(), r::any(), r::string(r::star(r::alpha()))]), &s, l)
    }
    h_tuple6(l) {
        let s = sym::ascii(r::size(l), "a.");
        shaped(&parser!("."? (any_char any_char) "a"* any_char "."? any_char), "(()?,(c,c),[()],c,()?,c)", seq(vec![r::opt(dot()), r::any(), r::any(), r::star(G::Lit("a")), r::any(), r::opt(dot()), r::any()]), &s, l)
    }
    // ---- labels and conversion expressions
    h_map1(l) { subs!(l t s; a); shaped(&parser!(x:a => (5u64, x)), "(n,n)", r::tag(5, g(&t[0])), s, l) }
    h_map_swap(l) {
        subs!(l t s; a b);
        let p = parser!(x:a "." y:b => vec![y, x]);
        match p.parse(s) {
            Ok(v) => { sym::reach(1); sym::check(v.len() == 2 && v[1] >> 32 == 0 && v[0] >> 32 == 1, "a label is bound to the value of another pattern") }
            Err(_) => sym::reach(2),
        }
    }
    h_map_unlabelled(l) { subs!(l t s; a b c); shaped(&parser!(a y:b c => y), "n", seq(vec![drop1(g(&t[0])), g(&t[1]), drop1(g(&t[2]))]), s, l) }
    h_map_group(l) { subs!(l t s; a b c); shaped(&parser!(x:a y:(b "." c) => (x, y.0, y.1)), "(n,n,n)", seq(vec![g(&t[0]), g(&t[1]), dot(), g(&t[2])]), s, l) }
    h_map_star(l) { subs!(l t s; a b); shaped(&parser!("." xs:a* y:b? => (xs, y)), "([n],n?)", seq(vec![dot(), r::star(g(&t[0])), r::opt(g(&t[1]))]), s, l) }
    h_map_call(l) { subs!(l t s; a b c); shaped(&parser!(x:a v:repeat_sep(b, ".") c => (x, v)), "(n,[n])", seq(vec![g(&t[0]), r::sep(g(&t[1]), dot()), drop1(g(&t[2]))]), s, l) }
    h_map_call_unlabelled(l) { subs!(l t s; a b); shaped(&parser!(repeat_sep(a, ".") y:b => y), "n", seq(vec![drop1(r::sep(g(&t[0]), dot())), g(&t[1])]), s, l) }
    h_map_line(l) { subs!(l t s; a b); shaped(&parser!(x:line(a) y:lines(b) => (x, y)), "(n,[n])", seq(vec![r::line(g(&t[0])), r::lines(g(&t[1]))]), s, l) }
    h_map_const(l) { subs!(l t s; a); shaped(&parser!({"." => 3u64, ".." => 4u64} a), "(n,n)", seq(vec![alt(vec![r::tag(3, dot()), r::tag(4, G::Lit(".."))]), g(&t[0])]), s, l) }
    h_map_nested(l) { subs!(l t s; a b); shaped(&parser!(x:(y:a => (7u64, y)) z:b => (8u64, x, z)), "(n,(n,n),n)", seq(vec![r::tag(8, G::Empty), r::tag(7, g(&t[0])), g(&t[1])]), s, l) }
    h_map_brace(l) { subs!(l t s; a b c); shaped(&parser!(x:{a, b} "."? y:{c} => (x, y)), "(n,n)", seq(vec![alt(vec![g(&t[0]), g(&t[1])]), drop1(r::opt(dot())), g(&t[2])]), s, l) }
    h_map_in_star(l) { subs!(l t s; a b); shaped(&parser!((x:a b => x)* "."?), "([n],()?)", seq(vec![r::star(seq(vec![g(&t[0]), drop1(g(&t[1]))])), r::opt(dot())]), s, l) }
    h_map_five(l) {
        let s = sym::ascii(r::size(l), "");
        shaped(&parser!(v:any_char any_char w:any_char x:any_char "."? z:any_char => (z, x, w, v)), "(c,c,c,c)", G::Lex(|s, p| {
            let b = s.as_bytes();
            let n = b.len() - p;
            let k = |i: usize| b[p + i] as u64;
            if n == 5 { r::LexR::Ok(p + 5, vec![k(4), k(3), k(2), k(0)]) } else if n == 6 && b[p + 4] == b'.' { r::LexR::Ok(p + 6, vec![k(5), k(3), k(2), k(0)]) } else { r::LexR::No }
        }, "any character"), &s, l)
    }
    // ---- conversions run once per value of the final result, and only then
    h_ran_star(l) {
        subs!(l t s; a b);
        let log = RefCell::new(vec![]);
        let f = |x: u64| { let v = x & !(0xffu64 << 32) | T; log.borrow_mut().push(v); v };
        check_log(&parser!((x:a => f(x))* b), s, &log)
    }
    h_ran_alt(l) {
        subs!(l t s; a b c);
        let log = RefCell::new(vec![]);
        let f = |x: u64| { let v = x & !(0xffu64 << 32) | T; log.borrow_mut().push(v); v };
        check_log(&parser!({x:a b => f(x), y:b => f(y)} c), s, &log)
    }
    h_ran_opt(l) {
        subs!(l t s; a b);
        let log = RefCell::new(vec![]);
        let f = |x: u64| { let v = x & !(0xffu64 << 32) | T; log.borrow_mut().push(v); v };
        check_log(&parser!((x:a => f(x))? (y:b => f(y))?), s, &log)
    }
    h_ran_sep(l) {
        subs!(l t s; a b);
        let log = RefCell::new(vec![]);
        let f = |x: u64| { let v = x & !(0xffu64 << 32) | T; log.borrow_mut().push(v); v };
        check_log(&parser!(repeat_sep(x:a => f(x), y:b => f(y))), s, &log)
    }
    h_ran_string(l) {
        subs!(l t s; a b);
        let log = RefCell::new(vec![]);
        let f = |x: u64| { let v = x & !(0xffu64 << 32) | T; log.borrow_mut().push(v); v };
        check_log(&parser!(string(x:a => f(x)) (y:b => f(y))), s, &log)
    }
    h_ran_nested(l) {
        subs!(l t s; a b c);
        let log = RefCell::new(vec![]);
        let f = |x: u64| { let v = x & !(0xffu64 << 32) | T; log.borrow_mut().push(v); v };
        check_log(&parser!(p:(x:a => f(x)) q:{(y:b => f(y)), (z:c "." => f(z))} => vec![p, q]), s, &log)
    }
    h_ran_line(l) {
        let s = sym::ascii_upto(r::size(l), "ab\n");
        let log = RefCell::new(vec![]);
        let f = |x: char| { let v = x as u64 | T; log.borrow_mut().push(v); v };
        check_log(&parser!(lines({x:alpha "a" => f(x), y:alpha => f(y)}) line("")?), &s, &log)
    }
    h_ran_section(l) {
        let s = sym::ascii_upto(r::size(l), "ab\n");
        let log = RefCell::new(vec![]);
        let f = |x: char| { let v = x as u64 | T; log.borrow_mut().push(v); v };
        check_log(&parser!(sections(line((x:alpha => f(x))*) lines(y:alpha => f(y)))), &s, &log)
    }
    h_ran_rule(l) {
        thread_local! { static LOG: RefCell<Vec<u64>> = const { RefCell::new(vec![]) } }
        let s = sym::ascii_upto(r::size(l), "ab()");
        fn f(x: char) -> u64 { let v = x as u64 | T; LOG.with(|l| l.borrow_mut().push(v)); v }
        let p = parser!(rule e: Vec<u64> = {x:alpha => vec![f(x)], "(" v:e* ")" => v.concat()}; e e?);
        LOG.with(|l| l.borrow_mut().clear());
        LOG.with(|log| {
            let res = p.parse(&s);
            match res {
                Ok(v) => { sym::reach(1); ran(log, flat(&v).into_iter().filter(|x| x & T != 0 && x >> 41 == 0).collect()) }
                Err(_) => { sym::reach(2); ran(log, vec![]) }
            }
        })
    }
    // a conversion that must not run because the whole pattern fails
    h_ran_never(l) {
        subs!(l t s; a b);
        let log = RefCell::new(vec![]);
        let f = |x: u64| { let v = x & !(0xffu64 << 32) | T; log.borrow_mut().push(v); v };
        let p = parser!((x:a => f(x)) b "!");
        check_log(&p, s, &log)
    }
}
