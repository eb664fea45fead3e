//! Rule sets: recursion, equivalence with writing the pattern out, isolation.
use crate::flat::*;
use crate::refm::{self as r, diff, diff_rules, mode, size, Sub, Table, G};
use crate::sym;
use aoc_parse::{parser, prelude::*, Parser};

#[derive(Debug)]
pub enum F { Elf(char), Stack(Vec<F>) }
impl Flat for F { fn flat(&self, o: &mut Vec<u64>) { match self { F::Elf(c) => { o.push(1); o.push(*c as u64) } F::Stack(v) => { o.push(2); v.flat(o) } } } }
#[derive(Debug)]
pub enum J { Num(u64), List(Vec<J>), Word(String) }
impl Flat for J { fn flat(&self, o: &mut Vec<u64>) { match self { J::Num(n) => { o.push(1); o.push(*n) } J::List(v) => { o.push(2); v.flat(o) } J::Word(s) => { o.push(3); s.flat(o) } } } }

fn lit<'a>(s: &'a str) -> G<'a> { G::Lit(s) }
fn seq<'a>(v: Vec<G<'a>>) -> G<'a> { G::Seq(v) }
fn alt<'a>(v: Vec<G<'a>>) -> G<'a> { G::Alt(v) }
fn ru<'a>(i: usize) -> G<'a> { G::Rule(i) }
fn g(t: &'static Table) -> G<'static> { G::Sub(t) }
fn t1(n: u64, g: G) -> G { r::tag(n, g) }
fn text(l: u32, a: &str) -> String { sym::ascii_upto(size(l), a) }

// rules own their parsers, so the arbitrary sub-parsers live forever
macro_rules! subs {
    ($l:ident $t:ident $s:ident ; $($a:ident)*) => {
        let $s: &'static str = Box::leak(sym::ascii(size($l), ".\n").into_boxed_str());
        let k = r::alts($l);
        let $t: &'static [Table; 4] = Box::leak(Box::new([Table::new(0, $s, k), Table::new(1, $s, k), Table::new(2, $s, k), Table::new(3, $s, k)]));
        let mut it = $t.iter();
        $( let $a: Sub<'static> = it.next().unwrap().sub(); )*
        let _ = &mut it;
    };
}
fn formation() -> impl Parser<Output = Vec<F>, RawOutput = (Vec<F>,)> {
    parser!(
        rule formation: F = { s:alpha => F::Elf(s), v:stack => F::Stack(v) };
        rule stack: Vec<F> = '(' v:formation+ ')' => v;
        formation+
    )
}
fn formation_ref<'a>() -> (G<'a>, Vec<G<'a>>) {
    (r::plus(ru(0)), vec![alt(vec![t1(1, r::alpha()), t1(2, ru(1))]), seq(vec![lit("("), r::plus(ru(0)), lit(")")])])
}
fn json() -> impl Parser<Output = J, RawOutput = (J,)> {
    parser!(
        rule value: J = { n:digit => J::Num(n as u64), "[" v:repeat_sep(value, ",") "]" => J::List(v), w:word => J::Word(w) };
        rule word: String = "'" s:string(alpha*) "'" => s;
        value
    )
}
fn json_ref<'a>() -> (G<'a>, Vec<G<'a>>) {
    (ru(0), vec![alt(vec![t1(1, r::digit()), t1(2, seq(vec![lit("["), r::sep(ru(0), lit(",")), lit("]")])), t1(3, ru(1))]), seq(vec![lit("'"), r::string(r::star(r::alpha())), lit("'")])])
}

harness! {
    // ---- recursion
    h_formation(l) { let s = text(l, "ab()\n"); let (g, rs) = formation_ref(); diff_rules(&formation(), &g, rs, &s, mode(l)) }
    h_formation_lines(l) { let s = text(l, "ab()\n"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!(lines(f)), &r::lines(g), rs, &s, mode(l)) }
    h_formation_sections(l) { let s = text(l, "a()\n"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!(sections(lines(f))), &r::sections(r::lines(g)), rs, &s, mode(l)) }
    h_json(l) { let s = text(l, "1a[],'"); let (g, rs) = json_ref(); diff_rules(&json(), &g, rs, &s, mode(l)) }
    h_json_deep(l) {
        let n = size(l);
        let mut s = String::new();
        for _ in 0..n { s.push_str("[1,["); }
        s.push_str(&sym::ascii(2, "1[],"));
        for _ in 0..n { s.push_str("],2]"); }
        let (g, rs) = json_ref();
        diff_rules(&json(), &g, rs, &s, mode(l))
    }
    // right recursion where every rule can match in several ways
    h_ambiguous(l) {
        let s = text(l, "ab");
        let p = parser!(rule x: Vec<u64> = {"a" y:x* "b"? => { let mut v = y.concat(); v.push(1); v }, "b" => vec![2u64]}; x x);
        let n = |v: Result<(Vec<u64>, Vec<u64>), aoc_parse::ParseError>| v.is_ok();
        let got = n(p.parse(&s));
        let rr = r::Ref { rules: vec![alt(vec![seq(vec![lit("a"), r::star(ru(0)), r::opt(lit("b"))]), lit("b")])] };
        let want = rr.run(&seq(vec![ru(0), ru(0)]), &s).is_ok();
        sym::reach(if got { 1 } else { 2 });
        sym::check(got == want, "a recursive pattern accepts or rejects an input wrongly")
    }
    h_right_rec(l) { let s = text(l, "ab,"); diff_rules(&parser!(rule list: Vec<char> = {x:alpha "," y:list => { let mut v = vec![x]; v.extend(y); v }, x:alpha => vec![x]}; list), &seq(vec![t1(LIST, G::Empty), ru(0), t1(END, G::Empty)]), vec![alt(vec![seq(vec![r::alpha(), lit(","), ru(0)]), r::alpha()])], &s, mode(l)) }
    h_mutual(l) {
        let s = text(l, "ab\n");
        let p = parser!(
            rule even: u64 = {"a" n:odd => n + 1, "" => 0};
            rule odd: u64 = "b" n:even => n + 1;
            lines(even)
        );
        // the value of a line is its length
        diff_rules(&p, &r::lines(G::Lex(|s, p| {
            let b = s.as_bytes();
            let mut i = p;
            while i + 1 < b.len() && b[i] == b'a' && b[i + 1] == b'b' { i += 2; }
            r::LexR::Ok(i, vec![(i - p) as u64])
        }, "\"a\"")), vec![], &s, mode(l))
    }
    // ---- recursive sets embedded at every kind of place
    h_rec_after(l) { let s = text(l, "ab()"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!("a"* f "b"?), &seq(vec![r::star(lit("a")), g, r::opt(lit("b"))]), rs, &s, mode(l)) }
    h_rec_star(l) { let s = text(l, "a(),"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!((f ",")*), &r::star(seq(vec![g, lit(",")])), rs, &s, mode(l)) }
    h_rec_sep(l) { let s = text(l, "a(),"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!(repeat_sep(f, ",")), &r::sep(g, lit(",")), rs, &s, mode(l)) }
    h_rec_alt(l) { let s = text(l, "a()1"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!({alpha "1" => 0u64, digit* f => 1}), &alt(vec![t1(0, G::Drop(r::b(seq(vec![r::alpha(), lit("1")])))), t1(1, G::Drop(r::b(seq(vec![r::star(r::digit()), g]))))]), rs, &s, mode(l)) }
    h_rec_opt(l) { let s = text(l, "a()1"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!(digit? f? digit*), &seq(vec![r::opt(r::digit()), r::opt(g), r::star(r::digit())]), rs, &s, mode(l)) }
    h_rec_second_line(l) { let s = text(l, "a()\n"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!(line("a") line(f)), &seq(vec![r::line(lit("a")), r::line(g)]), rs, &s, mode(l)) }
    h_rec_string(l) { let s = text(l, "ab()"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!("a"? string(f) alpha), &seq(vec![r::opt(lit("a")), r::string(g), r::alpha()]), rs, &s, mode(l)) }
    h_rec_map(l) { let s = text(l, "ab()"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!("(" x:f ")" => (4u64, x)), &seq(vec![lit("("), t1(4, g), lit(")")]), rs, &s, mode(l)) }
    h_rec_in_rule(l) { let s = text(l, "ab()"); let (g, rs) = formation_ref(); let f = formation(); diff_rules(&parser!(rule x: Vec<F> = "b" y:f => y; "a"? x), &seq(vec![r::opt(lit("a")), lit("b"), g]), rs, &s, mode(l)) }
    // ---- a rule is its pattern: arbitrary sub-parsers in and around rules
    h_rule_sub(l) { subs!(l t s; a); diff(&parser!(rule x: u64 = a; x), &g(&t[0]), s, mode(l)) }
    h_rule_seq(l) { subs!(l t s; a b); diff(&parser!(rule x: (u64, u64) = a b; x), &seq(vec![g(&t[0]), g(&t[1])]), s, mode(l)) }
    h_rule_twice(l) { subs!(l t s; a b); diff(&parser!(rule x: u64 = a; x b x), &seq(vec![g(&t[0]), g(&t[1]), g(&t[0])]), s, mode(l)) }
    h_rule_alt(l) { subs!(l t s; a b c); diff(&parser!(rule x: u64 = {a, b}; x c), &seq(vec![alt(vec![g(&t[0]), g(&t[1])]), g(&t[2])]), s, mode(l)) }
    h_rule_star(l) { subs!(l t s; a b); diff(&parser!(rule x: u64 = a; x* b), &seq(vec![r::star(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_rule_of_star(l) { subs!(l t s; a b); diff(&parser!(rule x: Vec<u64> = a*; x b), &seq(vec![r::star(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_rule_opt(l) { subs!(l t s; a b); diff(&parser!(rule x: Option<u64> = a?; x b), &seq(vec![r::opt(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_rule_chain(l) { subs!(l t s; a b); diff(&parser!(rule x: (u64, u64) = y z; rule y: u64 = a; rule z: u64 = b; x), &seq(vec![g(&t[0]), g(&t[1])]), s, mode(l)) }
    h_rule_order(l) { subs!(l t s; a b c); diff(&parser!(rule z: u64 = c; rule y: u64 = b; rule x: u64 = a; x y z), &seq(vec![g(&t[0]), g(&t[1]), g(&t[2])]), s, mode(l)) }
    h_rule_unused(l) { subs!(l t s; a b c); diff(&parser!(rule z: u64 = c; rule y: u64 = b; a y), &seq(vec![g(&t[0]), g(&t[1])]), s, mode(l)) }
    h_rule_line(l) { subs!(l t s; a b); diff(&parser!(rule x: u64 = a; line(x) b), &seq(vec![r::line(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_rule_of_line(l) { subs!(l t s; a b); diff(&parser!(rule x: u64 = line(y); rule y: u64 = a; x b), &seq(vec![r::line(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_rule_section(l) { subs!(l t s; a b); diff(&parser!(rule x: u64 = a; section(x) b), &seq(vec![r::section(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_rule_sep(l) { subs!(l t s; a b); diff(&parser!(rule x: u64 = a; rule y: u64 = b; repeat_sep(x, y)), &r::sep(g(&t[0]), g(&t[1])), s, mode(l)) }
    h_rule_string(l) { subs!(l t s; a b); diff(&parser!(rule x: u64 = a; string(x) b), &seq(vec![r::string(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_rule_rec_sub(l) {
        subs!(l t s; a b);
        // an item, then the rest, or nothing
        let p = parser!(rule x: Vec<u64> = {v:a ch y:x b => { let mut w = vec![v]; w.extend(y); w }, "" => vec![]}; rule ch: char = any_char; x);
        let body = seq(vec![t1(LIST, G::Empty), ru(0), t1(END, G::Empty)]);
        diff_rules(&p, &body, vec![alt(vec![seq(vec![g(&t[0]), G::Drop(r::b(r::any())), ru(0), G::Drop(r::b(g(&t[1])))]), lit("")])], s, mode(l))
    }
    // ---- rule sets side by side and inside one another
    h_two_sets(l) {
        subs!(l t s; a b);
        let p = parser!(rule x: u64 = a; x);
        let q = parser!(rule x: u64 = b; x);
        let p = &p;
        diff(&parser!(p q p), &seq(vec![g(&t[0]), g(&t[1]), g(&t[0])]), s, mode(l))
    }
    h_two_sets_types(l) {
        subs!(l t s; a b);
        let p = parser!(rule x: u64 = a; rule y: Vec<u64> = x*; y);
        let q = parser!(rule x: Option<u64> = b?; rule y: (Option<u64>, u64) = x "" a; y);
        diff(&parser!(p q), &seq(vec![r::star(g(&t[0])), r::opt(g(&t[1])), lit(""), g(&t[0])]), s, mode(l))
    }
    h_set_in_set(l) {
        subs!(l t s; a b c);
        let p = parser!(rule x: u64 = a; rule w: u64 = b; {x, w});
        let q = parser!(rule y: u64 = p; rule z: u64 = c; y z y);
        diff(&q, &seq(vec![alt(vec![g(&t[0]), g(&t[1])]), g(&t[2]), alt(vec![g(&t[0]), g(&t[1])])]), s, mode(l))
    }
    h_set_in_line(l) {
        subs!(l t s; a b);
        let p = parser!(rule x: u64 = a; x);
        let q = parser!(rule x: u64 = b; rule y: u64 = line(p); y x);
        diff(&q, &seq(vec![r::line(g(&t[0])), g(&t[1])]), s, mode(l))
    }
    h_sets_alt(l) {
        subs!(l t s; a b c);
        let p = parser!(rule x: u64 = a; x);
        let q = parser!(rule x: u64 = b; x);
        diff(&parser!({line(p), q} c), &seq(vec![alt(vec![r::line(g(&t[0])), g(&t[1])]), g(&t[2])]), s, mode(l))
    }
    // rules used after regions that failed, or matched and were given up
    h_set_retry(l) { subs!(l t s; a b c); let q = parser!(rule x: u64 = a; rule y: u64 = b; rule z: u64 = c; {line(x), section(y), y z => 7}); diff(&q, &alt(vec![r::line(g(&t[0])), r::section(g(&t[1])), t1(7, G::Drop(r::b(seq(vec![g(&t[1]), g(&t[2])]))))]), s, mode(l)) }
    h_set_retry_opt(l) { subs!(l t s; a b c); let q = parser!(rule x: u64 = a; rule y: Option<u64> = line(b)?; rule z: u64 = c; x? y z); diff(&q, &seq(vec![r::opt(g(&t[0])), r::opt(r::line(g(&t[1]))), g(&t[2])]), s, mode(l)) }
    h_set_retry_lines(l) { subs!(l t s; a b); let q = parser!(rule x: u64 = a; rule y: u64 = b; lines(x) y*); diff(&q, &seq(vec![r::lines(g(&t[0])), r::star(g(&t[1]))]), s, mode(l)) }
    h_set_retry_then(l) { subs!(l t s; a b c); let q = parser!(rule x: u64 = a; rule y: u64 = b; rule z: u64 = c; {x line(y) => 1, x y z => 2, "" section(z) => 3}); diff(&q, &alt(vec![t1(1, G::Drop(r::b(seq(vec![g(&t[0]), r::line(g(&t[1]))])))), t1(2, G::Drop(r::b(seq(vec![g(&t[0]), g(&t[1]), g(&t[2])])))), t1(3, G::Drop(r::b(seq(vec![lit(""), r::section(g(&t[2]))]))))]), s, mode(l)) }
    h_set_retry_inner(l) { subs!(l t s; a b c); let p = parser!(rule x: u64 = a; rule w: u64 = line(b); {w, x}); let q = parser!(rule x: u64 = p; rule y: u64 = c; {section(x) => 1, x y => 2, y => 3}); let px = || alt(vec![r::line(g(&t[1])), g(&t[0])]); diff(&q, &alt(vec![t1(1, G::Drop(r::b(r::section(px())))), t1(2, G::Drop(r::b(seq(vec![px(), g(&t[2])])))), t1(3, G::Drop(r::b(g(&t[2]))))]), s, mode(l)) }
    // the rules of an outer set used inside a parser that sits in a line of an inner one, and after it
    h_set_after_line(l) {
        subs!(l t s; a b);
        let q = parser!(rule x: u64 = a; rule y: (u64, u64) = line(x) z; rule z: u64 = b; y x?);
        diff(&q, &seq(vec![r::line(g(&t[0])), g(&t[1]), r::opt(g(&t[0]))]), s, mode(l))
    }
    // ---- moving, storing, dropping and rebuilding parsers
    h_moved(l) {
        let s = text(l, "ab()");
        let (g, rs) = formation_ref();
        let v = vec![formation(), formation()];
        let mut it = v.into_iter();
        let p = Box::new(it.next().unwrap());
        let q = it.next().unwrap();
        drop(it);
        let q = std::hint::black_box(q);
        drop(p);
        diff_rules(&q, &g, rs, &s, mode(l))
    }
    h_rebuilt(l) {
        let s = text(l, "ab()");
        for _ in 0..3 { let p = parser!(rule x: u64 = {"a" => 1, "b" => 2}; rule y: Vec<u64> = x*; y); let _ = p.parse("ab"); }
        let (g, rs) = formation_ref();
        diff_rules(&formation(), &g, rs, &s, mode(l))
    }
    h_same_set_twice(l) {
        let s = text(l, "ab(),");
        let f = formation();
        let f = &f;
        let (g, mut rs) = formation_ref();
        let (g2, _) = formation_ref();
        rs.push(g);
        rs.push(g2);
        diff_rules(&parser!(f "," f), &seq(vec![ru(2), lit(","), ru(3)]), rs, &s, mode(l))
    }
    h_error_after_sets(l) {
        let s = text(l, "ab()\n");
        let f = formation();
        let j = json();
        let (g, mut rs) = formation_ref();
        let (_, js) = json_ref();
        // the second set's rules follow the first's
        let shift = |g: G<'static>| g;
        let _ = shift;
        rs.push(alt(vec![t1(1, r::digit()), t1(2, seq(vec![lit("["), r::sep(ru(2), lit(",")), lit("]")])), t1(3, js.into_iter().nth(1).unwrap())]));
        diff_rules(&parser!(line(f) j?), &seq(vec![r::line(g), r::opt(ru(2))]), rs, &s, mode(l))
    }
}
