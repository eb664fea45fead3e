#!/usr/bin/env python3
"""Writes src/h_mgen.rs: every form of term x quantifier, unlabelled and
labelled, at every place a term can stand in parser!(); one harness per place.
Run by hand; its output is committed."""
import os
FORMS = [  # source, reference
    ("alpha", "al()"), ('"a"', 'lit("a")'), ("'1'", 'lit("1")'), ("string(alpha)", "r::string(al())"), ('char_of("a,")', 'G::CharOf("a,")'),
    ("(alpha digit)", "seq(vec![al(), dg()])"), ("(digit)", "dg()"), ('("a" "1"?)', 'seq(vec![lit("a"), r::opt(lit("1"))])'),
    ('{char_of("1"), digit}', 'alt(vec![G::CharOf("1"), dg()])'), ('{"a" => 7u64, y:digit => y as u64}', 'alt(vec![t(7, lit("a")), dg()])'), ('{alpha}', "al()"),
    ("(y:alpha digit => y)", "seq(vec![al(), drop1(dg())])"),
]
QUANTS = [("", "%s"), ("?", "r::opt(%s)"), ("*", "r::star(%s)"), ("+", "r::plus(%s)")]
# place: source with T for the term, reference with %s (G of the term, may occur more than once via {0})
PLACES = {
    "sole": ("T", "{0}"),
    "first": ('T ","', 'seq(vec![{0}, lit(",")])'),
    "last": ('"a" T', 'seq(vec![lit("a"), {0}])'),
    "mid": ('alpha? T digit*', 'seq(vec![r::opt(al()), {0}, r::star(dg())])'),
    "group": ('("," T)? any_char?', 'seq(vec![r::opt(seq(vec![lit(","), {0}])), r::opt(r::any())])'),
    "arms": ('{"," T, T ",", T}', 'alt(vec![seq(vec![lit(","), {0}]), seq(vec![{0}, lit(",")]), {0}])'),
    "map": ('T => 5u64', 't(5, drop1({0}))'),
    "mapmid": ("'a' T \",\" => 5u64", 't(5, seq(vec![lit("a"), drop1({0}), lit(",")]))'),
    "arg": ('string("," T) "a"?', 'seq(vec![r::string(seq(vec![lit(","), {0}])), r::opt(lit("a"))])'),
    "lab_sole": ("x:T => (3u64, x)", "t(3, {0})"),
    "lab_first": ('x:T "," => (3u64, x)', 't(3, seq(vec![{0}, lit(",")]))'),
    "lab_last": ('any_char "a" x:T => (3u64, x)', 't(3, seq(vec![drop1(r::any()), lit("a"), {0}]))'),
    "lab_two": ('x:T z:any_char => (x, z)', 'seq(vec![{0}, r::any()])'),
    "lab_second": ('z:any_char x:T => (z, x)', 'seq(vec![r::any(), {0}])'),
    "lab_skip": ('x:T any_char z:T => (x, z)', 'seq(vec![{0}, drop1(r::any()), {0}])'),
    "lab_group": ('("," x:T => x)? any_char?', 'seq(vec![r::opt(seq(vec![lit(","), {0}])), r::opt(r::any())])'),
    "lab_group2": ('z:("," x:T => (x, 4u64))* any_char? => (6u64, z)', 't(6, seq(vec![r::star(seq(vec![lit(","), {0}, t(4, G::Empty)])), drop1(r::opt(r::any()))]))'),
    "lab_arms": ('{"," x:T => (1u64, x), x:T "," => (2u64, x), x:T => (3u64, x)}', 'alt(vec![t(1, seq(vec![lit(","), {0}])), t(2, seq(vec![{0}, lit(",")])), t(3, {0})])'),
    "lab_arms2": ('{"," => None, x:T => Some(x)}', 'alt(vec![t(NONE, lit(",")), t(SOME, {0})])'),
    "lab_arms3": ('{x:T => Some(x), "," => None,}', 'alt(vec![t(SOME, {0}), t(NONE, lit(","))])'),
    "lab_arg": ('repeat_sep(x:T "1"? => (x, 2u64), ",")', 'r::sep(seq(vec![{0}, drop1(r::opt(lit("1"))), t(2, G::Empty)]), lit(","))'),
    "lab_rule": ('rule q: Toks = x:T => Toks(flat(&x)); "," q', 'seq(vec![lit(","), {0}])'),
    "rule_arm": ('rule q: Toks = { "," x:T => Toks(flat(&x)), x:T "1" => Toks(flat(&x)) }; q', 'alt(vec![seq(vec![lit(","), {0}]), seq(vec![{0}, lit("1")])])'),
}
out = ['//! Generated by ../mgen.py: every form of term under every quantifier at every',
       '//! place a term can stand in parser!(), against the pattern it stands for.',
       'use crate::flat::*;', 'use crate::refm::{self as r, diff, mode, size, G};', 'use crate::sym;', 'use aoc_parse::{parser, prelude::*};', '',
       "fn lit<'a>(s: &'a str) -> G<'a> { G::Lit(s) }", "fn seq<'a>(v: Vec<G<'a>>) -> G<'a> { G::Seq(v) }", "fn alt<'a>(v: Vec<G<'a>>) -> G<'a> { G::Alt(v) }",
       "fn t(n: u64, g: G) -> G { r::tag(n, g) }", "fn drop1(g: G) -> G { G::Drop(r::b(g)) }", "fn al<'a>() -> G<'a> { r::alpha() }", "fn dg<'a>() -> G<'a> { r::digit() }",
       '/// the tokens of a value, which may be part of a larger one', 'struct Toks(Vec<u64>);', 'impl Flat for Toks { fn flat(&self, o: &mut Vec<u64>) { o.extend(&self.0) } }', '',
       '// one pattern after another on one text', 'macro_rules! each { ($s:ident $c:ident; $( $p:expr, $g:expr; )*) => { $( diff(&$p, &$g, &$s, $c); )* } }', '', 'harness! {']
for name, (src, ref) in PLACES.items():
    for half in (0, 1):
        out.append('    h_g_%s_%s(l) {' % (name, "ab"[half]))
        out.append('        let s = sym::ascii_upto(size(l), "a1,");')
        out.append('        let c = mode(l);')
        out.append('        each! { s c;')
        for f, g in FORMS[half * 6:half * 6 + 6]:
            for q, w in QUANTS:
                out.append('            parser!(%s), %s;' % (src.replace("T", f + q) if "Toks" not in src else src.replace(":T ", ":" + f + q + " "), ref.replace("{0}", w % g)))
        out.append('        }')
        out.append('    }')
out.append('}')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src/h_mgen.rs"), "w").write("\n".join(out) + "\n")
