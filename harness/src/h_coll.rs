//! Collections built from repeated values.
use crate::flat::*;
use crate::refm::{self as r, alts, diff, mode, size, Sub, Table, G};
use crate::sym;
use aoc_parse::{parser, prelude::*};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

// sets and maps flatten to their elements in increasing order
impl<T: Flat> Flat for HashSet<T> { fn flat(&self, o: &mut Vec<u64>) { sorted(self.iter().map(flat), o) } }
impl<T: Flat> Flat for BTreeSet<T> { fn flat(&self, o: &mut Vec<u64>) { o.push(LIST); for x in self { x.flat(o) } o.push(END) } }
impl<K: Flat, V: Flat> Flat for HashMap<K, V> { fn flat(&self, o: &mut Vec<u64>) { sorted(self.iter().map(|(k, v)| { let mut x = flat(k); v.flat(&mut x); x }), o) } }
impl<K: Flat, V: Flat> Flat for BTreeMap<K, V> { fn flat(&self, o: &mut Vec<u64>) { o.push(LIST); for (k, v) in self { k.flat(o); v.flat(o) } o.push(END) } }
fn sorted(i: impl Iterator<Item = Vec<u64>>, o: &mut Vec<u64>) { let mut v: Vec<Vec<u64>> = i.collect(); v.sort(); o.push(LIST); for x in v { o.extend(x) } o.push(END) }

/// a lexeme: items of `w` characters with `step - w` characters between, gathered into a set (k = 0) or a map (k = key length)
fn gather(s: &str, p: usize, w: usize, step: usize, k: usize) -> r::LexR {
    let b = &s.as_bytes()[p..];
    let mut items: Vec<Vec<u64>> = vec![];
    let mut i = 0;
    while i + w <= b.len() {
        let x: Vec<u64> = b[i..i + w].iter().map(|c| *c as u64).collect();
        let n = if k == 0 { w } else { k };
        match items.iter().position(|y| y[..n] == x[..n]) { Some(j) => items[j] = x, None => items.push(x) }
        i += step;
    }
    items.sort();
    let mut o = vec![LIST];
    for x in items { o.extend(x) }
    o.push(END);
    r::LexR::Ok(s.len(), o)
}
fn g(t: &Table) -> G<'_> { G::Sub(t) }
macro_rules! subs {
    ($l:ident $t:ident $s:ident ; $($a:ident)*) => {
        let $s = &"................"[..size($l)];
        let k = alts($l);
        let $t = [Table::new(0, $s, k), Table::new(1, $s, k), Table::new(2, $s, k)];
        let mut it = $t.iter();
        $( let $a: Sub = it.next().unwrap().sub(); )*
        let _ = &mut it;
    };
}
fn txt(l: u32) -> String { sym::ascii(size(l), "abc") }
/// hashing needs concrete keys: one path per text
fn ctxt(n: usize, a: &str) -> String { let mut s = String::new(); for _ in 0..n { s.push(a.as_bytes()[sym::choose(a.len() as u64) as usize] as char) } s }
/// pairs of characters
fn pairs(l: u32) -> String { let mut s = String::new(); for _ in 0..size(l) { s.push_str(&sym::ascii(2, "ab")); } s }

harness! {
    // acceptance is that of the pattern inside; order and duplicates are those of collect()
    h_hset(l) { let s = ctxt(size(l), "abc"); diff(&parser!(hash_set(any_char*)), &G::Lex(|s, p| gather(s, p, 1, 1, 0), ""), &s, mode(l)) }
    h_bset(l) { let s = txt(l); diff(&parser!(btree_set(any_char*)), &G::Lex(|s, p| gather(s, p, 1, 1, 0), ""), &s, mode(l)) }
    h_hmap(l) { let s = ctxt(2 * size(l), "ab"); diff(&parser!(hash_map((any_char any_char)*)), &G::Lex(|s, p| gather(s, p, 2, 2, 1), ""), &s, mode(l)) }
    h_bmap(l) { let s = pairs(l); diff(&parser!(btree_map((any_char any_char)*)), &G::Lex(|s, p| gather(s, p, 2, 2, 1), ""), &s, mode(l)) }
    h_deque(l) { let s = txt(l); diff(&parser!(vec_deque(any_char*)), &r::star(r::any()), &s, mode(l)) }
    h_deque_sep(l) { let s = sym::ascii_upto(size(l), "ab,"); diff(&parser!(vec_deque(repeat_sep(alpha, ","))), &r::sep(r::alpha(), G::Lit(",")), &s, mode(l)) }
    h_deque_lines(l) { let s = sym::ascii_upto(size(l), "ab\n"); diff(&parser!(vec_deque(lines(string(alpha*)))), &r::lines(r::string(r::star(r::alpha()))), &s, mode(l)) }
    h_bset_lines(l) {
        let mut s = String::new();
        for _ in 0..size(l) { s.push_str(&sym::ascii(1, "abc")); s.push('\n'); }
        diff(&parser!(btree_set(lines(any_char))), &G::Lex(|s, p| gather(s, p, 1, 2, 0), ""), &s, mode(l))
    }
    h_hmap_lines(l) {
        let mut s = String::new();
        for _ in 0..size(l) { s.push_str(&ctxt(1, "ab")); s.push('='); s.push_str(&ctxt(1, "xy")); s.push('\n'); }
        diff(&parser!(hash_map(lines(alpha "=" alpha))), &G::Lex(|s, p| {
            let t: String = s[p..].chars().filter(|c| *c != '=' && *c != '\n').collect();
            match gather(&t, 0, 2, 2, 1) { r::LexR::Ok(_, v) => r::LexR::Ok(s.len(), v), x => x }
        }, ""), &s, mode(l))
    }
    // which inputs match, and how far: exactly as without the collection
    h_deque_sub(l) { subs!(l t s; a b); diff(&parser!(vec_deque(a*) b), &G::Seq(vec![r::star(g(&t[0])), g(&t[1])]), s, mode(l)) }
    h_deque_sep_sub(l) { subs!(l t s; a b c); diff(&parser!(vec_deque(repeat_sep(a, b)) c), &G::Seq(vec![r::sep(g(&t[0]), g(&t[1])), g(&t[2])]), s, mode(l)) }
    h_bset_sub(l) { subs!(l t s; a b); diff(&parser!(btree_set(a*) b), &G::Seq(vec![r::star(g(&t[0])), g(&t[1])]), s, r::Cmp::Accept) }
    h_hset_sub(l) { subs!(l t s; a b); diff(&parser!(hash_set((x:a => x >> 32)+) b), &G::Seq(vec![r::plus(g(&t[0])), g(&t[1])]), s, r::Cmp::Accept) }
    h_hmap_sub(l) { subs!(l t s; a b c); diff(&parser!(hash_map((x:a y:b => (x >> 32, y))*) c), &G::Seq(vec![r::star(G::Seq(vec![g(&t[0]), g(&t[1])])), g(&t[2])]), s, r::Cmp::Accept) }
    h_bmap_sub(l) { subs!(l t s; a b c); diff(&parser!(btree_map((x:a y:b => (x >> 32, y))*) c), &G::Seq(vec![r::star(G::Seq(vec![g(&t[0]), g(&t[1])])), g(&t[2])]), s, r::Cmp::Accept) }
    // collections of collections, and one collection inside another pattern
    h_nested(l) {
        let s = sym::ascii(size(l), "ab,");
        diff(&parser!(vec_deque(repeat_sep(vec_deque(alpha*), ","))), &r::sep(r::star(r::alpha()), G::Lit(",")), &s, mode(l))
    }
    h_coll_two(l) {
        let s = sym::ascii(size(l), "ab");
        diff(&parser!(x:vec_deque("a"*) y:vec_deque(any_char*) => (x.into_iter().map(|_| 7u64).collect::<Vec<u64>>(), y)), &G::Seq(vec![r::star(r::tag(7, G::Lit("a"))), r::star(r::any())]), &s, mode(l))
    }
}
