//! Reference semantics of patterns: a continuation-passing backtracking
//! matcher written from the documentation, sharing no code with aoc-parse.
//! It explores alternatives in order of preference and stops at the first
//! whole match, and records where and why sub-patterns failed.
use crate::flat::*;
use crate::sym;
use aoc_parse::{ParseContext, ParseError, ParseIter, Parser, Reported};
use std::cell::RefCell;

// ---------------------------------------------------------------- sub-parsers with arbitrary behaviour
/// Behaviour of an arbitrary sub-parser: for every (slice, position) an
/// ordered list of up to `max` match ends, all symbolic and decided on demand.
/// The real combinators run it through `Sub`; the reference asks the table.
pub struct Table {
    id: u64,
    base: *const u8,
    max: usize,
    /// sub-parser failures are reported at a symbolic location
    errloc: bool,
    ents: RefCell<Vec<((usize, usize, usize), Entry)>>,
}
#[derive(Clone, Default)]
struct Entry { ends: Vec<usize>, done: bool, loc: Option<usize> }

impl Table {
    pub fn new(id: u64, source: &str, max: usize) -> Table { Table { id, base: source.as_ptr(), max, errloc: false, ents: RefCell::new(vec![]) } }
    pub fn with_errloc(mut self) -> Table { self.errloc = true; self }
    pub fn sub(&self) -> Sub<'_> { Sub { t: self } }
    fn abs(&self, src: &str, start: usize) -> usize { src.as_ptr() as usize - self.base as usize + start }
    /// end of the `i`th match at `start` in `src`
    fn query(&self, src: &str, start: usize, i: usize) -> Option<usize> {
        let key = (self.abs(src, 0), src.len(), start);
        let mut es = self.ents.borrow_mut();
        let k = match es.iter().position(|e| e.0 == key) { Some(k) => k, None => { es.push((key, Entry::default())); es.len() - 1 } };
        let e = &mut es[k].1;
        if i < e.ends.len() { return Some(e.ends[i]); }
        if e.done || i >= self.max { return None; }
        if sym::byte() & 1 == 0 { e.done = true; return None; }
        let d = sym::byte() as usize;
        sym::assume(d <= src.len() - start);
        e.ends.push(start + d);
        Some(start + d)
    }
    fn fail_loc(&self, src: &str, start: usize) -> usize {
        if !self.errloc { return start; }
        let key = (self.abs(src, 0), src.len(), start);
        let mut es = self.ents.borrow_mut();
        let k = match es.iter().position(|e| e.0 == key) { Some(k) => k, None => { es.push((key, Entry::default())); es.len() - 1 } };
        if es[k].1.loc.is_none() { let d = sym::byte() as usize; sym::assume(d <= src.len() - start); es[k].1.loc = Some(start + sym::concrete(d as u64) as usize); }
        es[k].1.loc.unwrap()
    }
    fn value(&self, src: &str, start: usize, i: usize) -> u64 { self.id << 32 | (self.abs(src, start) as u64) << 8 | i as u64 }
}
#[derive(Clone, Copy)]
pub struct Sub<'t> { t: &'t Table }
pub struct SubIter<'t> { t: &'t Table, start: usize, i: usize, end: usize, src: &'t str }
pub const NOUNS: [&str; 5] = ["sub0", "sub1", "sub2", "sub3", "sub4"];
impl<'t> Parser for Sub<'t> {
    type Output = u64;
    type RawOutput = (u64,);
    type Iter<'parse> = SubIter<'parse> where Self: 'parse;
    fn parse_iter<'parse>(&'parse self, context: &mut ParseContext<'parse>, start: usize) -> Result<SubIter<'parse>, Reported> {
        let start = sym::concrete(start as u64) as usize;
        let src = context.source();
        match self.t.query(src, start, 0) {
            Some(end) => Ok(SubIter { t: self.t, start, i: 0, end, src }),
            None => Err(context.error_expected(self.t.fail_loc(src, start), NOUNS[self.t.id as usize])),
        }
    }
}
impl<'p> ParseIter<'p> for SubIter<'p> {
    type RawOutput = (u64,);
    fn match_end(&self) -> usize { self.end }
    fn backtrack(&mut self, _c: &mut ParseContext<'p>) -> Result<(), Reported> {
        match self.t.query(self.src, self.start, self.i + 1) { Some(e) => { self.i += 1; self.end = e; Ok(()) } None => Err(Reported) }
    }
    fn convert(&self) -> (u64,) { (self.t.value(self.src, self.start, self.i),) }
}

// ---------------------------------------------------------------- patterns
pub enum G<'a> {
    Empty,
    Lit(&'a str),
    Sub(&'a Table),
    /// one character satisfying a predicate; the value is the character
    Class(fn(char) -> bool, &'static str),
    /// one digit of the given radix; the value is its number
    Digit(u32, &'static str),
    CharOf(&'static str),
    /// decimal integer lexeme: signed?, min, max, type name
    Int(bool, i128, i128, &'static str),
    Seq(Vec<G<'a>>),
    Alt(Vec<G<'a>>),
    Opt(Box<G<'a>>),
    /// pattern, separator, at least one?
    Rep(Box<G<'a>>, Option<Box<G<'a>>>, bool),
    Line(Box<G<'a>>),
    Section(Box<G<'a>>),
    Str(Box<G<'a>>),
    /// a value prefix (what a mapping closure adds)
    Tag(u64, Box<G<'a>>),
    Drop(Box<G<'a>>),
    /// without the list around the values
    Flat(Box<G<'a>>),
    Rule(usize),
    /// any other lexeme: a function from (text, position) to its longest match
    Lex(fn(&str, usize) -> LexR, &'static str),
}
pub enum LexR { No, Bad(usize), Ok(usize, Vec<u64>) }
pub fn b<'a>(g: G<'a>) -> Box<G<'a>> { Box::new(g) }
pub fn star<'a>(g: G<'a>) -> G<'a> { G::Rep(b(g), None, false) }
/// like star, but the values are not in a list of their own
pub fn star_flat<'a>(g: G<'a>) -> G<'a> { G::Flat(b(star(g))) }
pub fn plus<'a>(g: G<'a>) -> G<'a> { G::Rep(b(g), None, true) }
pub fn sep<'a>(g: G<'a>, s: G<'a>) -> G<'a> { G::Rep(b(g), Some(b(s)), false) }
pub fn opt<'a>(g: G<'a>) -> G<'a> { G::Opt(b(g)) }
pub fn line<'a>(g: G<'a>) -> G<'a> { G::Line(b(g)) }
pub fn lines<'a>(g: G<'a>) -> G<'a> { star(line(g)) }
pub fn section<'a>(g: G<'a>) -> G<'a> { G::Section(b(g)) }
pub fn sections<'a>(g: G<'a>) -> G<'a> { star(section(g)) }
pub fn string<'a>(g: G<'a>) -> G<'a> { G::Str(b(g)) }
pub fn tag<'a>(t: u64, g: G<'a>) -> G<'a> { G::Tag(t, b(g)) }
pub fn class<'a>(f: fn(char) -> bool, n: &'static str) -> G<'a> { G::Class(f, n) }
pub fn alpha<'a>() -> G<'a> { class(|c| c.is_ascii_alphabetic(), "letter") }
pub fn any<'a>() -> G<'a> { class(|_| true, "any character") }
pub fn digit<'a>() -> G<'a> { G::Digit(10, "decimal digit") }
pub fn gu8<'a>() -> G<'a> { G::Int(false, 0, 255, "u8") }
pub fn gi8<'a>() -> G<'a> { G::Int(true, -128, 127, "i8") }

#[derive(Clone, Debug, PartialEq)]
pub enum Why { Expected(String), Extra, LineStart, SectionStart, LineExtra, SectionExtra, Convert(String, &'static str) }
impl Why {
    /// does `msg`, the displayed error, state this reason?
    pub fn states(&self, msg: &str) -> bool {
        let reason = match self {
            Why::Expected(n) => format!("expected {n}"),
            Why::Extra => "extra unparsed text after match".into(),
            Why::LineStart => "line() can't match here because this is not at the start of a line".into(),
            Why::SectionStart => "section() can't match here because this is not at the start of a section".into(),
            Why::LineExtra => "line(pattern) matched part of the line, but not all of it".into(),
            Why::SectionExtra => "section(pattern) matched part of the section, but not all of it".into(),
            Why::Convert(t, ty) => return msg.strip_prefix(format!("failed to parse {t:?} as type {ty}: ").as_str()).is_some(),
        };
        match msg.strip_prefix(reason.as_str()) { Some(r) => r == " at end of input" || r.starts_with(" at line "), None => false }
    }
}
#[derive(Default)]
pub struct Errs { pub at: Option<usize>, pub why: Vec<Why> }
impl Errs {
    fn report(&mut self, at: usize, why: Why) {
        match self.at { Some(m) if m > at => {} Some(m) if m == at => self.why.push(why), _ => { self.at = Some(at); self.why.clear(); self.why.push(why) } }
    }
}
pub struct St { pub vals: Vec<u64>, pub errs: Errs, pub depth: u32 }
type K<'k> = &'k mut dyn FnMut(usize, &mut St) -> bool;

pub struct Ref<'a> { pub rules: Vec<G<'a>> }
impl<'a> Ref<'a> {
    /// Calls `k` for every match of `g` at `pos`, most preferred first, until `k` returns true.
    pub fn m(&self, g: &G<'a>, src: &str, pos: usize, st: &mut St, k: K) -> bool {
        let mark = st.vals.len();
        let r = match g {
            G::Empty => k(pos, st),
            G::Lit(s) => {
                let n = s.len();
                if src.len() - pos >= n && same(&src.as_bytes()[pos..pos + n], s.as_bytes()) { k(pos + n, st) } else { st.errs.report(pos, Why::Expected(format!("{s:?}"))); false }
            }
            G::Sub(t) => {
                let pos = sym::concrete(pos as u64) as usize;
                let mut i = 0;
                let mut r = false;
                while let Some(e) = t.query(src, pos, i) {
                    st.vals.push(t.value(src, pos, i));
                    if k(e, st) { r = true; break; }
                    st.vals.truncate(mark);
                    i += 1;
                }
                if i == 0 && !r { st.errs.report(t.fail_loc(src, pos), Why::Expected(NOUNS[t.id as usize].into())) }
                r
            }
            G::Class(f, noun) => match next_char(src, pos) { Some((c, e)) if f(c) => { st.vals.push(c as u64); k(e, st) } _ => { st.errs.report(pos, Why::Expected((*noun).into())); false } },
            G::Digit(radix, noun) => match next_char(src, pos) {
                Some((c, e)) => match digit_value(c, *radix) { Some(v) => { st.vals.push(v); k(e, st) } None => { st.errs.report(pos, Why::Expected((*noun).into())); false } },
                None => { st.errs.report(pos, Why::Expected((*noun).into())); false }
            },
            G::CharOf(opts) => {
                let mut hit = None;
                if let Some((c, e)) = next_char(src, pos) { for (i, x) in opts.chars().enumerate() { if x == c && hit.is_none() { hit = Some((i, e)); break; } } }
                match hit { Some((i, e)) => { st.vals.push(i as u64); k(e, st) } None => { st.errs.report(pos, Why::Expected(format!("one of {opts:?}"))); false } }
            }
            G::Int(signed, min, max, ty) => {
                let bs = src.as_bytes();
                let mut i = pos;
                let mut neg = false;
                if *signed && i < bs.len() && (bs[i] == b'-' || bs[i] == b'+') { neg = bs[i] == b'-'; i += 1; }
                let d0 = i;
                let mut v: i128 = 0;
                let mut big = false;
                while i < bs.len() && bs[i].is_ascii_digit() {
                    v = v * 10 + (bs[i] - b'0') as i128;
                    if v > 1 << 80 { big = true; v = 0; }
                    i += 1;
                }
                if i == d0 { st.errs.report(pos, Why::Expected((*ty).into())); false }
                else {
                    let v = if neg { -v } else { v };
                    if big || v < *min || v > *max { st.errs.report(pos, Why::Convert(src[pos..i].into(), ty)); false }
                    else { st.vals.push(v as u64); k(i, st) }
                }
            }
            G::Seq(gs) => self.seq(gs, src, pos, st, k),
            G::Alt(gs) => { let mut r = false; for g in gs { if self.m(g, src, pos, st, k) { r = true; break; } } r }
            G::Opt(g) => {
                st.vals.push(SOME);
                if self.m(g, src, pos, st, k) { true } else { st.vals.truncate(mark); st.vals.push(NONE); k(pos, st) }
            }
            G::Rep(p, s, need) => {
                st.vals.push(LIST);
                if self.rep(p, s.as_deref(), src, pos, st, k) { true }
                else if *need { false }
                else { st.vals.truncate(mark); st.vals.push(LIST); st.vals.push(END); k(pos, st) }
            }
            G::Line(g) => {
                if !(pos == 0 || src.as_bytes()[pos - 1] == b'\n') { st.errs.report(pos, Why::LineStart); false }
                else {
                    let mut e = pos;
                    while e < src.len() && src.as_bytes()[e] != b'\n' { e += 1; }
                    if e == src.len() && e == pos { st.errs.report(pos, Why::Expected("line".into())); false }
                    else { let next = if e == src.len() { e } else { e + 1 }; self.region(g, src, pos, e, next, Why::LineExtra, st, k) }
                }
            }
            G::Section(g) => {
                let bs = src.as_bytes();
                let ok = pos == 0 || (bs[pos - 1] == b'\n' && (pos == 1 || bs[pos - 2] == b'\n'));
                if !ok { st.errs.report(pos, Why::SectionStart); false }
                else if pos == src.len() { st.errs.report(pos, Why::Expected("section".into())); false }
                else {
                    // nonblank lines, up to a blank line or the end
                    let mut e = pos;
                    let mut next = src.len();
                    loop {
                        if e == src.len() { break; }
                        if bs[e] == b'\n' { next = e + 1; break; }   // a blank line
                        while e < src.len() && bs[e] != b'\n' { e += 1; }
                        if e < src.len() { e += 1; }
                    }
                    self.region(g, src, pos, e, next, Why::SectionExtra, st, k)
                }
            }
            G::Str(g) => {
                self.m(g, src, pos, st, &mut |e, st| {
                    let saved = st.vals.split_off(mark);
                    st.vals.push(STR);
                    let e2 = sym::concrete(e as u64) as usize;
                    for &x in &src.as_bytes()[pos..e2] { st.vals.push(x as u64) }
                    st.vals.push(END);
                    if k(e, st) { return true; }
                    st.vals.truncate(mark);
                    st.vals.extend(saved);
                    false
                })
            }
            G::Tag(t, g) => { st.vals.push(*t); self.m(g, src, pos, st, k) }
            G::Drop(g) => self.m(g, src, pos, st, &mut |e, st| {
                let saved = st.vals.split_off(mark);
                if k(e, st) { return true; }
                st.vals.truncate(mark);
                st.vals.extend(saved);
                false
            }),
            G::Flat(g) => self.m(g, src, pos, st, &mut |e, st| {
                let saved = st.vals.split_off(mark);
                st.vals.extend_from_slice(&saved[1..saved.len() - 1]);
                if k(e, st) { return true; }
                st.vals.truncate(mark);
                st.vals.extend(saved);
                false
            }),
            G::Lex(f, ty) => match f(src, pos) {
                LexR::No => { st.errs.report(pos, Why::Expected((*ty).into())); false }
                LexR::Bad(e) => { st.errs.report(pos, Why::Convert(src[pos..e].into(), ty)); false }
                LexR::Ok(e, v) => { st.vals.extend(v); k(e, st) }
            },
            G::Rule(i) => { st.depth += 1; let r = self.m(&self.rules[*i], src, pos, st, k); st.depth -= 1; r }
        };
        if !r { st.vals.truncate(mark); }
        r
    }
    fn seq(&self, gs: &[G<'a>], src: &str, pos: usize, st: &mut St, k: K) -> bool {
        match gs.split_first() { None => k(pos, st), Some((g, rest)) => self.m(g, src, pos, st, &mut |e, st| self.seq(rest, src, e, st, k)) }
    }
    // one or more, greedily; an iteration that consumes nothing is not followed by another
    fn rep(&self, p: &G<'a>, s: Option<&G<'a>>, src: &str, pos: usize, st: &mut St, k: K) -> bool {
        self.m(p, src, pos, st, &mut |e, st| {
            let mark = st.vals.len();
            let more = match s {
                None => e != pos && self.rep(p, s, src, e, st, k),
                Some(g) => self.m(g, src, e, st, &mut |e2, st| {
                    // the separator's own value is not part of the result
                    let saved = st.vals.split_off(mark);
                    if e2 != pos && self.rep(p, s, src, e2, st, k) { return true; }
                    st.vals.truncate(mark);
                    st.vals.extend(saved);
                    false
                }),
            };
            if more { return true; }
            st.vals.truncate(mark);
            st.vals.push(END);
            if k(e, st) { return true; }
            st.vals.truncate(mark);
            false
        })
    }
    fn region(&self, g: &G<'a>, src: &str, pos: usize, e: usize, next: usize, extra: Why, st: &mut St, k: K) -> bool {
        let inner = &src[pos..e];
        let mut sub = St { vals: vec![], errs: Errs::default(), depth: st.depth };
        let ok = self.m(g, inner, 0, &mut sub, &mut |e, s| { if e == inner.len() { true } else { s.errs.report(e, extra.clone()); false } });
        if ok { st.vals.extend(sub.vals); k(next, st) }
        else { if let Some(at) = sub.errs.at { for w in sub.errs.why { st.errs.report(pos + at, w) } } false }
    }
    /// The whole-input result: tokens of the value, or the failures at the furthest location.
    pub fn run(&self, g: &G<'a>, src: &str) -> Result<Vec<u64>, Errs> {
        let mut st = St { vals: vec![], errs: Errs::default(), depth: 0 };
        let ok = self.m(g, src, 0, &mut st, &mut |e, s| { if e == src.len() { true } else { s.errs.report(e, Why::Extra); false } });
        if ok { Ok(st.vals) } else { Err(st.errs) }
    }
}
fn same(a: &[u8], b: &[u8]) -> bool { let mut r = true; for i in 0..a.len() { r &= a[i] == b[i]; } r }
pub fn next_char(src: &str, pos: usize) -> Option<(char, usize)> {
    let bs = src.as_bytes();
    if pos >= bs.len() { return None; }
    let x = bs[pos] as u32;
    let c = |i: usize| (bs[pos + i] & 0x3f) as u32;
    let (v, n) = if x < 0x80 { (x, 1) } else if x < 0xE0 { ((x & 0x1f) << 6 | c(1), 2) } else if x < 0xF0 { ((x & 0xf) << 12 | c(1) << 6 | c(2), 3) } else { ((x & 7) << 18 | c(1) << 12 | c(2) << 6 | c(3), 4) };
    Some((unsafe { char::from_u32_unchecked(v) }, pos + n))
}
fn digit_value(c: char, radix: u32) -> Option<u64> {
    let x = c as u32;
    let v = if (48..=57).contains(&x) { x - 48 } else if (65..=70).contains(&x) { x - 55 } else if (97..=102).contains(&x) { x - 87 } else { 99 };
    if v < radix { Some(v as u64) } else { None }
}

// ---------------------------------------------------------------- comparison
pub const C_ACCEPT: u64 = 1;
pub const C_REJECT: u64 = 2;
/// What to compare: whether the input is accepted, also the value, the error
/// location (and source), the reason in the error message.
#[derive(Clone, Copy, PartialEq)]
pub enum Cmp { Value, Error, Reason, Accept }
/// A harness level is 1000 * mode + 100 * alternatives + size.
pub fn mode(l: u32) -> Cmp { match l / 1000 { 0 => Cmp::Value, 1 => Cmp::Error, 2 => Cmp::Reason, _ => Cmp::Accept } }
pub fn alts(l: u32) -> usize { (l / 100 % 10) as usize }
pub fn size(l: u32) -> usize { (l % 100) as usize }

pub fn eq_tokens(a: &[u64], b: &[u64]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0;
    for i in 0..a.len() { d |= a[i] ^ b[i]; }
    d == 0
}
/// Compare a real parser with its reference pattern on one (symbolic) source.
pub fn diff<P>(p: &P, g: &G, src: &str, c: Cmp) where P: Parser, P::Output: Flat { diff_rules(p, g, vec![], src, c) }
pub fn diff_rules<'a, P>(p: &P, g: &G<'a>, rules: Vec<G<'a>>, src: &str, c: Cmp) where P: Parser, P::Output: Flat {
    let real = p.parse(src);
    let real = match real { Ok(v) => Ok(flat(&v)), Err(e) => Err(e) };
    compare(real, &Ref { rules }, g, src, c)
}
pub fn compare<'a>(real: Result<Vec<u64>, ParseError>, r: &Ref<'a>, g: &G<'a>, src: &str, c: Cmp) {
    let want = r.run(g, src);
    match (real, want) {
        (Ok(v), Ok(w)) => {
            sym::reach(C_ACCEPT);
            sym::observe(1);
            for &x in &v { sym::observe(x) }
            if c == Cmp::Value { sym::check(eq_tokens(&v, &w), "parse() succeeded with a value other than that of the most preferred whole match") }
        }
        (Err(e), Err(w)) => {
            sym::reach(C_REJECT);
            sym::observe(2);
            sym::observe(e.location as u64);
            if c == Cmp::Error {
                sym::check(Some(e.location) == w.at, "error location is not the furthest position at which matching failed");
            }
            if c == Cmp::Reason {
                let msg = e.to_string();
                sym::check(e.source.len() == src.len() && same(e.source.as_bytes(), src.as_bytes()), "error source is not the full input");
                sym::check(Some(e.location) == w.at, "the failure stated is not at the furthest position at which matching failed");
                sym::check(Some(e.location) != w.at || w.why.iter().any(|x| x.states(&msg)), "error message does not state a failure that happened at its location");
                sym::check(Some(e.location) != w.at || w.why.first().is_some_and(|x| x.states(&msg)), "error message does not state the first of the failures at its location");
            }
        }
        _ if c == Cmp::Error || c == Cmp::Reason => {}
        (Ok(_), Err(_)) => sym::fail("parse() accepted an input that the pattern does not match as a whole"),
        (Err(_), Ok(_)) => sym::fail("parse() rejected an input that the pattern matches as a whole"),
    }
}
