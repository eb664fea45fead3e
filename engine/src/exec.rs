//! Symbolic executor: explores every feasible path of a harness function.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const HEAP: u64 = 0x5000_0000;
pub const HEAP_END: u64 = 0x9000_0000;
pub const STACK: u64 = 0xA000_0000;
pub const STACK_END: u64 = 0xB000_0000;

#[derive(Clone)]
struct Frame { f: Rc<Func>, pc: u32, base: u32, sp: u64, dst: u32, nret: u32 }

#[derive(Clone)]
pub struct State {
    regs: Vec<V>,
    frames: Vec<Frame>,
    mem: Mem,
    brk: u64,
    sp: u64,
    cons: Vec<E>,
    dom: Vec<[u64; 4]>,
    entangled: u128,
    pub model: Vec<u64>,
    pub nvars: u32,
    obs: Vec<V>,
    steps: u64,
    depth: u32,
    errno: u64,
    keys: Vec<u64>,
    heap_limit: u64,
}

#[derive(Clone, Debug)]
pub struct Viol { pub kind: String, pub msg: String, pub vars: Vec<u64> }
#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub assumed_away: u64,
    pub branches: u64,
    pub forks: u64,
    pub fd_decisions: u64,
    pub model_decisions: u64,
    pub cache_hits: u64,
    pub z3_queries: u64,
    pub z3_unsat: u64,
    pub z3_sat: u64,
    pub z3_time: f64,
    pub z3_unknown: u64,
    pub fd_xchecks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_vars: u32,
    pub asserts: u64,
}
#[derive(Default, Clone)]
pub struct Report {
    pub st: Stats,
    pub viols: Vec<Viol>,
    pub reached: BTreeSet<u64>,
    pub samples: Vec<(Vec<u64>, Vec<u64>)>,
    pub funcs: BTreeSet<u32>,
    pub errors: BTreeMap<String, u64>,
    pub complete: bool,
    pub hist: BTreeMap<u32, u64>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Hook { None, Panic, SymU8, SymAssume, SymFail, SymReach, SymObserve, SymConcrete, SymCheck, Malloc, Calloc, Realloc, Free, Memalign, Memcmp, Strlen, Errno, Syscall, Write, Writev, Getenv, KeyCreate, KeySet, KeyDelete, Zero, NegOne, Unsup }

pub struct Cfg { pub max_steps: u64, pub heap_limit: u64, pub xcheck: u64, pub z3_timeout: u32, pub max_viols: usize, pub sample_every: u64, pub max_samples: usize, pub profile: bool, pub enum_cap: usize, pub end: std::time::Instant }

pub struct Exec<'m> {
    pub m: &'m Module,
    pub ar: Arena,
    z3: Z3,
    hooks: Vec<Hook>,
    cache: HashMap<Vec<E>, Option<Vec<(u32, u64)>>, BuildFx>,
    pub rep: Report,
    pub cfg: Cfg,
    nfd: u64,
    pub forkprof: HashMap<(u32, u32), u64>,
    seed: u64,
}

enum Ctl { Next, End, Forked }

type Patch = Vec<(u32, u64)>;

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module, cfg: Cfg) -> Self {
        let mut hooks = vec![Hook::None; m.funcs.len()];
        for (i, f) in m.funcs.iter().enumerate() {
            let d = f.demangled.as_str();
            if f.range.is_some() {
                if d.starts_with("core::panicking::") || d.contains("rust_begin_unwind") || d.contains("__rustc::rust_panic") || d == "alloc::alloc::handle_alloc_error" || d.starts_with("std::panicking::") && (d.contains("panic_with_hook") || d.contains("begin_panic")) || d.starts_with("core::option::expect_failed") || d.starts_with("core::option::unwrap_failed") || d.starts_with("core::result::unwrap_failed") { hooks[i] = Hook::Panic; }
                continue;
            }
            hooks[i] = match f.name.as_str() {
                "sym_u8" => Hook::SymU8,
                "sym_assume" => Hook::SymAssume,
                "sym_fail" => Hook::SymFail,
                "sym_reach" => Hook::SymReach,
                "sym_observe" => Hook::SymObserve,
                "sym_concrete" => Hook::SymConcrete,
                "sym_check" => Hook::SymCheck,
                "malloc" => Hook::Malloc,
                "calloc" => Hook::Calloc,
                "realloc" => Hook::Realloc,
                "free" => Hook::Free,
                "posix_memalign" => Hook::Memalign,
                "memcmp" | "bcmp" => Hook::Memcmp,
                "strlen" => Hook::Strlen,
                "__errno_location" => Hook::Errno,
                "syscall" => Hook::Syscall,
                "write" => Hook::Write,
                "writev" => Hook::Writev,
                "getenv" => Hook::Getenv,
                "pthread_key_create" => Hook::KeyCreate,
                "pthread_setspecific" => Hook::KeySet,
                "pthread_key_delete" => Hook::KeyDelete,
                "sysconf" => Hook::Zero,
                "sched_getaffinity" | "getcwd" | "open64" => Hook::NegOne,
                "abort" => Hook::Panic,
                _ => Hook::Unsup,
            };
        }
        let z3 = Z3::new(cfg.z3_timeout);
        Exec { m, ar: Arena::new(), z3, hooks, cache: HashMap::default(), rep: Report::default(), cfg, nfd: 0, forkprof: HashMap::new(), seed: 0x9E3779B97F4A7C15 }
    }
    pub fn initial(&mut self, entry: &str, args: &[u128]) -> State {
        let id = self.m.func_by_name(entry).unwrap_or_else(|| { eprintln!("no function {entry}"); std::process::exit(2) });
        let f = self.m.func(id);
        self.rep.funcs.insert(id);
        let mut mem = Mem::new();
        self.m.init_globals(|a, b| mem.set_bytes(a, b));
        let mut st = State { regs: vec![], frames: vec![], mem, brk: HEAP, sp: STACK, cons: vec![], dom: vec![], entangled: 0, model: vec![], nvars: 0, obs: vec![], steps: 0, depth: 0, errno: STACK, keys: vec![], heap_limit: 0 };
        st.heap_limit = self.cfg.heap_limit;
        st.sp += 64;
        st.regs = vec![V::k(0); f.nslots as usize];
        for (i, a) in args.iter().enumerate() { if let Some((s, _)) = f.params.get(i) { st.regs[*s as usize] = V::k(*a); } }
        let sp = st.sp;
        st.frames.push(Frame { f, pc: 0, base: 0, sp, dst: 0, nret: 0 });
        st
    }

    // ---------- constraint handling ----------
    fn single(&self, e: E) -> Option<u32> { self.ar.single_var(e) }
    /// vars transitively connected to `vars`
    fn slice(&self, st: &State, vars: u128) -> (u128, Vec<E>) {
        let mut s = vars;
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, &c) in st.cons.iter().enumerate() {
                if !used[i] && self.ar.sup[c as usize] & s != 0 { used[i] = true; ch = true; s |= self.ar.sup[c as usize]; }
            }
            if !ch { break; }
        }
        (s, st.cons.iter().enumerate().filter(|(i, _)| used[*i]).map(|(_, &c)| c).collect())
    }
    fn solve(&mut self, st: &State, c: E) -> Option<Patch> {
        let (_, mut q) = self.slice(st, self.ar.sup[c as usize]);
        q.push(c);
        q.sort_unstable();
        q.dedup();
        if let Some(r) = self.cache.get(&q) { self.rep.st.cache_hits += 1; return r.clone(); }
        let left = self.cfg.end.saturating_duration_since(std::time::Instant::now());
        if left.is_zero() { self.rep.complete = false; return None; }
        let r = match self.z3.check(&self.ar, &q, left.as_millis() as u32 + 1) {
            Res::Sat(m) => Some(m),
            Res::Unsat => None,
            Res::Unknown if std::time::Instant::now() > self.cfg.end => { self.rep.complete = false; return None; }
            Res::Unknown => { *self.rep.errors.entry("solver returned unknown".into()).or_default() += 1; None }
        };
        if self.cache.len() > 400_000 { self.cache.clear(); }
        self.cache.insert(q, r.clone());
        r
    }
    /// feasibility of c under the path condition; Some(patch to the model) if feasible
    fn feasible(&mut self, st: &State, c: E) -> Option<Patch> {
        if let Some(v) = self.ar.cval(c) { return if v == 1 { Some(vec![]) } else { None }; }
        if self.ar.eval(c, &st.model) == 1 { self.rep.st.model_decisions += 1; return Some(vec![]); }
        if let Some(v) = self.single(c) {
            let t = self.ar.truth(c, v);
            let d = st.dom[v as usize];
            let x = [t[0] & d[0], t[1] & d[1], t[2] & d[2], t[3] & d[3]];
            let empty = x == [0; 4];
            if empty || st.entangled >> v & 1 == 0 {
                self.rep.st.fd_decisions += 1;
                self.nfd += 1;
                if self.cfg.xcheck > 0 && self.nfd % self.cfg.xcheck == 0 {
                    self.rep.st.fd_xchecks += 1;
                    let r = self.solve(st, c);
                    if r.is_none() != empty { *self.rep.errors.entry("finite-domain decision disagrees with z3".into()).or_default() += 1; }
                }
                if empty { return None; }
                let mut val = 0;
                for i in 0..4 { if x[i] != 0 { val = i as u64 * 64 + x[i].trailing_zeros() as u64; break; } }
                return Some(vec![(v, val)]);
            }
        }
        self.solve(st, c)
    }
    /// as `feasible`, but decided by z3 unless a known model already shows c feasible
    fn decide(&mut self, st: &State, c: E) -> Option<Patch> {
        if let Some(v) = self.ar.cval(c) { return if v == 1 { Some(vec![]) } else { None }; }
        if self.ar.eval(c, &st.model) == 1 { self.rep.st.model_decisions += 1; return Some(vec![]); }
        self.solve(st, c)
    }
    fn add(&mut self, st: &mut State, c: E, patch: Patch) {
        for (v, x) in patch { st.model[v as usize] = x; }
        self.add_c(st, c);
        debug_assert_eq!(self.ar.eval(c, &st.model), 1);
    }
    fn add_c(&mut self, st: &mut State, c: E) {
        if self.ar.cval(c).is_some() { return; }
        let n = self.ar.n(c);
        if n.op == Op::And && n.w == 1 { self.add_c(st, n.a); self.add_c(st, n.b); return; }
        if n.op == Op::Xor && self.ar.cval(n.b) == Some(1) {
            let k = self.ar.n(n.a);
            if k.op == Op::Or { let x = self.ar.not1(k.a); let y = self.ar.not1(k.b); self.add_c(st, x); self.add_c(st, y); return; }
        }
        if st.cons.contains(&c) { return; }
        if let Some(v) = self.single(c) {
            let t = self.ar.truth(c, v);
            let d = &mut st.dom[v as usize];
            let nd = [d[0] & t[0], d[1] & t[1], d[2] & t[2], d[3] & t[3]];
            if nd == *d { return; }
            *d = nd;
        } else { st.entangled |= self.ar.sup[c as usize]; }
        st.cons.push(c);
    }
    /// all feasible values of e (value, constraint, patch); None if more than cap
    fn values(&mut self, st: &State, e: E, cap: usize) -> Option<Vec<(u128, E, Patch)>> {
        let w = self.ar.w(e);
        let mut out: Vec<(u128, E, Patch)> = vec![];
        if let Some(v) = self.single(e) {
            let d = st.dom[v as usize];
            let mut model = st.model.clone();
            let mut seen: Vec<u128> = vec![];
            for x in 0..256u64 {
                if d[(x / 64) as usize] >> (x % 64) & 1 == 0 { continue; }
                model[v as usize] = x;
                let r = self.ar.eval(e, &model);
                if !seen.contains(&r) { seen.push(r); if seen.len() > cap { return None; } }
            }
            for r in seen {
                let k = self.ar.konst(r, w);
                let c = self.ar.bin(Op::Eq, e, k);
                if let Some(p) = self.feasible(st, c) { out.push((r, c, p)); }
            }
            return Some(out);
        }
        // general: iterate with the solver
        let mut excl = self.ar.konst(1, 1);
        let mut cur = st.clone_model();
        let mut first = true;
        loop {
            let patch: Patch;
            if first { patch = vec![]; first = false; } else {
                match self.solve(st, excl) { None => break, Some(p) => { patch = p; } }
                cur = st.clone_model();
                for (v, x) in &patch { cur[*v as usize] = *x; }
            }
            let r = self.ar.eval(e, &cur);
            let k = self.ar.konst(r, w);
            let c = self.ar.bin(Op::Eq, e, k);
            out.push((r, c, patch));
            if out.len() > cap { return None; }
            let n = self.ar.not1(c);
            excl = self.ar.bin(Op::And, excl, n);
            if self.ar.cval(excl) == Some(0) { break; }
        }
        Some(out)
    }

    fn fork_values(&mut self, st: &mut State, e: E, work: &mut Vec<State>, set: impl Fn(&mut State, u128), cap: usize) -> Result<(), String> {
        let vs = self.values(st, e, cap).ok_or_else(|| format!("more than {cap} values for a symbolic address/size in {}", self.where_(st)))?;
        if vs.is_empty() { return Err("no feasible value".into()); }
        let k = vs.len();
        for (i, (r, c, p)) in vs.into_iter().enumerate().rev() {
            if i == 0 {
                set(st, r);
                self.add(st, c, p);
            } else {
                let mut s2 = st.clone();
                set(&mut s2, r);
                self.add(&mut s2, c, p);
                s2.depth += 1;
                work.push(s2);
            }
        }
        if k > 1 { st.depth += 1; self.rep.st.forks += k as u64 - 1; self.prof(st, k as u64 - 1); }
        Ok(())
    }
    fn prof(&mut self, st: &State, k: u64) { if self.cfg.profile { let f = st.frames.last().unwrap(); *self.forkprof.entry((f.f.id, f.pc)).or_default() += k; } }
    pub fn where_(&self, st: &State) -> String { let f = st.frames.last().unwrap(); format!("{} @{}", self.m.funcs[f.f.id as usize].demangled, f.pc) }
    pub fn backtrace(&self, st: &State) -> String { st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.f.id as usize].demangled.clone()).collect::<Vec<_>>().join(" < ") }

    // ---------- end of path ----------
    fn vars(&self, st: &State) -> Vec<u64> { st.model[..st.nvars as usize].to_vec() }
    fn finish(&mut self, st: &State) {
        self.rep.st.paths += 1;
        self.rep.st.max_vars = self.rep.st.max_vars.max(st.nvars);
        self.rep.st.steps += st.steps;
        self.rep.st.max_steps = self.rep.st.max_steps.max(st.steps);
        *self.rep.hist.entry(st.depth).or_default() += 1;
    }
    fn violation(&mut self, st: &State, kind: &str, msg: String) {
        self.finish(st);
        if self.rep.viols.len() < self.cfg.max_viols && self.rep.viols.iter().filter(|v| v.msg == msg).count() < 3 { self.rep.viols.push(Viol { kind: kind.into(), msg, vars: self.vars(st) }); }
    }
    fn error(&mut self, st: &State, msg: String) { self.finish(st); *self.rep.errors.entry(msg).or_default() += 1; }

    fn cstr(&mut self, st: &State, p: u64, n: u64) -> String {
        let mut b = vec![];
        for i in 0..n.min(400) { let (d, s) = st.mem.byte(p + i); b.push(if s != 0 { b'?' } else { d }); }
        String::from_utf8_lossy(&b).into_owned()
    }
    fn valid(&self, st: &State, a: u64, n: u64) -> bool {
        let e = a.wrapping_add(n);
        (a >= GLOBAL_BASE && e <= self.m.gend) || (a >= HEAP && e <= st.brk) || (a >= STACK && e <= STACK_END)
    }

    /// Run one state until its path ends; forks are pushed on `work`.
    pub fn run(&mut self, mut st: State, work: &mut Vec<State>) {
        loop {
            match self.step_block(&mut st, work) {
                Ctl::Next => {}
                Ctl::Forked => {}
                Ctl::End => return,
            }
        }
    }

    fn step_block(&mut self, st: &mut State, work: &mut Vec<State>) -> Ctl {
        let fr = st.frames.last().unwrap();
        let f = fr.f.clone();
        let mut pc = fr.pc as usize;
        let base = fr.base as usize;
        let limit = self.cfg.max_steps;
        macro_rules! get { ($o:expr) => {{ let o = $o; if o >= 0 { st.regs[base + o as usize] } else { V::k(f.consts[!o as usize]) } }}; }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.regs[base + $d as usize] = v; }}; }
        macro_rules! ex { ($v:expr, $w:expr) => {{ let v: V = $v; if v.e != 0 { v.e } else { self.ar.konst(v.c, $w) } }}; }
        macro_rules! sync { () => { st.frames.last_mut().unwrap().pc = pc as u32; }; }
        macro_rules! fail { ($k:expr, $m:expr) => {{ sync!(); let m = $m; self.violation(st, $k, m); return Ctl::End; }}; }
        macro_rules! unsup { ($m:expr) => {{ sync!(); let m = format!("{} in {}", $m, self.where_(st)); self.error(st, m); return Ctl::End; }}; }
        // concretise an operand by forking; re-executes the current instruction
        macro_rules! concretize { ($o:expr, $e:expr) => {{
            sync!();
            let o = $o as usize + base;
            let cap = self.cfg.enum_cap;
            if let Err(m) = self.fork_values(st, $e, work, |s, r| s.regs[o] = V::k(r), cap) { self.error(st, m); return Ctl::End; }
            continue;
        }}; }
        macro_rules! jump { ($e:expr) => {{
            let ed = &f.edges[$e as usize];
            if ed.simple { for &(d, s) in ed.moves.iter() { let v = get!(s); st.regs[base + d as usize] = v; } }
            else {
                let tmp: Vec<V> = ed.moves.iter().map(|&(_, s)| get!(s)).collect();
                for (&(d, _), v) in ed.moves.iter().zip(tmp) { st.regs[base + d as usize] = v; }
            }
            pc = ed.pc as usize;
        }}; }
        loop {
            st.steps += 1;
            if st.steps & 0xffff == 0 && std::time::Instant::now() > self.cfg.end { self.rep.complete = false; return Ctl::End; }
            if st.steps > limit { fail!("hang", format!("step limit {} exceeded: {}", limit, self.backtrace(st))); }
            match &f.code[pc] {
                Inst::Bin { op, w, n, dst, a, b } => {
                    for i in 0..*n as i32 {
                        let (x, y) = if *n == 1 { (get!(*a), get!(*b)) } else { (get!(lane(*a, i)), get!(lane(*b, i))) };
                        let r = if x.e == 0 && y.e == 0 {
                            if y.c == 0 && matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { fail!("ub", format!("division by zero at {}", self.where_(st))); }
                            V::k(bin(*op, *w, x.c, y.c))
                        } else {
                            let (ex, ey) = (ex!(x, *w), ex!(y, *w));
                            let e = self.ar.bin(*op, ex, ey);
                            mkv(&self.ar, e)
                        };
                        set!(*dst as i32 + i, r);
                    }
                }
                Inst::ICmp { p, w, n, dst, a, b } => {
                    for i in 0..*n as i32 {
                        let (x, y) = if *n == 1 { (get!(*a), get!(*b)) } else { (get!(lane(*a, i)), get!(lane(*b, i))) };
                        let r = if x.e == 0 && y.e == 0 { V::k(icmp(*p, *w, x.c, y.c) as u128) } else {
                            let (ex, ey) = (ex!(x, *w), ex!(y, *w));
                            let e = self.icmp_e(*p, ex, ey);
                            mkv(&self.ar, e)
                        };
                        set!(*dst as i32 + i, r);
                    }
                }
                Inst::FBin { op, w, n, dst, a, b } => {
                    for i in 0..*n as i32 {
                        let (x, y) = (get!(lane(*a, i)), get!(lane(*b, i)));
                        let r = if x.e == 0 && y.e == 0 { V::k(f_bin(*op, *w, x.c, y.c)) } else { let (ex, ey) = (ex!(x, *w), ex!(y, *w)); V::s(self.ar.fop(*op, *w, ex, ey, 0)) };
                        set!(*dst as i32 + i, r);
                    }
                }
                Inst::FNeg { w, n, dst, a } => {
                    for i in 0..*n as i32 {
                        let x = get!(lane(*a, i));
                        let r = if x.e == 0 { V::k(x.c ^ (1 << (*w - 1))) } else { V::s(self.ar.fop(Op::FNeg, *w, x.e, 0, 0)) };
                        set!(*dst as i32 + i, r);
                    }
                }
                Inst::FCmp { p, w, n, dst, a, b } => {
                    for i in 0..*n as i32 {
                        let (x, y) = (get!(lane(*a, i)), get!(lane(*b, i)));
                        let (ex, ey) = (ex!(x, *w), ex!(y, *w));
                        let conc = x.e == 0 && y.e == 0;
                        let mut q = |s: &mut Self, op: Op, l: E, r: E| -> E { if conc { let (cl, cr) = (s.ar.cval(l).unwrap(), s.ar.cval(r).unwrap()); let v = f_cmp(op, *w, cl, cr); s.ar.konst(v as u128, 1) } else { s.ar.fop(op, 1, l, r, 0) } };
                        let uno = q(self, Op::FUno, ex, ey);
                        let e = match p & 7 {
                            0 => self.ar.konst(0, 1),
                            1 => q(self, Op::FEq, ex, ey),
                            2 => q(self, Op::FLt, ey, ex),
                            3 => q(self, Op::FLe, ey, ex),
                            4 => q(self, Op::FLt, ex, ey),
                            5 => q(self, Op::FLe, ex, ey),
                            6 => { let l = q(self, Op::FLt, ex, ey); let g = q(self, Op::FLt, ey, ex); self.ar.bin(Op::Or, l, g) }
                            _ => self.ar.not1(uno),
                        };
                        // predicates 8.. are the ordered comparison with the same low bits, or unordered
                        let e = if *p >= 8 { self.ar.bin(Op::Or, e, uno) } else { e };
                        let r = mkv(&self.ar, e);
                        set!(*dst as i32 + i, r);
                    }
                }
                Inst::Cast { k, sw, dw, n, dst, a } => {
                    for i in 0..*n as i32 {
                        let x = if *n == 1 { get!(*a) } else { get!(lane(*a, i)) };
                        let r = if x.e == 0 {
                            V::k(match k { CastK::ZExt | CastK::Same => x.c, CastK::SExt => (sx(x.c, *sw) as u128) & mask(*dw), CastK::Trunc => x.c & mask(*dw) })
                        } else {
                            let e = match k { CastK::Same => x.e, CastK::ZExt => self.ar.zext(x.e, *dw), CastK::SExt => self.ar.sext(x.e, *dw), CastK::Trunc => self.ar.extract(x.e, 0, *dw) };
                            mkv(&self.ar, e)
                        };
                        set!(*dst as i32 + i, r);
                    }
                }
                Inst::FConv { op, sw, dw, n, dst, a } => {
                    for i in 0..*n as i32 {
                        let x = get!(lane(*a, i));
                        let r = if x.e == 0 { V::k(f_conv(*op, *dw, *sw, x.c)) } else { V::s(self.ar.fop(*op, *dw, x.e, 0, *sw as u128)) };
                        set!(*dst as i32 + i, r);
                    }
                }
                Inst::Bitcast { sw, sn, dw, dn, dst, a } => {
                    if sw == dw { for i in 0..*sn as i32 { let v = get!(lane(*a, i)); set!(*dst as i32 + i, v); } }
                    else if *sn > 1 && *dn == 1 || *sn > 1 && *dn > 1 && sn > dn {
                        let k = sn / dn;
                        for j in 0..*dn as i32 {
                            let lanes: Vec<V> = (0..k as i32).map(|i| get!(lane(*a, j * k as i32 + i))).collect();
                            let r = if lanes.iter().all(|v| v.e == 0) { let mut c = 0u128; for (i, v) in lanes.iter().enumerate() { c |= v.c << (i as u32 * sw); } V::k(c) }
                            else { let mut e = 0; for v in lanes { let x = ex!(v, *sw); e = if e == 0 { x } else { self.ar.concat(x, e) }; } mkv(&self.ar, e) };
                            set!(*dst as i32 + j, r);
                        }
                    } else {
                        let k = dn / sn;
                        for j in (0..*sn as i32).rev() {
                            let x = get!(lane(*a, j));
                            for i in 0..k as i32 {
                                let r = if x.e == 0 { V::k((x.c >> (i as u32 * dw)) & mask(*dw)) } else { let e = self.ar.extract(x.e, i as u32 * dw, *dw); mkv(&self.ar, e) };
                                set!(*dst as i32 + j * k as i32 + i, r);
                            }
                        }
                    }
                }
                Inst::Gep { dst, base: b, off, idx } => {
                    let p = get!(*b);
                    let mut c = (p.c as u64).wrapping_add(*off);
                    let mut sym = p.e != 0;
                    for &(o, w, sc) in idx.iter() { let v = get!(o); if v.e != 0 { sym = true; } else { c = c.wrapping_add((sx(v.c, w) as i64 as u64).wrapping_mul(sc)); } }
                    let r = if !sym { V::k(c as u128) } else {
                        let mut e = if p.e != 0 { p.e } else { 0 };
                        for &(o, w, sc) in idx.iter() {
                            let v = get!(o);
                            if v.e == 0 { continue; }
                            let x = if w < 64 { self.ar.sext(v.e, 64) } else { self.ar.extract(v.e, 0, 64) };
                            let k = self.ar.konst(sc as u128, 64);
                            let x = self.ar.bin(Op::Mul, x, k);
                            e = if e == 0 { x } else { self.ar.bin(Op::Add, e, x) };
                        }
                        let c = if p.e != 0 { c.wrapping_sub(p.c as u64) } else { c };
                        let k = self.ar.konst(c as u128, 64);
                        let e = self.ar.bin(Op::Add, e, k);
                        mkv(&self.ar, e)
                    };
                    set!(*dst, r);
                }
                Inst::Load1 { w, dst, p } => {
                    let a = get!(*p);
                    if a.e != 0 {
                        sync!();
                        match self.sym_load(st, a.e, *w) {
                            Some(v) => set!(*dst, v),
                            None => concretize!(*p, a.e),
                        }
                    } else {
                        let ad = a.c as u64;
                        if !self.valid(st, ad, (*w as u64 + 7) / 8) { fail!("memory", format!("invalid read of {} bits at {:#x}: {}", w, ad, self.backtrace(st))); }
                        let v = st.mem.read(&mut self.ar, ad, *w);
                        set!(*dst, v);
                    }
                }
                Inst::LoadN { dst, p, tys } => {
                    let a = get!(*p);
                    if a.e != 0 { concretize!(*p, a.e); }
                    let ad = a.c as u64;
                    let l = tys.last().map_or(0, |t| t.1 as u64 + (t.0 as u64 + 7) / 8);
                    if !self.valid(st, ad, l) { fail!("memory", format!("invalid read at {:#x}: {}", ad, self.backtrace(st))); }
                    for (i, &(w, o)) in tys.iter().enumerate() { let v = st.mem.read(&mut self.ar, ad + o as u64, w); set!(*dst as usize + i, v); }
                }
                Inst::Store1 { w, v, p } => {
                    let a = get!(*p);
                    if a.e != 0 { concretize!(*p, a.e); }
                    let ad = a.c as u64;
                    if !self.valid(st, ad, (*w as u64 + 7) / 8) { fail!("memory", format!("invalid write of {} bits at {:#x}: {}", w, ad, self.backtrace(st))); }
                    let v = get!(*v);
                    st.mem.write(ad, *w, v);
                }
                Inst::StoreN { v, p, tys } => {
                    let a = get!(*p);
                    if a.e != 0 { concretize!(*p, a.e); }
                    let ad = a.c as u64;
                    let l = tys.last().map_or(0, |t| t.1 as u64 + (t.0 as u64 + 7) / 8);
                    if !self.valid(st, ad, l) { fail!("memory", format!("invalid write at {:#x}: {}", ad, self.backtrace(st))); }
                    for (i, &(w, o)) in tys.iter().enumerate() { let x = get!(lane(*v, i as i32)); st.mem.write(ad + o as u64, w, x); }
                }
                Inst::Select { dst, c, a, b, n, veccond, ws } => {
                    let c0 = get!(*c);
                    for i in 0..*n as i32 {
                        let cv = if *veccond { get!(lane(*c, i)) } else { c0 };
                        let r = if cv.e == 0 { if cv.c == 1 { get!(lane(*a, i)) } else { get!(lane(*b, i)) } } else {
                            let (x, y) = (get!(lane(*a, i)), get!(lane(*b, i)));
                            let w = ws[i as usize].0;
                            let (x, y) = (ex!(x, w), ex!(y, w));
                            let e = self.ar.ite(cv.e, x, y);
                            mkv(&self.ar, e)
                        };
                        set!(*dst as i32 + i, r);
                    }
                }
                Inst::Alloca { dst, size, align } => {
                    let al = (*align).max(1);
                    let a = (st.sp + al - 1) / al * al;
                    st.sp = a + (*size).max(1);
                    if st.sp > STACK_END { fail!("stack", format!("stack overflow: {}", self.backtrace(st))); }
                    set!(*dst, V::k(a as u128));
                }
                Inst::Copy { dst, a, n } => { if *n == 1 { let v = get!(*a); set!(*dst, v); } else { let t: Vec<V> = (0..*n as i32).map(|i| get!(lane(*a, i))).collect(); for (i, v) in t.into_iter().enumerate() { set!(*dst as usize + i, v); } } }
                Inst::InsertValue { dst, agg, n, v, at, vn } => {
                    let mut t: Vec<V> = (0..*n as i32).map(|i| get!(lane(*agg, i))).collect();
                    for i in 0..*vn { t[(at + i) as usize] = get!(lane(*v, i as i32)); }
                    for (i, v) in t.into_iter().enumerate() { set!(*dst as usize + i, v); }
                }
                Inst::ExtractEl { dst, v, n, idx } => {
                    let i = get!(*idx);
                    if i.e != 0 { concretize!(*idx, i.e); }
                    if i.c >= *n as u128 { unsup!("extractelement out of range"); }
                    let r = get!(lane(*v, i.c as i32));
                    set!(*dst, r);
                }
                Inst::InsertEl { dst, v, n, el, idx } => {
                    let i = get!(*idx);
                    if i.e != 0 { concretize!(*idx, i.e); }
                    let mut t: Vec<V> = (0..*n as i32).map(|k| get!(lane(*v, k))).collect();
                    t[i.c as usize] = get!(*el);
                    for (k, v) in t.into_iter().enumerate() { set!(*dst as usize + k, v); }
                }
                Inst::Shuffle { dst, a, b, n, mask } => {
                    let t: Vec<V> = mask.iter().map(|&k| if (k as u32) < *n { get!(lane(*a, k)) } else { get!(lane(*b, k - *n as i32)) }).collect();
                    for (k, v) in t.into_iter().enumerate() { set!(*dst as usize + k, v); }
                }
                Inst::AtomicRmw { op, w, dst, p, v } => {
                    let a = get!(*p);
                    if a.e != 0 { concretize!(*p, a.e); }
                    let ad = a.c as u64;
                    if !self.valid(st, ad, (*w as u64 + 7) / 8) { fail!("memory", format!("invalid atomic at {:#x}: {}", ad, self.backtrace(st))); }
                    let old = st.mem.read(&mut self.ar, ad, *w);
                    let v = get!(*v);
                    let new = if *op == 0 { v } else {
                        let (x, y) = (ex!(old, *w), ex!(v, *w));
                        let e = match op { 1 => self.ar.bin(Op::Add, x, y), 2 => self.ar.bin(Op::Sub, x, y), 3 => self.ar.bin(Op::And, x, y), 4 => self.ar.bin(Op::Or, x, y), 5 => self.ar.bin(Op::Xor, x, y),
                            6 | 7 => { let c = self.ar.bin(Op::Ult, x, y); if *op == 6 { self.ar.ite(c, y, x) } else { self.ar.ite(c, x, y) } }
                            _ => { let c = self.ar.bin(Op::Slt, x, y); if *op == 8 { self.ar.ite(c, y, x) } else { self.ar.ite(c, x, y) } } };
                        mkv(&self.ar, e)
                    };
                    st.mem.write(ad, *w, new);
                    set!(*dst, old);
                }
                Inst::CmpXchg { w, dst, p, c, v } => {
                    let a = get!(*p);
                    if a.e != 0 { concretize!(*p, a.e); }
                    let ad = a.c as u64;
                    if !self.valid(st, ad, (*w as u64 + 7) / 8) { fail!("memory", format!("invalid atomic at {:#x}: {}", ad, self.backtrace(st))); }
                    let old = st.mem.read(&mut self.ar, ad, *w);
                    let c = get!(*c);
                    if old.e != 0 || c.e != 0 { unsup!("symbolic cmpxchg"); }
                    let ok = old.c == c.c;
                    if ok { let v = get!(*v); st.mem.write(ad, *w, v); }
                    set!(*dst, old);
                    set!(*dst + 1, V::k(ok as u128));
                }
                Inst::Br(e) => { jump!(*e); continue; }
                Inst::CondBr { c, t, f: ff } => {
                    let c = get!(*c);
                    if c.e == 0 { if c.c == 1 { jump!(*t) } else { jump!(*ff) } continue; }
                    self.rep.st.branches += 1;
                    let ne = self.ar.not1(c.e);
                    let mv = self.ar.eval(c.e, &st.model) == 1;
                    let (e1, e2, b1, b2) = if mv { (c.e, ne, *t, *ff) } else { (ne, c.e, *ff, *t) };
                    let other = self.feasible(st, e2);
                    if let Some(p) = other {
                        self.rep.st.forks += 1;
                        sync!();
                        self.prof(st, 1);
                        let mut s2 = st.clone();
                        s2.depth += 1;
                        st.depth += 1;
                        self.add(&mut s2, e2, p);
                        self.goto(&mut s2, b2);
                        work.push(s2);
                        self.add(st, e1, vec![]);
                    }
                    jump!(b1);
                    continue;
                }
                Inst::Switch { v, w, cases, def } => {
                    let x = get!(*v);
                    if x.e == 0 { let e = cases.iter().find(|k| k.0 == x.c).map_or(*def, |k| k.1); jump!(e); continue; }
                    self.rep.st.branches += 1;
                    // group by target
                    let mut groups: Vec<(u32, E)> = vec![];
                    let mut any = self.ar.konst(0, 1);
                    for &(k, ed) in cases.iter() {
                        let kk = self.ar.konst(k, *w);
                        let c = self.ar.bin(Op::Eq, x.e, kk);
                        any = self.ar.bin(Op::Or, any, c);
                        let tgt = f.edges[ed as usize].pc;
                        match groups.iter_mut().find(|g| f.edges[g.0 as usize].pc == tgt && f.edges[g.0 as usize].moves == f.edges[ed as usize].moves) { Some(g) => g.1 = self.ar.bin(Op::Or, g.1, c), None => groups.push((ed, c)) }
                    }
                    let d = self.ar.not1(any);
                    groups.push((*def, d));
                    let mut feas = vec![];
                    for (ed, c) in groups { if let Some(p) = self.feasible(st, c) { feas.push((ed, c, p)); } }
                    if feas.is_empty() { unsup!("switch without feasible case"); }
                    let k = feas.len();
                    sync!();
                    if k > 1 { self.rep.st.forks += k as u64 - 1; self.prof(st, k as u64 - 1); st.depth += 1; }
                    for (ed, c, p) in feas.drain(1..) {
                        let mut s2 = st.clone();
                        self.add(&mut s2, c, p);
                        self.goto(&mut s2, ed);
                        work.push(s2);
                    }
                    let (ed, c, p) = feas.pop().unwrap();
                    if k > 1 { self.add(st, c, p); }
                    jump!(ed);
                    continue;
                }
                Inst::Ret { v, n } => {
                    let fr = st.frames.pop().unwrap();
                    if st.frames.is_empty() {
                        self.finish(st);
                        let np = self.rep.st.paths;
                        if self.rep.samples.len() < self.cfg.max_samples && (np < 8 || np % self.cfg.sample_every == 0) {
                            let m = st.model.clone();
                            let o = st.obs.clone().into_iter().map(|v| if v.e == 0 { v.c as u64 } else { self.ar.eval(v.e, &m) as u64 }).collect();
                            let vs = self.vars(st);
                            self.rep.samples.push((vs, o));
                        }
                        return Ctl::End;
                    }
                    let cb = st.frames.last().unwrap().base as usize;
                    let k = (*n).min(fr.nret);
                    for i in 0..k as i32 { let x = get!(lane(*v, i)); st.regs[cb + (fr.dst as usize) + i as usize] = x; }
                    st.regs.truncate(fr.base as usize);
                    st.sp = fr.sp;
                    return Ctl::Next;
                }
                Inst::Unreachable => fail!("ub", format!("unreachable executed: {}", self.backtrace(st))),
                Inst::Unsup(s) => { let s = s.clone(); unsup!(format!("unsupported instruction {s}")) }
                Inst::Call { dst, nret, ws, callee, args } => {
                    let id = match callee {
                        Callee::Intrin(k) => {
                            // pointer/size concretisation for memory intrinsics
                            match k {
                                Intrin::MemCpy | Intrin::MemSet => {
                                    let (a, b, n) = (get!(args[0].0), get!(args[1].0), get!(args[2].0));
                                    if a.e != 0 { concretize!(args[0].0, a.e); }
                                    if n.e != 0 { concretize!(args[2].0, n.e); }
                                    if *k == Intrin::MemCpy && b.e != 0 { concretize!(args[1].0, b.e); }
                                    let n = n.c as u64;
                                    if n > 0 {
                                        let (pa, pb) = (a.c as u64, b.c as u64);
                                        if !self.valid(st, pa, n) { fail!("memory", format!("invalid memcpy/memset dst {:#x}+{}: {}", pa, n, self.backtrace(st))); }
                                        if *k == Intrin::MemCpy { if !self.valid(st, pb, n) { fail!("memory", format!("invalid memcpy src {:#x}+{}: {}", pb, n, self.backtrace(st))); } st.mem.copy(pa, pb, n); }
                                        else { st.mem.fill(pa, n, b); }
                                    }
                                }
                                Intrin::Assume => {}
                                Intrin::Trap => fail!("panic", format!("trap: {}", self.backtrace(st))),
                                _ => {
                                    if matches!(k, Intrin::FMath(_) | Intrin::SSubSat | Intrin::SAddSat) { for a in args.iter() { for i in 0..a.1 as i32 { let o = lane(a.0, i); let v = get!(o); if v.e != 0 { concretize!(o, v.e); } } } }
                                    if matches!(k, Intrin::Fshl | Intrin::Fshr) { let a = args[2]; for i in 0..a.1 as i32 { let o = lane(a.0, i); let v = get!(o); if v.e != 0 { concretize!(o, v.e); } } }
                                    let va: Vec<V> = args.iter().flat_map(|a| (0..a.1 as i32).map(|i| lane(a.0, i)).collect::<Vec<_>>()).map(|o| get!(o)).collect();
                                    match self.intrin(*k, &va, args, ws) { Ok(r) => for (i, v) in r.into_iter().enumerate() { set!(*dst as usize + i, v); }, Err(m) => unsup!(m) }
                                }
                            }
                            pc += 1;
                            continue;
                        }
                        Callee::Asm(s) => {
                            if s.contains("cpuid") { for i in 0..*nret { set!(*dst + i, V::k(0)); } }
                            else if s.trim_start().starts_with("sideeffect") && *nret == 0 || s.contains("black_box") || s.contains("\"\", ") {
                                if *nret == 1 && args.len() == 1 { let v = get!(args[0].0); set!(*dst, v); }
                            } else { let s = s.clone(); unsup!(format!("asm {s}")) }
                            pc += 1;
                            continue;
                        }
                        Callee::Func(id) => *id,
                        Callee::Ptr(o) => {
                            let v = get!(*o);
                            if v.e != 0 { concretize!(*o, v.e); }
                            let a = v.c as u64;
                            if a < FUNC_BASE || (a - FUNC_BASE) % 16 != 0 || (a - FUNC_BASE) / 16 >= self.m.funcs.len() as u64 { fail!("memory", format!("call through invalid pointer {:#x}: {}", a, self.backtrace(st))); }
                            ((a - FUNC_BASE) / 16) as u32
                        }
                    };
                    match self.hooks[id as usize] {
                        Hook::None => {
                            let callee = self.m.func(id);
                            if self.rep.funcs.insert(id) {}
                            let nb = st.regs.len();
                            // arguments
                            st.regs.resize(nb + callee.nslots as usize, V::k(0));
                            for (k, (s, n)) in callee.params.iter().enumerate() {
                                if let Some(a) = args.get(k) { for i in 0..(*n).min(a.1) as i32 { let v = get!(lane(a.0, i)); st.regs[nb + *s as usize + i as usize] = v; } }
                            }
                            pc += 1;
                            sync!();
                            let sp = st.sp;
                            st.sp += 16; // a return address: depth of calls shows in the addresses of locals
                            st.frames.push(Frame { f: callee, pc: 0, base: nb as u32, sp, dst: *dst, nret: *nret });
                            if st.frames.len() > 60000 { fail!("stack", format!("call depth exceeded: {}", self.backtrace(st))); }
                            return Ctl::Next;
                        }
                        Hook::Panic => {
                            // last pointer argument is usually &Location
                            let mut loc = String::new();
                            for a in args.iter().rev() {
                                let v = get!(a.0);
                                if v.e != 0 || !self.valid(st, v.c as u64, 24) { continue; }
                                let b = v.c as u64;
                                let (fp, fl, ln, co) = (st.mem.read(&mut self.ar, b, 64), st.mem.read(&mut self.ar, b + 8, 64), st.mem.read(&mut self.ar, b + 16, 32), st.mem.read(&mut self.ar, b + 20, 32));
                                if fp.e == 0 && fl.e == 0 && fl.c < 300 && fl.c > 2 && self.valid(st, fp.c as u64, fl.c as u64) && ln.e == 0 && ln.c < 100000 {
                                    let s = self.cstr(st, fp.c as u64, fl.c as u64);
                                    if s.ends_with(".rs") { loc = format!("{}:{}:{}", s, ln.c, co.c); break; }
                                }
                            }
                            sync!();
                            let m = format!("panic {} at {} [{}]", self.m.funcs[id as usize].demangled, loc, self.backtrace(st));
                            self.violation(st, "panic", m);
                            return Ctl::End;
                        }
                        h => {
                            // symbolic arguments of library models are concretised unless the model handles them
                            if !matches!(h, Hook::SymAssume | Hook::SymObserve | Hook::SymCheck | Hook::SymConcrete) {
                                let mut redo = None;
                                for a in args.iter() { let v = get!(a.0); if v.e != 0 { redo = Some((a.0, v.e)); break; } }
                                if let Some((o, e)) = redo { concretize!(o, e); }
                            }
                            let av: Vec<V> = args.iter().map(|a| get!(a.0)).collect();
                            let cv: Vec<u64> = av.iter().map(|v| v.c as u64).collect();
                            let mut ret = V::k(0);
                            match h {
                                Hook::SymU8 => {
                                    let k = st.nvars;
                                    st.nvars += 1;
                                    ret = V::s(self.ar.var(k, 8));
                                    st.dom.push([!0; 4]);
                                    st.model.push(self.pick(k));
                                }
                                Hook::SymAssume => {
                                    let v = av[0];
                                    let w = args[0].2;
                                    let c = if v.e == 0 { self.ar.konst((v.c & 1 == 1) as u128, 1) } else if w == 1 { v.e } else { let z = self.ar.konst(0, w); let q = self.ar.bin(Op::Eq, v.e, z); self.ar.not1(q) };
                                    match self.feasible(st, c) { None => { self.rep.st.assumed_away += 1; return Ctl::End; } Some(p) => self.add(st, c, p) }
                                }
                                Hook::SymCheck => {
                                    // sym_check(cond, msg, len): solver-decided assertion
                                    self.rep.st.asserts += 1;
                                    let v = av[0];
                                    let w = args[0].2;
                                    let c = if v.e == 0 { self.ar.konst((v.c & 1 == 1) as u128, 1) } else if w == 1 { v.e } else { let z = self.ar.konst(0, w); let q = self.ar.bin(Op::Eq, v.e, z); self.ar.not1(q) };
                                    let nc = self.ar.not1(c);
                                    if let Some(p) = self.decide(st, nc) {
                                        let mut s2 = st.clone();
                                        self.add(&mut s2, nc, p);
                                        let m = self.cstr(st, cv[1], cv[2]);
                                        self.violation(&s2, "assert", m);
                                        match self.feasible(st, c) { None => return Ctl::End, Some(p) => self.add(st, c, p) }
                                    }
                                }
                                Hook::SymFail => { let m = self.cstr(st, cv[0], cv[1]); fail!("assert", m); }
                                Hook::SymReach => { self.rep.reached.insert(cv[0]); }
                                Hook::SymObserve => st.obs.push(av[0]),
                                Hook::SymConcrete => {
                                    if av[0].e != 0 {
                                        let o = args[0].0;
                                        concretize!(o, av[0].e);
                                    }
                                    ret = av[0];
                                }
                                Hook::Malloc | Hook::Calloc => {
                                    let n = if h == Hook::Malloc { cv[0] } else { cv[0].wrapping_mul(cv[1]) };
                                    match self.alloc(st, n, 16) { Some(a) => ret = V::k(a as u128), None => fail!("memory-limit", format!("heap limit exceeded: {}", self.backtrace(st))) }
                                }
                                Hook::Realloc => {
                                    let old = cv[0];
                                    let n = cv[1];
                                    let on = if old == 0 { 0 } else { st.mem.read(&mut self.ar, old - 16, 64).c as u64 };
                                    if n <= on { ret = V::k(old as u128); }
                                    else { match self.alloc(st, n, 16) { Some(a) => { if on > 0 { st.mem.copy(a, old, on); } ret = V::k(a as u128) } None => fail!("memory-limit", format!("heap limit exceeded: {}", self.backtrace(st))) } }
                                }
                                Hook::Free => {}
                                Hook::Memalign => { match self.alloc(st, cv[2], cv[1]) { Some(a) => st.mem.write(cv[0], 64, V::k(a as u128)), None => fail!("memory-limit", "heap limit exceeded".into()) } }
                                Hook::Memcmp => {
                                    let n = cv[2];
                                    let bc = self.m.funcs[id as usize].name == "bcmp";
                                    if n > 0 && (!self.valid(st, cv[0], n) || !self.valid(st, cv[1], n)) { fail!("memory", format!("invalid memcmp: {}", self.backtrace(st))); }
                                    let mut r: V = V::k(0);
                                    let mut conc = true;
                                    for i in 0..n { if st.mem.byte(cv[0] + i).1 != 0 || st.mem.byte(cv[1] + i).1 != 0 { conc = false; break; } }
                                    if conc {
                                        for i in 0..n { let (x, y) = (st.mem.byte(cv[0] + i).0, st.mem.byte(cv[1] + i).0); if x != y { r = V::k(if x < y { 0xffff_ffff } else { 1 }); break; } }
                                    } else {
                                        // identical bytes (concrete or symbolic) do not matter, nothing after the first certain difference does
                                        let mut idx = vec![];
                                        for i in 0..n {
                                            let (a, b) = (st.mem.byte(cv[0] + i), st.mem.byte(cv[1] + i));
                                            if a.1 == b.1 && (a.1 != 0 || a.0 == b.0) { continue; }
                                            idx.push(i);
                                            if a.1 == 0 && b.1 == 0 { break; }
                                        }
                                        if idx.len() > 256 { unsup!("long symbolic memcmp") }
                                        let mut e = self.ar.konst(0, 32);
                                        let one = self.ar.konst(1, 32);
                                        let neg = self.ar.konst(0xffff_ffff, 32);
                                        for i in idx.into_iter().rev() {
                                            let x = st.mem.read(&mut self.ar, cv[0] + i, 8);
                                            let y = st.mem.read(&mut self.ar, cv[1] + i, 8);
                                            let (x, y) = (ex!(x, 8), ex!(y, 8));
                                            let eq = self.ar.bin(Op::Eq, x, y);
                                            let d = if bc { one } else { let lt = self.ar.bin(Op::Ult, x, y); self.ar.ite(lt, neg, one) };
                                            e = self.ar.ite(eq, e, d);
                                        }
                                        if bc { let z = self.ar.konst(0, 32); let ne = self.ar.bin(Op::Eq, e, z); e = self.ar.ite(ne, z, one); }
                                        r = mkv(&self.ar, e);
                                    }
                                    ret = r;
                                }
                                Hook::Strlen => { let mut n = 0; loop { let (b, s) = st.mem.byte(cv[0] + n); if s != 0 { unsup!("symbolic strlen"); } if b == 0 { break; } n += 1; } ret = V::k(n as u128); }
                                Hook::Errno => ret = V::k(st.errno as u128),
                                Hook::Syscall => match cv[0] {
                                    318 => { for i in 0..cv[2] { st.mem.set_byte(cv[1] + i, (i * 37 + 11) as u8, 0); } ret = V::k(cv[2] as u128); }
                                    186 => ret = V::k(1),
                                    202 => ret = V::k(0),
                                    x => unsup!(format!("syscall {x}")),
                                },
                                Hook::Write => ret = V::k(cv[2] as u128),
                                Hook::Writev => { let mut t = 0; for i in 0..cv[2] { t += st.mem.read(&mut self.ar, cv[1] + i * 16 + 8, 64).c; } ret = V::k(t); }
                                Hook::Getenv | Hook::Zero | Hook::KeyDelete => {}
                                Hook::KeyCreate => { st.keys.push(0); let k = st.keys.len() as u128; st.mem.write(cv[0], 32, V::k(k)); }
                                Hook::KeySet => {}
                                Hook::NegOne => ret = V::k(u64::MAX as u128 & mask(ws.first().map_or(64, |w| w.0))),
                                _ => { let n = self.m.funcs[id as usize].name.clone(); unsup!(format!("call to external {n}")) }
                            }
                            if *nret > 0 { set!(*dst, ret); }
                        }
                    }
                }
            }
            pc += 1;
        }
    }

    fn goto(&mut self, st: &mut State, e: u32) {
        let fr = st.frames.last().unwrap().clone();
        let ed = &fr.f.edges[e as usize];
        let base = fr.base as usize;
        let tmp: Vec<V> = ed.moves.iter().map(|&(_, s)| if s >= 0 { st.regs[base + s as usize] } else { V::k(fr.f.consts[!s as usize]) }).collect();
        for (&(d, _), v) in ed.moves.iter().zip(tmp) { st.regs[base + d as usize] = v; }
        st.frames.last_mut().unwrap().pc = ed.pc;
    }
    fn pick(&mut self, k: u32) -> u64 {
        // initial model values are arbitrary; vary them a little
        let _ = k;
        self.seed = self.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        b'0' as u64
    }
    fn alloc(&mut self, st: &mut State, n: u64, align: u64) -> Option<u64> {
        let al = align.max(16);
        if n > st.heap_limit || st.brk - HEAP + n > st.heap_limit { return None; }
        let a = (st.brk + 16 + al - 1) / al * al;
        st.brk = a + n;
        if st.brk > HEAP_END { return None; }
        st.mem.write(a - 16, 64, V::k(n as u128));
        Some(a)
    }

    fn icmp_e(&mut self, p: Pred, a: E, b: E) -> E {
        match p {
            Pred::Eq => self.ar.bin(Op::Eq, a, b),
            Pred::Ne => { let x = self.ar.bin(Op::Eq, a, b); self.ar.not1(x) }
            Pred::Ult => self.ar.bin(Op::Ult, a, b),
            Pred::Ugt => self.ar.bin(Op::Ult, b, a),
            Pred::Ule => self.ar.bin(Op::Ule, a, b),
            Pred::Uge => self.ar.bin(Op::Ule, b, a),
            Pred::Slt => self.ar.bin(Op::Slt, a, b),
            Pred::Sgt => self.ar.bin(Op::Slt, b, a),
            Pred::Sle => self.ar.bin(Op::Sle, a, b),
            Pred::Sge => self.ar.bin(Op::Sle, b, a),
        }
    }
    /// Load through a symbolic pointer as a decision table; None = fork over addresses instead.
    fn sym_load(&mut self, st: &State, e: E, w: u32) -> Option<V> {
        let vs = self.values(st, e, 300)?;
        if vs.len() < 2 { return None; }
        let n = (w as u64 + 7) / 8;
        let mut rows: Vec<(u64, V)> = vec![];
        for (a, _, _) in &vs {
            let a = *a as u64;
            if !self.valid(st, a, n) { return None; }
            rows.push((a, st.mem.read(&mut self.ar, a, w)));
        }
        rows.sort_by_key(|r| r.0);
        let mut runs: Vec<(u64, V)> = vec![];
        for r in rows { if let Some(l) = runs.last() { if l.1.c == r.1.c && l.1.e == r.1.e { continue; } } runs.push(r); }
        let distinct: std::collections::HashSet<(u128, E)> = runs.iter().map(|r| (r.1.c, r.1.e)).collect();
        // pointer-like tables (jump tables, vtables): fork
        if w == 64 && distinct.len() > 1 && runs.iter().all(|r| r.1.e == 0 && r.1.c as u64 >= GLOBAL_BASE && (r.1.c as u64) < STACK_END && r.1.c >> 64 == 0) { return None; }
        let mut acc: E = 0;
        for i in (0..runs.len()).rev() {
            let v = if runs[i].1.e != 0 { runs[i].1.e } else { self.ar.konst(runs[i].1.c, w) };
            if acc == 0 { acc = v; } else { let k = self.ar.konst(runs[i + 1].0 as u128, 64); let c = self.ar.bin(Op::Ult, e, k); acc = self.ar.ite(c, v, acc); }
        }
        Some(mkv(&self.ar, acc))
    }

    fn intrin(&mut self, k: Intrin, va: &[V], args: &[(i32, u32, u32)], ws: &[(u32, u32)]) -> Result<Vec<V>, String> {
        use Intrin::*;
        let n = args.first().map_or(1, |a| a.1) as usize;
        let w = args.first().map_or(64, |a| a.2);
        let mut out = vec![];
        match k {
            Ident => return Ok(va[..n].to_vec()),
            IsConst => return Ok(vec![V::k(0)]),
            Zero => return Ok(ws.iter().map(|_| V::k(0)).collect()),
            ReduceOr | ReduceAnd | ReduceAdd => {
                let mut e = self.xe(va[0], w);
                for v in &va[1..n] { let x = self.xe(*v, w); e = self.ar.bin(match k { ReduceOr => Op::Or, ReduceAnd => Op::And, _ => Op::Add }, e, x); }
                return Ok(vec![mkv(&self.ar, e)]);
            }
            AddCarry | SubBorrow => {
                let w = args[1].2;
                let c = self.xe(va[0], 8);
                let (a, b) = (self.xe(va[1], w), self.xe(va[2], w));
                let z = self.ar.konst(0, 8);
                let c0 = self.ar.bin(Op::Eq, c, z);
                let cin = self.ar.not1(c0);
                let (x, y, ci) = (self.ar.zext(a, w + 1), self.ar.zext(b, w + 1), self.ar.zext(cin, w + 1));
                let op = if k == AddCarry { Op::Add } else { Op::Sub };
                let t = self.ar.bin(op, x, y);
                let t = self.ar.bin(op, t, ci);
                let co = self.ar.extract(t, w, 1);
                let co = self.ar.zext(co, 8);
                let r = self.ar.extract(t, 0, w);
                return Ok(vec![mkv(&self.ar, co), mkv(&self.ar, r)]);
            }
            ReduceMul | ReduceXor => {
                let mut e = self.xe(va[0], w);
                for v in &va[1..n] { let x = self.xe(*v, w); e = self.ar.bin(if k == ReduceMul { Op::Mul } else { Op::Xor }, e, x); }
                return Ok(vec![mkv(&self.ar, e)]);
            }
            ReduceUMin | ReduceUMax | ReduceSMin | ReduceSMax => {
                let mut e = self.xe(va[0], w);
                for v in &va[1..n] {
                    let x = self.xe(*v, w);
                    let c = self.ar.bin(if matches!(k, ReduceUMin | ReduceUMax) { Op::Ult } else { Op::Slt }, e, x);
                    e = if matches!(k, ReduceUMin | ReduceSMin) { self.ar.ite(c, e, x) } else { self.ar.ite(c, x, e) };
                }
                return Ok(vec![mkv(&self.ar, e)]);
            }
            SAddO | SSubO | SMulO | UAddO | USubO | UMulO => {
                if n != 1 { return Err("vector overflow intrinsic".into()); }
                let (a, b) = (va[0], va[1]);
                let a_ = self.xe(a, w);
                let b_ = self.xe(b, w);
                let (r, o) = match k {
                    UAddO => { let r = self.ar.bin(Op::Add, a_, b_); let o = self.ar.bin(Op::Ult, r, a_); (r, o) }
                    USubO => { let r = self.ar.bin(Op::Sub, a_, b_); let o = self.ar.bin(Op::Ult, a_, b_); (r, o) }
                    SAddO | SSubO => {
                        let op = if k == SAddO { Op::Add } else { Op::Sub };
                        let r = self.ar.bin(op, a_, b_);
                        // overflow iff sign rule violated
                        let x = self.ar.bin(Op::Xor, a_, r);
                        let y = if k == SAddO { self.ar.bin(Op::Xor, b_, r) } else { self.ar.bin(Op::Xor, a_, b_) };
                        let z = self.ar.bin(Op::And, x, y);
                        let o = self.ar.extract(z, w - 1, 1);
                        (r, o)
                    }
                    UMulO | SMulO => {
                        if w > 64 {
                            if a.e == 0 && b.e == 0 && w == 128 {
                                if k == UMulO { let (r, o) = a.c.overflowing_mul(b.c); return Ok(vec![V::k(r), V::k(o as u128)]); }
                                let (r, o) = (a.c as i128).overflowing_mul(b.c as i128); return Ok(vec![V::k(r as u128), V::k(o as u128)]);
                            }
                            if w != 128 { return Err("wide mul.with.overflow".into()); }
                            // constant * x : overflow iff x outside [min/k, max/k]
                            let (kc, xe) = if b.e == 0 { (b.c, a_) } else if a.e == 0 { (a.c, b_) } else { return Err("symbolic 128-bit mul.with.overflow".into()) };
                            let r = self.ar.bin(Op::Mul, a_, b_);
                            if kc == 0 { (r, self.ar.konst(0, 1)) }
                            else if k == UMulO { let q = self.ar.konst(u128::MAX / kc, 128); let o = self.ar.bin(Op::Ult, q, xe); (r, o) }
                            else {
                                let ks = kc as i128;
                                if ks <= 0 { return Err("signed 128-bit mul by negative".into()); }
                                let hi = self.ar.konst((i128::MAX / ks) as u128, 128);
                                let lo = self.ar.konst((i128::MIN / ks) as u128, 128);
                                let o1 = self.ar.bin(Op::Slt, hi, xe);
                                let o2 = self.ar.bin(Op::Slt, xe, lo);
                                (r, self.ar.bin(Op::Or, o1, o2))
                            }
                        } else {
                            let r = self.ar.bin(Op::Mul, a_, b_);
                            let w2 = 2 * w;
                            let (x, y) = if k == UMulO { (self.ar.zext(a_, w2), self.ar.zext(b_, w2)) } else { (self.ar.sext(a_, w2), self.ar.sext(b_, w2)) };
                            let full = self.ar.bin(Op::Mul, x, y);
                            let back = if k == UMulO { self.ar.zext(r, w2) } else { self.ar.sext(r, w2) };
                            let eq = self.ar.bin(Op::Eq, full, back);
                            (r, self.ar.not1(eq))
                        }
                    }
                    _ => unreachable!(),
                };
                return Ok(vec![mkv(&self.ar, r), mkv(&self.ar, o)]);
            }
            _ => {}
        }
        let rw = ws.first().map_or(w, |x| x.0);
        for i in 0..n {
            let a = va[i];
            let b = if args.len() > 1 { va.get(n + i).copied().unwrap_or(V::k(0)) } else { V::k(0) };
            let conc = a.e == 0 && b.e == 0 && (args.len() < 3 || va[2 * n + i].e == 0);
            let r = match k {
                UMin | UMax | SMin | SMax => {
                    let (x, y) = (self.xe(a, w), self.xe(b, w));
                    let c = if matches!(k, UMin | UMax) { self.ar.bin(Op::Ult, x, y) } else { self.ar.bin(Op::Slt, x, y) };
                    let e = if matches!(k, UMin | SMin) { self.ar.ite(c, x, y) } else { self.ar.ite(c, y, x) };
                    mkv(&self.ar, e)
                }
                SCmp | UCmp => {
                    let (x, y) = (self.xe(a, w), self.xe(b, w));
                    let op = if k == UCmp { Op::Ult } else { Op::Slt };
                    let lt = self.ar.bin(op, x, y);
                    let gt = self.ar.bin(op, y, x);
                    let (m1, z, p1) = (self.ar.konst(!0, rw), self.ar.konst(0, rw), self.ar.konst(1, rw));
                    let t = self.ar.ite(gt, p1, z);
                    let e = self.ar.ite(lt, m1, t);
                    mkv(&self.ar, e)
                }
                USubSat => { let (x, y) = (self.xe(a, w), self.xe(b, w)); let c = self.ar.bin(Op::Ult, x, y); let d = self.ar.bin(Op::Sub, x, y); let z = self.ar.konst(0, w); let e = self.ar.ite(c, z, d); mkv(&self.ar, e) }
                UAddSat => { let (x, y) = (self.xe(a, w), self.xe(b, w)); let s = self.ar.bin(Op::Add, x, y); let c = self.ar.bin(Op::Ult, s, x); let z = self.ar.konst(!0, w); let e = self.ar.ite(c, z, s); mkv(&self.ar, e) }
                SSubSat | SAddSat => {
                    let (x, y) = (sx(a.c, w), sx(b.c, w));
                    let (lo, hi) = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
                    V::k((if k == SAddSat { x.saturating_add(y) } else { x.saturating_sub(y) }.clamp(lo, hi)) as u128 & mask(w))
                }
                FMath(m @ (16 | 17)) => {
                    let x = if w == 64 { f64::from_bits(a.c as u64) } else { f32::from_bits(a.c as u32) as f64 };
                    if m == 16 { V::k((x as u128).min(mask(rw))) } else { let (lo, hi) = if rw >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (rw - 1)), (1i128 << (rw - 1)) - 1) }; V::k((x as i128).clamp(lo, hi) as u128 & mask(rw)) }
                }
                FMath(m) => {
                    let g = |v: V| if w == 64 { f64::from_bits(v.c as u64) } else { f32::from_bits(v.c as u32) as f64 };
                    let (x, y) = (g(a), g(b));
                    let z = va.get(2 * n + i).map_or(0.0, |v| g(*v));
                    // for single precision only the exact operations are evaluated through double
                    if w != 64 && matches!(m, 0 | 7..=11 | 15) { return Err(format!("single-precision {k:?}")); }
                    let r = match m { 0 => x.log2(), 1 => x.ceil(), 2 => x.floor(), 3 => x.sqrt(), 4 => x.trunc(), 5 => x.round(), 6 => x.round_ties_even(), 7 => x.ln(), 8 => x.log10(), 9 => x.exp(), 10 => x.exp2(), 11 => x.mul_add(y, z), 12 => x.min(y), 13 => x.max(y), 14 => x.copysign(y), _ => x.powf(y) };
                    V::k(if w == 64 { r.to_bits() as u128 } else { (r as f32).to_bits() as u128 })
                }
                Abs => { let x = self.xe(a, w); let z = self.ar.konst(0, w); let c = self.ar.bin(Op::Slt, x, z); let ng = self.ar.bin(Op::Sub, z, x); let e = self.ar.ite(c, ng, x); mkv(&self.ar, e) }
                FAbs => if a.e == 0 { V::k(a.c & mask(w - 1)) } else { V::s(self.ar.fop(Op::FAbs, w, a.e, 0, 0)) },
                Ctlz | Cttz | Ctpop if a.e == 0 => {
                    let x = a.c & mask(w);
                    V::k(match k { Ctpop => x.count_ones() as u128, Ctlz => (x.leading_zeros() - (128 - w)) as u128, _ => if x == 0 { w as u128 } else { x.trailing_zeros() as u128 } })
                }
                Ctlz | Cttz => {
                    let mut e = self.ar.konst(w as u128, w);
                    for i in 0..w {
                        // for cttz lowest set bit wins => build from high to low
                        let bit = if k == Cttz { w - 1 - i } else { i };
                        let c = self.ar.extract(a.e, bit, 1);
                        let v = self.ar.konst(if k == Cttz { bit as u128 } else { (w - 1 - bit) as u128 }, w);
                        e = self.ar.ite(c, v, e);
                    }
                    mkv(&self.ar, e)
                }
                Ctpop => { let mut e = self.ar.konst(0, w); for i in 0..w { let c = self.ar.extract(a.e, i, 1); let c = self.ar.zext(c, w); e = self.ar.bin(Op::Add, e, c); } mkv(&self.ar, e) }
                Bswap => {
                    if a.e == 0 { let mut r = 0u128; for i in 0..w / 8 { r |= ((a.c >> (8 * i)) & 0xff) << (w - 8 - 8 * i); } V::k(r) }
                    else { let mut e = 0; for i in 0..w / 8 { let b = self.ar.extract(a.e, w - 8 - 8 * i, 8); e = if e == 0 { b } else { self.ar.concat(b, e) }; } mkv(&self.ar, e) }
                }
                BitRev => {
                    if a.e == 0 { let mut r = 0u128; for i in 0..w { r |= ((a.c >> i) & 1) << (w - 1 - i); } V::k(r) }
                    else { let mut e = 0; for i in 0..w { let b = self.ar.extract(a.e, w - 1 - i, 1); e = if e == 0 { b } else { self.ar.concat(b, e) }; } mkv(&self.ar, e) }
                }
                Fshl | Fshr => {
                    let s = va[2 * n + i];
                    if s.e != 0 { return Err("symbolic funnel shift".into()); }
                    let s = (s.c % w as u128) as u32;
                    let l = if k == Fshl { s } else { w - s };
                    if conc {
                        let hi = if l == 0 { a.c } else if l == w { 0 } else { a.c << l };
                        let lo = if l == 0 { 0 } else if l == w { b.c } else { b.c >> (w - l) };
                        V::k((hi | lo) & mask(w))
                    } else {
                        let (x, y) = (self.xe(a, w), self.xe(b, w));
                        let e = if l == 0 { x } else if l == w { y } else { let h = self.ar.extract(x, 0, w - l); let lo = self.ar.extract(y, w - l, l); self.ar.concat(h, lo) };
                        mkv(&self.ar, e)
                    }
                }
                _ => return Err(format!("intrinsic {k:?}")),
            };
            out.push(r);
        }
        Ok(out)
    }
    fn xe(&mut self, v: V, w: u32) -> E { if v.e != 0 { v.e } else { self.ar.konst(v.c, w) } }

    pub fn sync_stats(&mut self) {
        self.rep.st.z3_queries = self.z3.queries;
        self.rep.st.z3_sat = self.z3.sat;
        self.rep.st.z3_unsat = self.z3.unsat;
        self.rep.st.z3_unknown = self.z3.unknown;
        self.rep.st.z3_time = self.z3.time;
    }
    pub fn fname(&self, id: u32) -> &str { &self.m.funcs[id as usize].demangled }
}
impl State { fn clone_model(&self) -> Vec<u64> { self.model.clone() } }

#[inline(always)]
fn lane(o: i32, i: i32) -> i32 { if o >= 0 { o + i } else { !(!o + i) } }
#[inline(always)]
fn icmp(p: Pred, w: u32, a: u128, b: u128) -> bool {
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Slt => sx(a, w) < sx(b, w),
        Pred::Sle => sx(a, w) <= sx(b, w),
        Pred::Sgt => sx(a, w) > sx(b, w),
        Pred::Sge => sx(a, w) >= sx(b, w),
    }
}
