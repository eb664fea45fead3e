//! symx: symbolic execution of whole-program LLVM IR with z3.
//! usage: symx IR.ll --out FILE [--procs N] [--deadline SECS] [...] harness[:arg] ...
mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn alarm(s: u32) -> u32;
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o
}
fn list(v: &[u64]) -> String { let mut s = String::from("["); for (i, x) in v.iter().enumerate() { if i > 0 { s.push(','); } let _ = write!(s, "{x}"); } s.push(']'); s }

// ---- report (de)serialisation between worker processes ----
fn ser(r: &Report) -> String {
    let s = &r.st;
    let mut o = String::new();
    let _ = writeln!(o, "S {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}", s.paths, s.assumed_away, s.branches, s.forks, s.fd_decisions, s.model_decisions, s.cache_hits, s.z3_queries, s.z3_unsat, s.z3_sat, s.z3_unknown, s.fd_xchecks, s.steps, s.max_steps, s.max_vars, s.asserts, s.z3_time);
    for v in &r.viols { let _ = writeln!(o, "V {}\u{1}{}\u{1}{}", v.kind.replace('\n', " "), v.msg.replace('\n', " "), v.vars.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); }
    for x in &r.reached { let _ = writeln!(o, "R {x}"); }
    for (a, b) in &r.samples { let _ = writeln!(o, "T {}\u{1}{}", a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")); }
    for f in &r.funcs { let _ = writeln!(o, "F {f}"); }
    for (m, n) in &r.errors { let _ = writeln!(o, "E {n} {}", m.replace('\n', " ")); }
    for (m, n) in &r.hist { let _ = writeln!(o, "H {m} {n}"); }
    let _ = writeln!(o, "C {}", r.complete as u8);
    o
}
fn nums(s: &str) -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() }
fn merge(r: &mut Report, t: &str) {
    for l in t.lines() {
        let (k, v) = l.split_at(1);
        let v = v.trim_start();
        match k {
            "S" => {
                let p: Vec<&str> = v.split(' ').collect();
                let u = |i: usize| p[i].parse::<u64>().unwrap();
                let s = &mut r.st;
                s.paths += u(0); s.assumed_away += u(1); s.branches += u(2); s.forks += u(3); s.fd_decisions += u(4); s.model_decisions += u(5); s.cache_hits += u(6);
                s.z3_queries += u(7); s.z3_unsat += u(8); s.z3_sat += u(9); s.z3_unknown += u(10); s.fd_xchecks += u(11); s.steps += u(12);
                s.max_steps = s.max_steps.max(u(13)); s.max_vars = s.max_vars.max(u(14) as u32); s.asserts += u(15); s.z3_time += p[16].parse::<f64>().unwrap();
            }
            "V" => { let p: Vec<&str> = v.split('\u{1}').collect(); if r.viols.len() < 40 { r.viols.push(Viol { kind: p[0].into(), msg: p[1].into(), vars: nums(p[2]) }); } }
            "R" => { r.reached.insert(v.parse().unwrap()); }
            "T" => { let p: Vec<&str> = v.split('\u{1}').collect(); r.samples.push((nums(p[0]), nums(p[1]))); }
            "F" => { r.funcs.insert(v.parse().unwrap()); }
            "E" => { let (n, m) = v.split_once(' ').unwrap(); *r.errors.entry(m.into()).or_default() += n.parse::<u64>().unwrap(); }
            "H" => { let (n, m) = v.split_once(' ').unwrap(); *r.hist.entry(n.parse().unwrap()).or_default() += m.parse::<u64>().unwrap(); }
            "C" => if v == "0" { r.complete = false; },
            _ => {}
        }
    }
}

fn main() {
    let child = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    std::process::exit(child.join().unwrap_or(3));
}

fn real_main() -> i32 {
    let mut args = std::env::args().skip(1);
    let ir = args.next().expect("IR file");
    let mut procs = 8usize;
    let mut out = String::new();
    let mut deadline = 600.0f64;
    let mut total = 1e9f64;
    let mut hs: Vec<String> = vec![];
    let mut max_steps = 40_000_000u64;
    let mut heap = 256u64 << 20;
    let mut xcheck = 200u64;
    let mut profile = false;
    let mut samples = 6usize;
    let mut rlimit = 200_000_000u32;
    let mut stop_after = usize::MAX;
    let mut failing = 0usize;
    let mut slice = 8.0f64;
    let mut dump = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--procs" => procs = args.next().unwrap().parse().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--slice" => slice = args.next().unwrap().parse().unwrap(),
            "--total" => total = args.next().unwrap().parse().unwrap(),
            "--deadline" => deadline = args.next().unwrap().parse().unwrap(),
            "--max-steps" => max_steps = args.next().unwrap().parse().unwrap(),
            "--heap" => heap = args.next().unwrap().parse::<u64>().unwrap() << 20,
            "--xcheck" => xcheck = args.next().unwrap().parse().unwrap(),
            "--samples" => samples = args.next().unwrap().parse().unwrap(),
            "--rlimit" => rlimit = args.next().unwrap().parse().unwrap(),
            "--stop-after" => stop_after = args.next().unwrap().parse().unwrap(),
            "--profile" => profile = true,
            "--dump" => dump = Some(args.next().unwrap()),
            _ => hs.push(a),
        }
    }
    std::panic::set_hook(Box::new(|i| { if !i.to_string().contains("src/ir.rs") || std::env::var("SYMX_DEBUG").is_ok() { eprintln!("engine panic: {i}"); } }));
    let t0 = Instant::now();
    let m = ir::Module::load(&ir);
    eprintln!("loaded {} functions, {} globals in {:.2}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64());
    if let Some(d) = dump { let f = m.func(m.func_by_name(&d).unwrap()); for (i, c) in f.code.iter().enumerate() { println!("{i}: {c:?}"); } return 0; }
    // a first turn of at most `slice` seconds for each harness, then the rest of
    // the time for those that need more: one that is hard to decide does not
    // keep the others from being run
    let mut js_of: Vec<String> = vec![String::new(); hs.len()];
    let start = Instant::now();
    let mut queue: std::collections::VecDeque<(usize, bool)> = (0..hs.len()).map(|i| (i, true)).collect();
    while let Some((hi, first)) = queue.pop_front() {
        let h = &hs[hi];
        if !first && start.elapsed().as_secs_f64() > total - 2.0 { continue; }
        let deadline = if first { deadline.min(slice) } else { deadline };
        let mut js = String::new();
        let mut parts = h.split(':');
        let name = parts.next().unwrap();
        let hargs: Vec<u128> = parts.map(|x| x.parse().unwrap()).collect();
        let t0 = Instant::now();
        let end = (t0 + Duration::from_secs_f64(deadline)).min(start + Duration::from_secs_f64(total));
        let cfg = Cfg { max_steps, heap_limit: heap, xcheck, z3_timeout: rlimit, max_viols: 8, sample_every: 97, max_samples: samples, profile, enum_cap: 300, end };
        let mut ex = Exec::new(&m, cfg);
        ex.rep.complete = true;
        let init = ex.initial(name, &hargs);
        let mut front = std::collections::VecDeque::new();
        front.push_back(init);
        let target = if procs > 1 { procs * 24 } else { usize::MAX };
        while let Some(s) = if procs > 1 { front.pop_front() } else { front.pop_back() } {
            if Instant::now() > end { ex.rep.complete = false; break; }
            let mut w = vec![];
            ex.run(s, &mut w);
            // shallow forks first
            for x in w { front.push_back(x); }
            if front.len() >= target || ex.rep.viols.len() >= 8 { break; }
        }
        if ex.rep.viols.len() >= 8 { ex.rep.complete = false; front.clear(); }
        if ex.rep.complete && !front.is_empty() {
            let states: Vec<State> = front.into_iter().collect();
            let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicUsize;
            let ctr = unsafe { &*shared };
            let stop = unsafe { &*shared.add(1) };
            let dir = std::env::temp_dir();
            let me = unsafe { getpid() };
            let mut kids = vec![];
            for k in 0..procs {
                let path = dir.join(format!("symx.{me}.{hi}.{k}"));
                let pid = unsafe { fork() };
                if pid == 0 {
                    // a last resort: a worker that overruns its deadline is ended and counted as incomplete
                    unsafe { alarm(end.saturating_duration_since(Instant::now()).as_secs() as u32 + 20); }
                    let base_z = { ex.sync_stats(); ex.rep.st.clone() };
                    ex.rep = Report::default();
                    ex.rep.complete = true;
                    let mut states: Vec<Option<State>> = states.into_iter().map(Some).collect();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        'o: loop {
                            let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                            if i >= states.len() { break; }
                            let mut work = vec![states[i].take().unwrap()];
                            while let Some(s) = work.pop() {
                                if Instant::now() > end || stop.load(std::sync::atomic::Ordering::Relaxed) != 0 { ex.rep.complete = false; break 'o; }
                                ex.run(s, &mut work);
                                if ex.rep.viols.len() >= 8 { stop.store(1, std::sync::atomic::Ordering::Relaxed); }
                            }
                        }
                    }));
                    if r.is_err() { ex.rep.errors.insert("engine panic".into(), 1); }
                    ex.sync_stats();
                    let s = &mut ex.rep.st;
                    s.z3_queries -= base_z.z3_queries; s.z3_sat -= base_z.z3_sat; s.z3_unsat -= base_z.z3_unsat; s.z3_unknown -= base_z.z3_unknown; s.z3_time -= base_z.z3_time;
                    std::fs::write(&path, ser(&ex.rep)).unwrap();
                    if profile { prof(&ex); }
                    unsafe { _exit(0) }
                }
                kids.push((pid, path));
            }
            ex.sync_stats();
            for (pid, path) in kids {
                let mut st = 0;
                unsafe { waitpid(pid, &mut st, 0); }
                match std::fs::read_to_string(&path) { Ok(t) if st == 0 => merge(&mut ex.rep, &t), _ => { *ex.rep.errors.entry("worker process died".into()).or_default() += 1; ex.rep.complete = false; } }
                let _ = std::fs::remove_file(&path);
            }
        } else { ex.sync_stats(); if profile { prof(&ex); } }
        let el = t0.elapsed().as_secs_f64();
        let r = &ex.rep;
        let s = &r.st;
        eprintln!("{h}: paths={} assumed={} branches={} forks={} fd={} model={} cache={} z3={} (unsat {}, sat {}, {:.2}s) steps={} maxsteps={} viols={} errors={:?} complete={} reached={:?} {:.2}s", s.paths, s.assumed_away, s.branches, s.forks, s.fd_decisions, s.model_decisions, s.cache_hits, s.z3_queries, s.z3_unsat, s.z3_sat, s.z3_time, s.steps, s.max_steps, r.viols.len(), r.errors, r.complete, r.reached, el);
        for v in r.viols.iter().take(3) { eprintln!("  VIOL {}: {} {:?}", v.kind, v.msg, v.vars); }
        let _ = write!(js, "\n{{\"harness\":\"{}\",\"complete\":{},\"paths\":{},\"assumed_away\":{},\"branches\":{},\"forks\":{},\"fd_decisions\":{},\"model_decisions\":{},\"cache_hits\":{},\"z3_queries\":{},\"z3_sat\":{},\"z3_unsat\":{},\"z3_unknown\":{},\"z3_time\":{:.3},\"fd_xchecks\":{},\"steps\":{},\"max_steps\":{},\"max_vars\":{},\"asserts\":{},\"wall\":{:.3},\"reached\":{}", esc(h), r.complete, s.paths, s.assumed_away, s.branches, s.forks, s.fd_decisions, s.model_decisions, s.cache_hits, s.z3_queries, s.z3_sat, s.z3_unsat, s.z3_unknown, s.z3_time, s.fd_xchecks, s.steps, s.max_steps, s.max_vars, s.asserts, el, list(&r.reached.iter().copied().collect::<Vec<_>>()));
        let _ = write!(js, ",\"violations\":[");
        for (i, v) in r.viols.iter().enumerate() { let _ = write!(js, "{}{{\"kind\":\"{}\",\"msg\":\"{}\",\"vars\":{}}}", if i > 0 { "," } else { "" }, esc(&v.kind), esc(&v.msg), list(&v.vars)); }
        let _ = write!(js, "],\"errors\":{{");
        for (i, (k, n)) in r.errors.iter().enumerate() { let _ = write!(js, "{}\"{}\":{}", if i > 0 { "," } else { "" }, esc(k), n); }
        let _ = write!(js, "}},\"samples\":[");
        for (i, (a, b)) in r.samples.iter().enumerate() { let _ = write!(js, "{}{{\"vars\":{},\"obs\":{}}}", if i > 0 { "," } else { "" }, list(a), list(b)); }
        let _ = write!(js, "],\"functions\":[");
        let mut sep = "";
        for f in &r.funcs { let _ = write!(js, "{sep}\"{}\"", esc(ex.fname(*f))); sep = ","; }
        js.push_str("]}");
        js_of[hi] = js;
        if !r.viols.is_empty() { failing += 1; if failing >= stop_after { break; } }
        else if first && !r.complete && r.errors.is_empty() { queue.push_back((hi, false)); }
    }
    js_of.retain(|j| !j.is_empty());
    let js = format!("[{}\n]\n", js_of.join(","));
    if !out.is_empty() { std::fs::write(&out, js).unwrap(); }
    0
}
fn prof(ex: &Exec) {
    let mut v: Vec<_> = ex.forkprof.iter().collect();
    v.sort_by_key(|x| std::cmp::Reverse(*x.1));
    for ((f, pc), n) in v.into_iter().take(12) { eprintln!("   forks {n} at {} @{pc}", ex.fname(*f)); }
}
