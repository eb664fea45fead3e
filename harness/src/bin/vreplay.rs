//! Replays recorded assignments against the natively compiled real crate.
//! stdin: lines `harness level v1,v2,...`; stdout: one result line each:
//! `{ok|fail|panic|assume|short}\t<observations csv>\t<messages>`
use harness::sym::{AssumeViolated, Failed, R};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    let tabs = harness::tables();
    let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = loc.clone();
    std::panic::set_hook(Box::new(move |i| *l2.lock().unwrap() = i.to_string().replace(['\n', '\t'], " ")));
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let mut w = line.split(' ');
        let (name, level) = (w.next().unwrap(), w.next().unwrap().parse::<u32>().unwrap());
        let vars: Vec<u8> = w.next().unwrap_or("").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let Some(f) = tabs.iter().flat_map(|t| t.iter()).find(|t| t.0 == name).map(|t| t.1) else { println!("nosuch\t\t"); continue };
        R.with(|r| { *r.borrow_mut() = Default::default(); r.borrow_mut().vars = vars; });
        loc.lock().unwrap().clear();
        let res = catch_unwind(AssertUnwindSafe(|| f(level)));
        let (short, obs, fails) = R.with(|r| { let r = r.borrow(); (r.short, r.obs.clone(), r.fails.clone()) });
        let mut msgs = fails.clone();
        let status = match res {
            Ok(()) if fails.is_empty() => if short { "short" } else { "ok" },
            Ok(()) => "fail",
            Err(e) if e.is::<AssumeViolated>() => if fails.is_empty() { "assume" } else { "fail" },
            Err(e) if e.is::<Failed>() => "fail",
            Err(_) => { msgs.push(loc.lock().unwrap().clone()); "panic" }
        };
        println!("{status}\t{}\t{}", obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), msgs.join(" | "));
    }
}
