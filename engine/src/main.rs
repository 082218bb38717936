//! `sa`: a rustc wrapper that abstractly interprets the contract roots of the `contracts` crate
//! (and everything of nt_hive, zerocopy, core and alloc they reach) on the compiler's MIR.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_hir;
extern crate rustc_public_bridge;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;
mod exec;
mod loops;
mod models;
mod num;
mod scan;
mod sym;
mod val;
use rustc_public::mir::mono::*;
use rustc_public::*;
use std::io::Write;
use std::ops::ControlFlow;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o.push('"');
    o
}
fn jmap<T: std::fmt::Display>(m: &std::collections::BTreeMap<String, T>, q: bool) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), if q { js(&v.to_string()) } else { v.to_string() })).collect::<Vec<_>>().join(","))
}

fn analyse(i: Instance, name: &str) -> String {
    let t = std::time::Instant::now();
    sym::reset(); val::reset_all(); num::reset_cache(); models::reset();
    let mut x = exec::X::new();
    x.debug = std::env::var("SA_DEBUG").is_ok();
    if let Ok(m) = std::env::var("SA_STEPS") { x.max_steps = m.parse().unwrap_or(x.max_steps); }
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let unit = rustc_public::ty::Ty::new_tuple(&[]);
        let r = x.call(val::St::new(), i, vec![], &[], unit);
        r.len()
    }));
    let outs = match res { Ok(n) => n as i64, Err(e) => { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); x.gave_up = Some(format!("analyser failure: {m} in {}", x.trace())); -1 } };
    let f: Vec<String> = x.findings.iter().map(|(k, t)| format!("{{\"rule\":{},\"func\":{},\"msg\":{},\"trace\":{}}}", js(&k.rule), js(&k.func), js(&k.msg), js(t))).collect();
    let (p, s) = num::STAT.with(|s| s.get());
    format!("{{\"root\":{},\"ptrw\":{},\"outs\":{},\"gave_up\":{},\"steps\":{},\"calls\":{},\"lp\":[{},{},{}],\"ms\":{},\"findings\":[{}],\"proved\":{},\"unmodelled\":{},\"loops\":{},\"funcs\":[{}]}}",
        js(name), val::ptrw(), outs, x.gave_up.as_deref().map(js).unwrap_or("null".into()), x.steps, x.calls, p, s, num::NANOS.with(|n| n.get()) / 1000000, t.elapsed().as_millis(),
        f.join(","), jmap(&x.proved, false), jmap(&x.unmodelled, false), jmap(&x.loops_done, true), x.funcs.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let is_h = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "contracts");
    if let Ok(o) = std::env::var("SA_SCAN") { if args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "nt_hive") { args.remove(1); std::process::exit(scan::run(&args, &o)); } }
    if !is_h {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[1]).args(&args[2..]).exec();
        eprintln!("exec {e}"); std::process::exit(2);
    }
    args.remove(1);
    let outdir = std::env::var("SA_OUT").unwrap_or("/tmp/sa_out".into());
    let sel = std::env::var("SA_ROOT").unwrap_or_default();
    let jobs: usize = std::env::var("SA_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let limit: u32 = std::env::var("SA_TIME").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
    let r = run!(&args, || -> ControlFlow<()> {
        std::fs::create_dir_all(&outdir).ok();
        let mut roots: Vec<(String, Instance)> = vec![];
        for f in local_crate().fn_defs() {
            let n = f.name().to_string();
            if !n.starts_with("contracts::c") || n.ends_with("::call") { continue; } // (`call`: a hook)
            let short = n.trim_start_matches("contracts::").to_string();
            // selectors: comma separated prefixes "c01" or full names
            if !sel.split(',').any(|s| !s.is_empty() && (short == s || short.starts_with(&format!("{s}::")))) { continue; }
            if let Ok(i) = Instance::try_from(CrateItem(f.def_id())) { if i.body().map_or(false, |b| b.arg_locals().is_empty()) { roots.push((short, i)); } }
        }
        roots.sort_by(|a, b| a.0.cmp(&b.0));
        let ws: Vec<u32> = std::env::var("SA_PTRW").unwrap_or("64".into()).split(',').filter_map(|s| s.parse().ok()).collect();
        let mut jobsl: Vec<(String, Instance, u32)> = vec![];
        for w in &ws { for (n, i) in &roots { jobsl.push((n.clone(), *i, *w)); } }
        let _ = std::io::stdout().flush();
        let one = |n: &str, i: Instance, w: u32| { val::PTRW.with(|p| *p.borrow_mut() = w); let s = analyse(i, n); std::fs::write(format!("{outdir}/{}.{w}.json", n.replace("::", ".")), s).ok(); };
        if jobs == 1 { for (n, i, w) in jobsl { one(&n, i, w); } return ControlFlow::Continue(()); }
        let mut running: Vec<(i32, String, u32)> = vec![];
        let mut it = jobsl.into_iter();
        loop {
            while running.len() < jobs {
                match it.next() {
                    None => break,
                    Some((n, i, w)) => unsafe {
                        let pid = fork();
                        if pid == 0 { alarm(limit); one(&n, i, w); _exit(0); }
                        if pid < 0 { one(&n, i, w); } else { running.push((pid, n, w)); }
                    },
                }
            }
            if running.is_empty() { break; }
            let mut stt = 0i32;
            let pid = unsafe { waitpid(-1, &mut stt, 0) };
            if let Some(k) = running.iter().position(|r| r.0 == pid) {
                let (_, n, w) = running.remove(k);
                if stt != 0 { std::fs::write(format!("{outdir}/{}.{w}.json", n.replace("::", ".")), format!("{{\"root\":{},\"ptrw\":{w},\"outs\":-1,\"gave_up\":{},\"steps\":0,\"calls\":0,\"lp\":[0,0],\"ms\":0,\"findings\":[],\"proved\":{{}},\"unmodelled\":{{}},\"loops\":{{}},\"funcs\":[]}}", js(&n), js(&format!("analysis process ended with status {stt}")))).ok(); }
            } else if pid < 0 { break; }
        }
        ControlFlow::Continue(())
    });
    std::process::exit(if r.is_ok() { 0 } else { 1 })
}
