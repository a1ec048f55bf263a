//! Runs: one forked process each, so that every run starts from the same state. Choices decide everything in a run.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

pub static SIM_CLOCK: AtomicBool = AtomicBool::new(false);
pub static CLOCK_MS: AtomicI64 = AtomicI64::new(0);
static ENTROPY: AtomicU64 = AtomicU64::new(0);

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut r = simcore::Rng(ENTROPY.fetch_add(1, Ordering::SeqCst) + 77);
    for i in 0..len { *buf.add(i) = r.next() as u8; }
    len as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME && SIM_CLOCK.load(Ordering::SeqCst) {
        let ms = CLOCK_MS.load(Ordering::SeqCst);
        (*ts).tv_sec = ms / 1000;
        (*ts).tv_nsec = (ms % 1000) * 1_000_000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

#[derive(Default, Clone)]
pub struct Outcome {
    pub kind: String,
    pub detail: String,
    pub ops: u64,
    pub steps: u64,
    pub failed: u64,
    pub state: u64,
    pub nontrivial: bool,
    pub log: Vec<String>,
    pub components: BTreeMap<String, u64>,
}
pub fn seed_of(seed: u64, run: u64) -> u64 { let mut r = simcore::Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ run.wrapping_mul(0xd1342543de82ef95)); r.next(); r.next() }

fn now() -> f64 {
    let mut t: libc::timespec = unsafe { std::mem::zeroed() };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

/// Executes one run in a child process and returns what it reports.
pub fn run(prop: &str, seed: u64, replay: Option<&[u32]>, patience: u32) -> Value {
    unsafe {
        let shared = simcore::SHARED.load(Ordering::SeqCst) as *mut u32;
        *shared = 0;
        let mut fds = [0; 2];
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            libc::alarm(patience);
            let (p, v) = (prop.to_string(), replay.map(|v| v.to_vec()));
            let out = std::thread::Builder::new().stack_size(16 << 20).spawn(move || child(&p, seed, v)).unwrap().join();
            let text = out.unwrap_or_else(|e| json!({"kind": "harness", "detail": simcore::panic_text(&e)}).to_string());
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(text.as_bytes());
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut s = String::new();
        let _ = f.read_to_string(&mut s);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if s.is_empty() {
            let what = if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGALRM { ("hang", "a call did not return".to_string()) } else { ("crash", format!("the process ended with status {}", st)) };
            let made: Vec<u32> = (0..*shared as usize).map(|i| *shared.add(i + 1)).collect();
            return json!({"kind": what.0, "detail": what.1, "choices": made});
        }
        serde_json::from_str(&s).unwrap_or(json!({"kind": "harness", "detail": s}))
    }
}
fn child(prop: &str, seed: u64, replay: Option<Vec<u32>>) -> String {
    std::panic::set_hook(Box::new(|_| {}));
    simcore::with(|w| { w.rng = seed; w.replay = replay; w.trace = 0xcbf29ce484222325 });
    let o = match prop { "C23" => crate::server::run(), _ => crate::module::run() };
    simcore::with(|w| json!({"kind": o.kind, "detail": o.detail, "ops": o.ops, "steps": o.steps, "failed": o.failed, "state": format!("{:016x}", o.state), "trace": format!("{:016x}", w.trace),
        "nontrivial": o.nontrivial, "log": o.log, "choices": w.choices, "faults": w.faults, "components": o.components, "panics": w.panics}).to_string())
}
fn choices_of(r: &Value) -> Option<Vec<u32>> { r["choices"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u32).collect()) }

pub fn bad(r: &Value) -> bool { r["kind"].as_str().map_or(true, |k| !k.is_empty()) }

/// Shortens the choices as long as the same kind of violation remains.
fn minimise(prop: &str, kind: &str, mut best: Vec<u32>, limit: f64) -> Vec<u32> {
    let end = now() + limit;
    let same = |v: &[u32]| { let r = run(prop, 0, Some(v), if kind == "hang" { 3 } else { 20 }); if r["kind"] == kind { Some(choices_of(&r).filter(|c| c.len() <= v.len()).unwrap_or(v.to_vec())) } else { None } };
    loop {
        let before = best.clone();
        let mut n = best.len() / 2;
        while n >= 1 && now() < end {
            let mut i = 0;
            while i < best.len() && now() < end {
                let mut v = best.clone();
                v.drain(i..(i + n).min(v.len()));
                if let Some(c) = same(&v) { best = c; } else { i += n; }
            }
            n /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() || now() > end { break; }
            if best[i] == 0 { continue; }
            for x in [0, best[i] / 2, best[i] - 1] {
                let mut v = best.clone();
                v[i] = x;
                while v.last() == Some(&0) { v.pop(); }
                if let Some(c) = same(&v) { best = c; break; }
            }
        }
        if best == before || now() > end { return best; }
    }
}

pub fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str, d: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1).cloned()).unwrap_or(d.to_string());
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), simcore::SHARED_MAX * 4, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0);
        simcore::SHARED.store(p as usize, Ordering::SeqCst);
    }
    crate::engine::load(&std::env::var("ENGINE").unwrap_or_else(|_| opt("--engine", "engine.so")));
    if a[1] == "replay" {
        let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let p = &v["plan"];
        let c: Option<Vec<u32>> = choices_of(p);
        let r = run(p["property"].as_str().unwrap(), p["seed"].as_u64().unwrap_or(0), c.as_deref(), 20);
        for l in r["log"].as_array().unwrap_or(&vec![]) { println!("{}", l.as_str().unwrap_or("")); }
        if bad(&r) { println!("{}: {}", r["kind"].as_str().unwrap_or("harness"), r["detail"].as_str().unwrap_or("")); std::process::exit(1) }
        println!("no violation");
        return;
    }
    let prop = a[2].clone();
    let n = |x: &str, d: &str| opt(x, d).parse::<u64>().unwrap();
    let (seed, runs, first, stride) = (n("--seed", "1"), n("--runs", "1000"), n("--first", "0"), n("--stride", "1"));
    let limit: f64 = opt("--limit", "100").parse().unwrap();
    let t0 = now();
    let (mut done, mut ops, mut steps, mut failed, mut twice, mut nontrivial) = (0, 0, 0, 0, 0, 0);
    let (mut traces, mut states) = (BTreeSet::new(), BTreeSet::new());
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut comps: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut violation = Value::Null;
    let mut k = first;
    while k < runs && now() - t0 < limit {
        let s = seed_of(seed, k);
        let r = run(&prop, s, None, 20);
        if r["kind"] == "harness" { println!("run {}: {}", k, r["detail"]); std::process::exit(2) }
        done += 1;
        let g = |x: &str| r[x].as_u64().unwrap_or(0);
        ops += g("ops"); steps += g("steps"); failed += g("failed");
        for (f, c) in r["faults"].as_object().unwrap_or(&Default::default()) { *faults.entry(f.clone()).or_default() += c.as_u64().unwrap(); }
        for (f, c) in r["components"].as_object().unwrap_or(&Default::default()) { *comps.entry(f.clone()).or_default() += c.as_u64().unwrap(); }
        if r["nontrivial"] == true { nontrivial += 1; }
        traces.insert(r["trace"].as_str().unwrap_or("").to_string());
        states.insert(r["state"].as_str().unwrap_or("").to_string());
        if samples.len() < 2 { samples.push(json!({"run": k, "seed": s, "events": r["log"].as_array().map(|l| l.iter().take(40).cloned().collect::<Vec<_>>())})); }
        if bad(&r) {
            let kind = r["kind"].as_str().unwrap().to_string();
            let c = match choices_of(&r) { Some(c) => Some(minimise(&prop, &kind, c, 40.0)), None => None };
            let detail = match &c { Some(c) => run(&prop, 0, Some(c), 20)["detail"].clone(), None => r["detail"].clone() };
            let log = match &c { Some(c) => run(&prop, 0, Some(c), 20)["log"].clone(), None => Value::Null };
            violation = json!({"run": k, "kind": kind, "detail": detail, "plan": {"property": prop, "seed": s, "choices": c, "events": log}});
            break;
        }
        if done % 16 == 1 {
            let q = run(&prop, s, None, 20);
            if q["trace"] != r["trace"] || q["detail"] != r["detail"] || q["choices"] != r["choices"] { println!("run {} is not deterministic", k); std::process::exit(2) }
            twice += 1;
        }
        k += stride;
    }
    let mut out = json!({"runs": done, "ops": ops, "steps": steps, "failed": failed, "traces": traces, "states": states.len(), "twice": twice, "wall": now() - t0, "nontrivial": nontrivial,
        "samples": samples, "faults": faults, "components": comps});
    if !violation.is_null() { out["violation"] = violation; }
    std::fs::write(opt("--out", "/dev/stdout"), out.to_string()).unwrap();
}
