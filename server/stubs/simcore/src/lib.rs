//! The simulated world of one run: tasks, choices, clock, sockets. Everything lives in one thread.
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

/// The type of a network connection, for those who name it.
#[derive(Debug)]
pub struct TcpStream;
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { (self.next() >> 11) % n }
    }
    pub fn chance(&mut self, p: f64) -> bool {
        ((self.next() >> 11) as f64) / ((1u64 << 53) as f64) < p
    }
}

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
    fn wake_by_ref(self: &Arc<Self>) { self.0.store(true, Ordering::SeqCst) }
}

struct Task { fut: Option<Pin<Box<dyn Future<Output = ()>>>>, flag: Arc<Flag> }

/// A direction of a connection: what was written and not yet arrived, what arrived and was not yet read.
#[derive(Default)]
pub struct Pipe { pub flying: VecDeque<String>, pub arrived: VecDeque<String>, pub eof: bool, pub waker: Option<Waker>, pub write_waker: Option<Waker>, pub cap: usize, pub broken: bool }

#[derive(Default)]
pub struct World {
    pub rng: u64,
    pub replay: Option<Vec<u32>>,
    pub choices: Vec<u32>,
    pub clock_ms: u64,
    pub clock_reads: Vec<u64>,
    pub config: String,
    tasks: Vec<Option<Task>>,
    pub panics: Vec<String>,
    pub pipes: Vec<Pipe>,
    pub faults: BTreeMap<String, u64>,
    pub trace: u64,
    pub ids: u64,
    pub id_repeat: f64,
    pub last_ids: Vec<String>,
    pub slots: BTreeMap<String, Box<dyn Any>>,
}

thread_local! { static W: RefCell<World> = RefCell::new(World::default()); }

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R { W.with(|w| f(&mut w.borrow_mut())) }

pub fn mark(s: &str) {
    with(|w| for b in s.bytes().chain([0u8]) { w.trace = (w.trace ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(5) })
}
pub fn fault(k: &str) { with(|w| *w.faults.entry(k.to_string()).or_insert(0) += 1) }

/// Where the decisions are also written, so that they outlive a run that hangs: a count, then the decisions.
pub static SHARED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub const SHARED_MAX: usize = 1 << 18;

/// One decision of the scheduler or of a fault source: a number below n.
pub fn choose(n: usize) -> usize {
    with(|w| {
        let c = match &w.replay {
            Some(v) => (v.get(w.choices.len()).copied().unwrap_or(0) as usize) % n.max(1),
            None => { let mut r = Rng(w.rng); let c = r.below(n as u64) as usize; w.rng = r.0; c }
        };
        w.choices.push(c as u32);
        let p = SHARED.load(Ordering::SeqCst) as *mut u32;
        if !p.is_null() && w.choices.len() < SHARED_MAX { unsafe { *p.add(w.choices.len()) = c as u32; *p = w.choices.len() as u32; } }
        c
    })
}
pub fn chance(p: f64) -> bool { p > 0.0 && choose(1000) as f64 >= 1000.0 - p * 1000.0 }

/// Picks one of the options with the given weights.
pub fn choose_weighted(weights: &[u32]) -> usize {
    let total: u32 = weights.iter().sum();
    let mut c = choose(total as usize) as u32;
    for (i, w) in weights.iter().enumerate() { if c < *w { return i; } c -= w; }
    0
}

pub fn spawn(fut: impl Future<Output = ()> + 'static) {
    with(|w| { w.tasks.push(Some(Task { fut: Some(Box::pin(fut)), flag: Arc::new(Flag(AtomicBool::new(true))) })) });
}
pub fn ready() -> Vec<usize> {
    with(|w| w.tasks.iter().enumerate().filter(|(_, t)| t.as_ref().map_or(false, |t| t.fut.is_some() && t.flag.0.load(Ordering::SeqCst))).map(|(i, _)| i).collect())
}
/// Runs one task until it waits, ends or panics (which ends that task only, as under tokio).
pub fn step(i: usize) {
    let (mut fut, flag) = with(|w| { let t = w.tasks[i].as_mut().unwrap(); t.flag.0.store(false, Ordering::SeqCst); (t.fut.take().unwrap(), t.flag.clone()) });
    let waker = Waker::from(flag);
    let mut cx = Context::from_waker(&waker);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let r = fut.as_mut().poll(&mut cx); (r, fut) }));
    match r {
        Ok((Poll::Pending, fut)) => with(|w| w.tasks[i].as_mut().unwrap().fut = Some(fut)),
        Ok((Poll::Ready(()), fut)) => { with(|w| w.tasks[i] = None); drop(fut) }
        Err(e) => { let m = panic_text(&e); with(|w| { w.tasks[i] = None; w.panics.push(m) }) }
    }
}
pub fn panic_text(e: &Box<dyn Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
}
pub fn tasks_alive() -> usize { with(|w| w.tasks.iter().filter(|t| t.is_some()).count()) }
/// Drops everything that is left (outside the borrow, since dropping wakes others).
pub fn shutdown() {
    let t = with(|w| std::mem::take(&mut w.tasks));
    for x in t { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(x))); }
}

pub fn pipe(cap: usize) -> usize { with(|w| { w.pipes.push(Pipe { cap, ..Default::default() }); w.pipes.len() - 1 }) }
/// Moves one item that is under way to its destination.
pub fn arrive(p: usize) {
    let wk = with(|w| { let q = &mut w.pipes[p]; if let Some(x) = q.flying.pop_front() { q.arrived.push_back(x); } (q.waker.take(), q.write_waker.take()) });
    if let Some(x) = wk.0 { x.wake() }
    if let Some(x) = wk.1 { x.wake() }
}
pub fn close(p: usize) {
    let wk = with(|w| { let q = &mut w.pipes[p]; q.eof = true; (q.waker.take(), q.write_waker.take()) });
    if let Some(x) = wk.0 { x.wake() }
    if let Some(x) = wk.1 { x.wake() }
}
pub fn breaks(p: usize) {
    let wk = with(|w| { let q = &mut w.pipes[p]; q.broken = true; q.eof = true; q.flying.clear(); (q.waker.take(), q.write_waker.take()) });
    if let Some(x) = wk.0 { x.wake() }
    if let Some(x) = wk.1 { x.wake() }
}
pub fn write(p: usize, s: String) { with(|w| { let q = &mut w.pipes[p]; if !q.broken { q.flying.push_back(s) } }) }
pub fn poll_read(p: usize, cx: &mut Context<'_>) -> Poll<Option<String>> {
    with(|w| {
        let q = &mut w.pipes[p];
        if let Some(x) = q.arrived.pop_front() { return Poll::Ready(Some(x)); }
        if q.eof && q.flying.is_empty() { return Poll::Ready(None); }
        q.waker = Some(cx.waker().clone());
        Poll::Pending
    })
}
/// Room for one more item, or an error when the other side is gone.
pub fn poll_room(p: usize, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
    with(|w| {
        let q = &mut w.pipes[p];
        if q.broken { return Poll::Ready(Err(())); }
        if q.flying.len() < q.cap { return Poll::Ready(Ok(())); }
        q.write_waker = Some(cx.waker().clone());
        Poll::Pending
    })
}
pub fn poll_flushed(p: usize, cx: &mut Context<'_>) -> Poll<Result<(), ()>> {
    with(|w| {
        let q = &mut w.pipes[p];
        if q.broken { return Poll::Ready(Err(())); }
        if q.flying.len() < q.cap { return Poll::Ready(Ok(())); } // the rest sits in the socket's buffer
        q.write_waker = Some(cx.waker().clone());
        Poll::Pending
    })
}

pub fn new_id(n: usize) -> String {
    let p = with(|w| w.id_repeat);
    if p > 0.0 && !with(|w| w.last_ids.is_empty()) && chance(p) {
        fault("identifiers drawn twice");
        let k = choose(with(|w| w.last_ids.len()));
        let id = with(|w| w.last_ids[k].clone());
        if id.len() == n { return id; }
    }
    with(|w| {
        w.ids += 1;
        let mut s = format!("{}", w.ids);
        while s.len() < n { s.insert(0, 'z'); }
        w.last_ids.push(s.clone());
        s
    })
}
