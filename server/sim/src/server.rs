//! rtbot-server in a world of its own: the input feed, Redis with the rtbot module, and WebSocket clients. Every step of
//! a task, every command, reply, frame and publication arriving somewhere is one decision.
use crate::driver::{Outcome, CLOCK_MS, SIM_CLOCK};
use crate::{engine, gen};
use redissim::Event;
use serde_json::{json, Value};
use simcore::{choose, choose_weighted, fault, mark};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::Ordering;

struct Client { out: usize, inp: usize, got: Vec<String>, broken: bool, stalled: bool, low: usize, high: Option<usize> }
struct Frame { text: String, expect: Option<(Option<u64>, f64)>, clock: (i64, i64) }

/// A frame of the feed and what it means: a time (absent: the server's clock) and a value, or nothing usable.
fn frame(t: &mut i64, mapped: bool, nested: bool, log_kind: &mut String) -> (String, Option<(Option<u64>, f64)>) {
    let v = gen::number();
    let wrap = |tv: Value, vv: Value| {
        let mut o = if nested { json!({"data": {}, "extra": [1, {"value": "77"}]}) } else { json!({"other": 3, "v": "x"}) };
        let d = if nested { &mut o["data"] } else { &mut o };
        if !tv.is_null() { d["ts"] = tv; }
        if !vv.is_null() { d["p"] = vv; }
        o.to_string()
    };
    *t += match choose(12) { 10 => 0, 11 => { fault("feed messages out of order"); -(choose(3) as i64) } x => 1 + (x % 3) as i64 };
    if *t < 0 { *t = 0; }
    let good = |x: f64| Some((if mapped { Some(*t as u64) } else { None }, x));
    let k = choose(20);
    if k >= 14 { fault("unusable or unusual feed messages"); }
    *log_kind = ["a string", "a number", "not JSON", "no value", "no time", "not a number", "a time that is not one", "a binary frame, a ping or an empty object"][if k < 11 { 0 } else if k < 14 { 1 } else { k - 12 }].into();
    match k {
        0..=10 => (format!("T{}", wrap(json!(*t), json!(v.to_string()))), good(v)),
        11..=13 => (format!("T{}", wrap(json!(*t), json!(v))), good(v)),
        14 => (["Tnot json", "T", "T{\"data\":", "Tnull", "T[]", "T3"][choose(6)].to_string(), None),
        15 => (format!("T{}", wrap(json!(*t), Value::Null)), None),
        16 => (format!("T{}", wrap(Value::Null, json!(v.to_string()))), if mapped { None } else { good(v) }),
        17 => (format!("T{}", wrap(json!(*t), [json!("abc"), json!(""), json!({"a": 1}), json!(true)][choose(4)].clone())), None),
        18 => (format!("T{}", wrap([json!("12"), json!(-4), json!({}), json!(2.5)][choose(4)].clone(), json!(v.to_string()))), if mapped { None } else { good(v) }),
        _ => (["B\u{1}\u{2}", "P", "T{}"][choose(3)].to_string(), None),
    }
}

fn http(port: u16, path: &str, ws: bool) -> Option<warp::Response> {
    let h = simcore::with(|w| w.slots.get(&format!("http {}", port)).and_then(|h| h.downcast_ref::<warp::Handler>()).cloned())?;
    Some(h(&warp::Request { path: path.into(), ws, socket: 0 }))
}

const GARBAGE: [&str; 5] = ["", "x", "-3,1", "hello,world", "12 ,5"];

/// One server with its feed and its clients.
struct Srv {
    program: Value, mapped: bool, nested: bool, port: u16, url: String, dead: Rc<Cell<bool>>,
    frames: Vec<Frame>, frames_total: usize, max_clients: usize, t: i64, feed_closed: bool, garbage: usize,
    input: String, channel: String, quiet_at: usize, clients: Vec<Client>,
}
struct D(Rc<Cell<bool>>);
impl Drop for D { fn drop(&mut self) { self.0.set(true) } }

fn start(i: usize, busy: bool) -> Srv {
    let mut program = gen::program();
    program["title"] = json!(format!("program {}", i));
    let (mapped, nested) = (choose(4) != 3, choose(2) == 1);
    let pre = if nested { "$.data." } else { "$." };
    let mut remap = json!({"values": [format!("{}p", pre)], "timestamp": null});
    if mapped { remap["timestamp"] = json!(format!("{}ts", pre)); }
    if choose(4) == 3 { remap["values"].as_array_mut().unwrap().push(json!("$.other")); } // a second value, which the server reads and does not use
    let (port, url) = (9889 + i as u16, format!("ws://feed{}", i));
    let mut config = json!({"url": "ws://here", "port": port, "rtbot": {"program": {"json": program.to_string()}}, "redis": {"url": "redis://r"},
        "input_ws": {"url": url, "operator_id": "in", "json_remap": remap}});
    if i == 0 && choose(4) == 3 { config.as_object_mut().unwrap().remove("port"); }
    let dead = Rc::new(Cell::new(false));
    let d = D(dead.clone());
    simcore::spawn(async move { let _d = d; simcore::with(|w| w.config = config.to_string()); let _ = rtbot_server::main().await; });
    Srv { program, mapped, nested, port, url, dead, frames: vec![], frames_total: if busy { 40 + choose(120) } else { choose(40) }, max_clients: 1 + choose(4), t: choose(50) as i64, feed_closed: false, garbage: 0,
        input: String::new(), channel: String::new(), quiet_at: 0, clients: vec![] }
}
fn fly(p: usize) -> usize { simcore::with(|w| w.pipes[p].flying.len()) }
fn outputs(channel: &str) -> usize { redissim::with(|s| s.log.iter().filter(|e| matches!(e, Event::Publish { channel: c, by_module: true, .. } if c == channel)).count()) }
fn panics() -> Vec<String> { simcore::with(|w| w.panics.clone()) }

#[derive(Clone, Copy)]
enum Act { Task, Exec(usize), Reply(usize), Message(usize), FeedArrives(usize), FeedSends(usize, usize), FeedEnds(usize, usize), Connect(usize), Receive(usize, usize), Client(usize, usize), Foreign(usize), Http(usize) }

pub fn run() -> Outcome {
    let mut o = Outcome::default();
    CLOCK_MS.store(1_700_000_000_000, Ordering::SeqCst);
    SIM_CLOCK.store(true, Ordering::SeqCst);
    let book = engine::install();
    redis_rtbot::simulator_load_module();
    let busy = choose(8) == 7; // much to send, and clients that stay behind for long
    let mut srv: Vec<Srv> = (0..1 + (!busy && choose(4) == 3) as usize).map(|i| start(i, busy)).collect();
    let oom = [0.0, 0.0, 0.1, 0.3][choose(4)];
    let foreign = choose(4) == 3;
    let cap = 1 + choose(4);
    let eager = [4, 1, 12][choose(3)]; // how eager the tasks are compared with the network
    let (mut steps, mut total, mut over) = (0u64, 0u64, false);
    let mut owner: Vec<usize> = vec![]; // connection to Redis -> server
    let mut log = vec![];
    macro_rules! note { ($($a:tt)*) => {{ let s = format!($($a)*); mark(&s); if log.len() < 400 { log.push(s); } }} }
    macro_rules! violation { ($k:expr, $($a:tt)*) => {{ o.kind = $k.into(); o.detail = format!($($a)*); o.log = log; o.steps = total; simcore::shutdown(); return o; }} }
    loop {
        steps += 1;
        total += 1;
        if srv.iter().any(|s| s.dead.get()) { violation!("server ended", "a server ended: {:?}", panics()) }
        let conns: Vec<(usize, usize, usize)> = simcore::with(|w| w.slots.get("redis").and_then(|c| c.downcast_ref::<redis::Connections>()).map_or(vec![], |c| c.0.clone()));
        owner.resize(conns.len(), 0);
        let started: Vec<bool> = srv.iter().map(|s| simcore::with(|w| w.slots.contains_key(&format!("http {}", s.port)))).collect();
        // a server that cannot create its keys does not start: that is not what is looked at here
        redissim::with(|s| s.fail_writes = if over || !started.iter().all(|x| *x) { 0.0 } else { oom });
        let ready = simcore::ready();
        if ready.is_empty() {
            // the servers are idle: what is still under way in their channels is all they have not seen
            for s in srv.iter_mut() {
                let subs: Vec<usize> = redissim::with(|r| r.subs.get(&s.channel).map_or(vec![], |x| x.iter().copied().collect()));
                let under_way: usize = subs.iter().map(|p| simcore::with(|w| w.pipes[*p].flying.iter().filter(|x| !GARBAGE.contains(&x.as_str())).count())).sum();
                s.quiet_at = outputs(&s.channel).saturating_sub(under_way);
                for c in s.clients.iter_mut() { if c.high.is_none() { c.high = Some(s.quiet_at); } }
            }
        }
        // every party that can act
        let (mut w, mut act) = (vec![], vec![]);
        let mut add = |weight: u32, a: Act| { w.push(weight); act.push(a); };
        if !ready.is_empty() { add(eager * 3, Act::Task); }
        for (i, c) in conns.iter().enumerate() {
            if fly(c.0) > 0 { add(6, Act::Exec(i)); }
            if fly(c.1) > 0 { add(6, Act::Reply(i)); }
            if fly(c.2) > 0 { add(5, Act::Message(i)); }
        }
        let mut idle = srv.iter().all(|s| s.frames.len() >= s.frames_total);
        for (k, s) in srv.iter().enumerate() {
            if let Some(f) = simcore::with(|w| w.slots.get(&format!("feed {}", s.url)).and_then(|x| x.downcast_ref::<usize>()).copied()) {
                if fly(f) > 0 { add(6, Act::FeedArrives(f)); }
                if !over && s.frames.len() < s.frames_total { add(5, Act::FeedSends(k, f)); idle = false; }
                if !over && s.frames.len() >= s.frames_total && !s.feed_closed { add(1, Act::FeedEnds(k, f)); }
            }
            if started[k] && !over && s.clients.len() < s.max_clients { add(if s.clients.is_empty() { 12 } else { 2 }, Act::Connect(k)); idle = false; }
            for (i, c) in s.clients.iter().enumerate() {
                if !c.broken && !c.stalled && fly(c.out) > 0 { add(5, Act::Receive(k, i)); }
                if !over && !c.broken { add(1, Act::Client(k, i)); }
            }
            if started[k] && !over && foreign && s.garbage < 3 && !s.channel.is_empty() { add(1, Act::Foreign(k)); }
            if started[k] && !over { add(1, Act::Http(k)); }
        }
        if act.is_empty() && over { break; }
        if act.is_empty() || (!over && steps > 3000) || (!over && idle && choose(40) == 39) {
            over = true;
            steps = 0;
            note!("faults end");
            for s in srv.iter_mut() { for c in s.clients.iter_mut() { c.stalled = false; } }
            continue;
        }
        if over && steps > 30000 { violation!("no progress", "the servers do not come to rest after the faults ended") }
        match act[choose_weighted(&w)] {
            Act::Task => { let k = ready[choose(ready.len())]; mark(&format!("task {}", k)); simcore::step(k); }
            Act::Exec(i) => {
                let c = conns[i];
                let cmd = simcore::with(|w| w.pipes[c.0].flying.pop_front()).unwrap();
                let words: Vec<String> = cmd.split('\x1f').map(|s| s.to_string()).collect();
                note!("redis executes {}", if words[0] == "JSON.SET" { "JSON.SET".to_string() } else { words.join(" ") });
                let r = match words[0].as_str() {
                    "PING" => "OK".to_string(),
                    "SUBSCRIBE" => { redissim::with(|s| { s.subs.entry(words[1].clone()).or_default().insert(words[2].parse().unwrap()); }); "OK".into() }
                    _ => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| redissim::exec(&words[0], &words[1..]))) {
                        Err(e) => violation!("redis aborted", "the module panics in {}: {}", words[0], simcore::panic_text(&e)),
                        Ok(Err(e)) => { o.failed += 1; format!("-{}", e) }
                        Ok(Ok(redissim::Reply::Str(s))) => s,
                        Ok(Ok(x)) => format!("{:?}", x),
                    },
                };
                if words[0] == "JSON.SET" { for (k, s) in srv.iter().enumerate() { if words[3] == s.program.to_string() { owner[i] = k; } } }
                if words[0] == "RTBOT.XRUN" { let s = &mut srv[owner[i]]; s.input = words[2].clone(); s.channel = format!("{}:ps", words[3]); }
                simcore::write(c.1, r);
            }
            Act::Reply(i) => { mark(&format!("reply {}", i)); simcore::arrive(conns[i].1) }
            Act::Message(i) => { mark(&format!("message {}", i)); simcore::arrive(conns[i].2) }
            Act::FeedArrives(f) => { mark(&format!("feed {}", f)); simcore::arrive(f) }
            Act::FeedSends(k, f) => {
                let s = &mut srv[k];
                let mut kind = String::new();
                let (text, expect) = frame(&mut s.t, s.mapped, s.nested, &mut kind);
                if choose(10) == 9 { CLOCK_MS.fetch_add(-(choose(5000) as i64), Ordering::SeqCst); fault("clock stepped back"); } else { CLOCK_MS.fetch_add(choose(50) as i64, Ordering::SeqCst); }
                note!("feed {} sends {} ({})", k, text, kind);
                let now = CLOCK_MS.load(Ordering::SeqCst);
                let dup = choose(12) == 11;
                if dup { fault("feed messages sent twice"); }
                for _ in 0..1 + dup as usize { simcore::write(f, text.clone()); s.frames.push(Frame { text: text.clone(), expect, clock: (now, now) }); o.ops += 1; }
            }
            Act::FeedEnds(k, f) => { srv[k].feed_closed = true; note!("feed {} ends", k); fault("feed closed"); simcore::close(f); }
            Act::Connect(k) => match http(srv[k].port, "ws", true).and_then(|r| r.upgrade) {
                None => violation!("connection refused", "a client cannot connect"),
                Some(f) => {
                    let (out, inp) = (simcore::pipe(cap), simcore::pipe(1 << 20));
                    let s = &mut srv[k];
                    note!("client {} of server {} connects", s.clients.len(), k);
                    let low = if ready.is_empty() { s.quiet_at } else { 0 };
                    s.clients.push(Client { out, inp, got: vec![], broken: false, stalled: false, low, high: None });
                    simcore::spawn(f(warp::ws::WebSocket { out, inp }));
                    o.ops += 1;
                }
            },
            Act::Receive(k, i) => {
                let c = &mut srv[k].clients[i];
                simcore::arrive(c.out);
                let s = simcore::with(|w| w.pipes[c.out].arrived.pop_front()).unwrap();
                note!("client {} of server {} receives {}", i, k, s);
                c.got.push(s);
            }
            Act::Client(k, i) => {
                let c = &mut srv[k].clients[i];
                match choose(4) {
                    0 if !c.stalled => { c.stalled = true; fault("client stalls"); note!("client {} of server {} stalls", i, k); }
                    1 if c.stalled && (!busy || choose(30) == 29) => { c.stalled = false; note!("client {} of server {} resumes", i, k); }
                    2 if choose(3) == 0 => { c.broken = true; fault("client disconnects"); note!("client {} of server {} disconnects", i, k); simcore::breaks(c.out); simcore::close(c.inp); }
                    3 => { fault("client sends a frame"); simcore::write(c.inp, "hello".into()); simcore::arrive(c.inp); }
                    _ => {}
                }
            }
            Act::Foreign(k) => {
                srv[k].garbage += 1;
                let g = GARBAGE[choose(5)];
                fault("foreign messages in the output channel");
                note!("somebody publishes {:?} in the channel of server {}", g, k);
                let _ = redissim::exec("publish", &[srv[k].channel.clone(), g.to_string()]);
            }
            Act::Http(k) => {
                let (p, want) = [("health-check", 200), ("nothing", 404)][choose(2)];
                match http(srv[k].port, p, false) {
                    Some(r) if r.status == want && (want != 200 || r.body == "Server OK") => {}
                    r => violation!("wrong answer", "/{} answers {:?}", p, r.map(|r| (r.status, r.body))),
                }
            }
        }
        let now = CLOCK_MS.load(Ordering::SeqCst);
        for s in srv.iter_mut() {
            let handled = redissim::with(|r| r.log.iter().filter(|e| matches!(e, Event::Add { key, by_module: false, .. } | Event::AddFailed { key, by_module: false, .. } if *key == s.input)).count());
            for f in s.frames.iter_mut().filter(|f| f.expect.is_some()).skip(handled) { f.clock.0 = f.clock.0.min(now); f.clock.1 = f.clock.1.max(now); }
        }
    }
    o.steps = total;
    let events = redissim::with(|s| s.log.clone());
    for (k, s) in srv.iter().enumerate() {
        if s.dead.get() { violation!("server ended", "server {} ended: {:?}", k, panics()) }
        if !simcore::with(|w| w.slots.contains_key(&format!("feed {}", s.url))) { violation!("no progress", "server {} does not connect to its feed: {:?}", k, panics()) }
        // every usable message of the feed reaches Redis once, in order
        let adds: Vec<(u64, f64)> = events.iter().filter_map(|e| match e { Event::Add { key, t, v, by_module: false, .. } | Event::AddFailed { key, t, v, by_module: false, .. } if *key == s.input => Some((*t, *v)), _ => None }).collect();
        let want: Vec<&Frame> = s.frames.iter().filter(|f| f.expect.is_some()).collect();
        for (i, f) in want.iter().enumerate() {
            let (et, ev) = f.expect.unwrap();
            match adds.get(i) {
                None => violation!("feed message lost", "of {} usable messages {} reach Redis; the first that does not: {} (tasks that panicked: {:?})", want.len(), adds.len(), f.text, panics()),
                Some((at, av)) => {
                    let tok = match et { Some(x) => x == *at, None => f.clock.0 as u64 <= *at && *at <= f.clock.1 as u64 };
                    if !tok || ev != *av { violation!("feed message changed", "{} is added as {} {} (clock {:?})", f.text, at, av, f.clock) }
                }
            }
        }
        if let Some(e) = events.iter().find(|e| matches!(e, Event::AddFailed { key, by_module: false, memory: false, .. } if *key == s.input)) { violation!("feed message refused", "Redis refuses a usable sample: {:?}", e) }
        if adds.len() > want.len() { violation!("feed message invented", "{:?} is added without a usable message", adds[want.len()]) }
        // the module answers every sample with what the program says
        let id = format!("reference {}", k);
        let e = engine::create(&id, &s.program.to_string());
        if !e.is_empty() { violation!("harness", "the program is refused: {}", e) }
        let expect: Vec<String> = events.iter().filter_map(|e| match e { Event::Add { key, last, by_module: false, .. } if *key == s.input => engine::receive(&id, last.0, last.1).map(|(t, v)| format!("{},{}", t, v)), _ => None }).collect();
        let got: Vec<String> = events.iter().filter_map(|e| match e { Event::Publish { channel: c, payload, by_module: true, .. } if *c == s.channel => Some(payload.clone()), _ => None }).collect();
        if got != expect { violation!("wrong outputs", "published {:?}, the program emits {:?}", got, expect) }
        // every client gets the outputs from the moment it connected, in order, each once
        let all: Vec<Value> = expect.iter().map(|p| { let mut x = p.split(','); json!({"timestamp": x.next().unwrap().parse::<u64>().unwrap(), "values": x.collect::<Vec<_>>()}) }).collect();
        for (i, c) in s.clients.iter().enumerate() {
            let got: Vec<Value> = c.got.iter().map(|s| serde_json::from_str(s).unwrap_or(json!(s))).collect();
            let (n, hi) = (got.len(), c.high.unwrap_or(all.len()).min(all.len()));
            let ok = if c.broken { n == 0 || (c.low.min(hi)..=hi).any(|k| k + n <= all.len() && all[k..k + n] == got[..]) } else { n <= all.len() && { let k = all.len() - n; c.low <= k && k <= hi && all[k..] == got[..] } };
            if !ok {
                violation!("client misses outputs", "client {} of server {}{} connected when output {} to {} was next; {} outputs in all: {:?}; it received {:?} (tasks that panicked: {:?})", i, k, if c.broken { ", which disconnected later," } else { "" }, c.low, hi, all.len(), expect, c.got, panics())
            }
            o.nontrivial |= n > 1;
            for x in &c.got { for b in x.bytes() { o.state = (o.state ^ b as u64).wrapping_mul(0x100000001b3); } }
        }
        for (n, c) in [("samples added by the server", adds.len()), ("outputs published", expect.len()), ("frames received by clients", s.clients.iter().map(|c| c.got.len()).sum())] { *o.components.entry(n.into()).or_default() += c as u64; }
    }
    o.components.insert("pipelines created in the engine".into(), book.borrow().creates);
    o.log = log;
    simcore::shutdown();
    o
}
