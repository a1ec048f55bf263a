//! The Redis module in a simulated Redis server: commands in any order, refused writes, keys that vanish, programs that do
//! not work, identifiers drawn twice; and the registry it is built on, called directly. A model says what every command
//! must leave behind; the reference for a pipeline is a program of the engine fed with the same samples.
use crate::driver::Outcome;
use crate::{engine, gen};
use redissim::{Event, Reply};
use rtbot_rs::pipelines_registry::{PipelinesRegistry, PIPELINES_REGISTRY};
use serde_json::{json, Value};
use simcore::{choose, fault, mark};
use std::collections::BTreeMap;

struct Model { pipes: BTreeMap<(String, String), String>, refs: u64 }
impl Model {
    fn start(&mut self, program: &str) -> Result<String, String> {
        self.refs += 1;
        let id = format!("ref-{}", self.refs);
        let e = engine::create(&id, program);
        if e.is_empty() { Ok(id) } else { Err(e) }
    }
    /// Outputs of the pipelines that start at a key.
    fn feed(&self, key: &str, t: u64, v: f64) -> Vec<(String, (u64, f64))> {
        self.pipes.iter().filter(|((i, _), _)| i == key).filter_map(|((_, o), id)| engine::receive(id, t, v).map(|m| (o.clone(), m))).collect()
    }
}
#[derive(Debug, Clone, PartialEq)]
enum Want { Add(String, u64, f64), Publish(String, String) }
/// What the module does when it hears of a sample.
fn reaction(m: &Model, key: &str, last: (u64, f64)) -> Vec<Want> {
    m.feed(key, last.0, last.1).into_iter().flat_map(|(o, (t, v))| [Want::Add(o.clone(), t, v), Want::Publish(format!("{}:ps", o), format!("{},{}", t, v))]).collect()
}

fn bad_program(good: &Value) -> String {
    match choose(8) {
        0 => "{".into(),
        1 => { let mut p = good.clone(); p.as_object_mut().unwrap().remove("title"); p.to_string() }
        2 => { let mut p = good.clone(); p.as_object_mut().unwrap().remove("entryNode"); p.to_string() }
        3 => { let mut p = good.clone(); p["operators"][0]["type"] = json!("NoSuchOperator"); p.to_string() }
        4 => { let mut p = good.clone(); p["entryOperator"] = json!("nobody"); p.to_string() }
        5 => { let mut p = good.clone(); p["connections"][0]["to"] = json!("nobody"); p.to_string() }
        6 => { let mut p = good.clone(); p["connections"] = json!(3); p.to_string() }
        _ => "[1]".into(),
    }
}

pub fn run() -> Outcome {
    let mut o = Outcome::default();
    let book = engine::install();
    redis_rtbot::simulator_load_module();
    let mut log: Vec<String> = vec![];
    let mut m = Model { pipes: BTreeMap::new(), refs: 0 };
    macro_rules! note { ($($a:tt)*) => {{ let s = format!($($a)*); mark(&s); if log.len() < 400 { log.push(s); } }} }
    macro_rules! violation { ($k:expr, $($a:tt)*) => {{ o.kind = $k.into(); o.detail = format!($($a)*); o.log = log; return o; }} }
    let inputs = ["i0", "i1", "o0"]; // a pipeline may start where another one ends
    let outs = ["o0", "o1", "o2"];
    let programs: Vec<(String, bool)> = (0..1 + choose(3)).map(|_| gen::program()).map(|p| (p.to_string(), true)).collect();
    let mut stored: BTreeMap<String, String> = BTreeMap::new();
    let oom = [0.0, 0.0, 0.05, 0.2][choose(4)];
    let direct = choose(3) == 2; // the registry is also called directly
    let repeat = [0.0, 0.0, 0.3][choose(3)];
    simcore::with(|w| w.id_repeat = repeat);
    let mut clock: BTreeMap<String, i64> = BTreeMap::new();
    let mut own: Option<PipelinesRegistry> = None;
    let mut own_pipes: BTreeMap<(String, String), String> = BTreeMap::new();
    let n = choose(80);
    if choose(4) != 0 {
        for i in 0..3 { let p = programs[choose(programs.len())].0.clone(); let c = ["JSON.SET".to_string(), format!("p{}", i), "$".into(), p.clone()]; stored.insert(c[1].clone(), p); note!("{} := {}", c[1], c[3]); let _ = redissim::exec(&c[0], &c[1..]); }
        for k in ["i0", "i1"] { note!("TS.CREATE {}", k); let _ = redissim::exec("TS.CREATE", &[k.to_string(), "DUPLICATE_POLICY".into(), "LAST".into()]); }
    }
    for _ in 0..n {
        o.steps += 1;
        redissim::with(|s| s.fail_writes = 0.0);
        let start = redissim::with(|s| s.log.len());
        let mut cmd: Vec<String> = vec![];
        let w = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<String>>();
        match choose(if direct { 15 } else { 12 }) {
            0..=5 => {
                let k = inputs[choose(3)];
                let t = clock.entry(k.into()).or_insert(choose(20) as i64);
                *t += match choose(10) { 8 => 0, 9 => { fault("samples out of order"); -(choose(4) as i64) } x => 1 + (x % 3) as i64 };
                *t = (*t).max(0);
                cmd = vec!["TS.ADD".into(), k.into(), t.to_string(), gen::number().to_string()];
            }
            6 => { cmd = w(&["TS.CREATE", inputs[choose(3)], "DUPLICATE_POLICY", "LAST"]); }
            7 => {
                let k = format!("p{}", choose(3));
                let p = if choose(4) == 3 { fault("programs that do not work"); bad_program(&serde_json::from_str(&programs[choose(programs.len())].0).unwrap()) } else { programs[choose(programs.len())].0.clone() };
                stored.insert(k.clone(), p.clone());
                cmd = vec!["JSON.SET".into(), k, "$".into(), p];
                let _ = redissim::exec(&cmd[0], &cmd[1..]);
                note!("{} := {}", cmd[1], cmd[3]);
                continue;
            }
            8 | 9 => {
                let (i, u) = (inputs[choose(3)], outs[choose(3)]);
                cmd = vec![if choose(2) == 0 { "RTBOT.RUN" } else { "RTBOT.XRUN" }.into(), format!("p{}", choose(3)), i.into(), u.into()];
                if cmd[0] == "RTBOT.RUN" { match choose(5) { 0 => cmd.push("true".into()), 1 => cmd.push("false".into()), 2 if choose(3) == 0 => cmd.push("maybe".into()), _ => {} } }
                if choose(12) == 11 { fault("commands with arguments missing"); cmd.truncate(1 + choose(3)); }
                if i == u { continue; }
            }
            10 => { cmd = w(&["RTBOT.RUN", "p0", inputs[choose(2)], outs[1 + choose(2)], "true"]); }
            11 => { cmd = w(&["DEL", ["i0", "i1", "o0", "o1", "o2"][choose(5)]]); fault("keys deleted"); }
            _ => {
                // a registry of its own: an identifier may be any string there
                let r = own.get_or_insert_with(PipelinesRegistry::new);
                let (i, u) = (inputs[choose(3)].to_string(), outs[choose(3)].to_string());
                o.ops += 1;
                match choose(5) {
                    0 | 1 => {
                        let bad = choose(4) == 3;
                        let p = if bad { bad_program(&serde_json::from_str(&programs[0].0).unwrap()) } else { programs[choose(programs.len())].0.clone() };
                        let before = book.borrow().live.clone();
                        let got = r.create(&p, &i, &u);
                        note!("registry.create({}, {}) -> {:?}", i, u, got.as_ref().map_err(|e| e.to_string()));
                        let taken = own_pipes.contains_key(&(i.clone(), u.clone()));
                        let works = m.start(&p);
                        let clash = got.is_err() && !taken && works.is_ok();
                        if clash && repeat == 0.0 { violation!("pipeline refused", "a registry refuses a pipeline from {} to {}: {:?}", i, u, got) }
                        if got.is_ok() && (taken || works.is_err()) { violation!("pipeline accepted", "a registry accepts {} from {} to {}, {}", p, i, u, if taken { "where one exists" } else { "which is no program" }) }
                        if got.is_err() && book.borrow().live != before { violation!("pipeline leaks", "a refused pipeline leaves a program in the engine") }
                        if let (Ok(_), Ok(id)) = (&got, works) { own_pipes.insert((i, u), id); }
                    }
                    2 => {
                        let got = r.delete(&i, &u);
                        note!("registry.delete({}, {}) -> {:?}", i, u, got.as_ref().map_err(|e| e.to_string()));
                        if own_pipes.remove(&(i.clone(), u.clone())).is_some() != got.is_ok() { violation!("wrong deletion", "deleting the pipeline from {} to {}: {:?}", i, u, got) }
                    }
                    3 => {
                        note!("registry.delete_by_input_key({})", i);
                        let got = r.delete_by_input_key(&i);
                        let gone: Vec<_> = own_pipes.keys().filter(|k| k.0 == i).cloned().collect();
                        for k in &gone { own_pipes.remove(k); }
                        let text = format!("Deleted {} pipeline(s) associated with the input key {}", gone.len(), i);
                        if got.as_ref().map_or(true, |g| *g != text) { violation!("wrong deletion", "deleting the {} pipelines from {}: {:?}", gone.len(), i, got) }
                    }
                    _ => {
                        let t = clock.entry(format!("registry {}", i)).or_insert(0);
                        *t += choose(4) as i64;
                        let (t, v) = (*t as u64, gen::number());
                        let got = r.receive(&i, t, vec![v]);
                        note!("registry.receive({}, {}, {}) -> {:?}", i, t, v, got.as_ref().map_err(|e| e.to_string()));
                        let want: BTreeMap<String, Vec<(u64, f64)>> = own_pipes.iter().filter(|(k, _)| k.0 == i).map(|(k, id)| (k.1.clone(), engine::receive(id, t, v).into_iter().collect())).collect();
                        let got: BTreeMap<String, Vec<(u64, f64)>> = match got { Ok(g) => g.into_iter().map(|(k, x)| (k, x.into_iter().map(|m| (m.timestamp, m.values[0])).collect())).collect(), Err(e) => violation!("registry fails", "{}", e) };
                        if got != want { violation!("wrong outputs", "a registry answers {:?}, the programs {:?}", got, want) }
                    }
                }
                let held = book.borrow().live.len();
                if held != m.pipes.len() + own_pipes.len() { violation!("pipeline leaks", "the engine holds {} programs for {} pipelines", held, m.pipes.len() + own_pipes.len()) }
                continue;
            }
        }
        if matches!(cmd[0].as_str(), "RTBOT.RUN" | "RTBOT.XRUN" | "TS.ADD") { redissim::with(|s| s.fail_writes = oom); }
        let before: BTreeMap<String, Vec<(u64, f64)>> = redissim::with(|s| s.series.iter().map(|(k, x)| (k.clone(), x.samples.iter().map(|(t, v)| (*t, *v)).collect())).collect());
        let fails_before = redissim::with(|s| s.failed);
        let live_before = book.borrow().live.clone();
        o.ops += 1;
        note!("{}", cmd.join(" "));
        let res = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| redissim::exec(&cmd[0], &cmd[1..]))) {
            Err(e) => violation!("redis aborted", "the module panics in {}: {}", cmd.join(" "), simcore::panic_text(&e)),
            Ok(r) => r,
        };
        if res.is_err() { o.failed += 1; }
        note!("  -> {:?}", res);
        let events: Vec<Event> = redissim::with(|s| s.log[start..].to_vec());
        let refused = redissim::with(|s| s.failed) > fails_before;
        // what the module wrote and published, in order, with what it may have been refused
        let mut seen: Vec<Want> = vec![];
        let mut want: Vec<Want> = vec![];
        let is_run = cmd[0].starts_with("RTBOT");
        let mut new_pipe: Option<String> = None;
        let mut must_fail: Option<String> = None;
        let mut history: Vec<(u64, f64)> = vec![];
        let mut hist_i = 0;
        let persist = cmd[0] == "RTBOT.XRUN" || cmd.get(4).map_or(false, |x| x == "true");
        if is_run {
            if cmd.len() < 4 { must_fail = Some("arguments missing".into()); }
            else if cmd.get(4).map_or(false, |x| x == "maybe") { must_fail = Some("no boolean".into()); }
            else {
                let p = stored.get(&cmd[1]).cloned();
                match p {
                    None => must_fail = Some("no program".into()),
                    Some(p) => {
                        let j: Option<Value> = serde_json::from_str(&p).ok();
                        if j.as_ref().map_or(true, |j| ["title", "entryNode", "operators", "connections"].iter().any(|k| j.get(k).is_none())) { must_fail = Some("the program is not valid".into()); }
                        else if m.pipes.contains_key(&(cmd[2].clone(), cmd[3].clone())) { must_fail = Some("there is such a pipeline already".into()); }
                        else {
                            match m.start(&p) {
                                Err(e) => must_fail = Some(e),
                                Ok(id) => { new_pipe = Some(id); if !before.contains_key(&cmd[2]) { must_fail = Some("no input".into()); } else { history = before[&cmd[2]].clone(); } }
                            }
                        }
                    }
                }
            }
        }
        let clash = is_run && must_fail.is_none() && res.is_err() && !refused && repeat > 0.0;
        let registered = m.pipes.clone();
        if is_run && must_fail.is_none() && !clash { if let Some(id) = &new_pipe { m.pipes.insert((cmd[2].clone(), cmd[3].clone()), id.clone()); } }
        // the samples the module is told about, in order: each is answered before the next one
        let mut pending: Vec<Want> = vec![];
        macro_rules! next_of_history { () => {
            while is_run && must_fail.is_none() && !clash && pending.is_empty() && hist_i < history.len() {
                let (t, v) = history[hist_i];
                hist_i += 1;
                if let Some((t, v)) = engine::receive(new_pipe.as_ref().unwrap(), t, v) { pending.push(Want::Add(cmd[3].clone(), t, v)); }
            }
        } }
        for e in &events {
            next_of_history!();
            let (w, key, last, by_handler) = match e {
                Event::Add { key, t, v, last, by_module, in_handler } => (if *by_module { Some(Want::Add(key.clone(), *t, *v)) } else { None }, Some(key), Some(*last), *in_handler),
                Event::AddFailed { key, t, v, by_module, .. } => (if *by_module { Some(Want::Add(key.clone(), *t, *v)) } else { None }, Some(key), None, false),
                Event::Publish { channel, payload, .. } => (Some(Want::Publish(channel.clone(), payload.clone())), None, None, true),
                _ => continue,
            };
            if let Some(x) = w {
                seen.push(x.clone());
                if pending.is_empty() || pending[0] != x { violation!("wrong outputs", "{}: the module does {:?}; expected {:?} (so far {:?})", cmd.join(" "), x, pending.first(), want) }
                want.push(pending.remove(0));
            }
            if let (Some(key), Some(last), false) = (key, last, by_handler) { let mut r = reaction(&m, key, last); r.extend(pending); pending = r; }
        }
        next_of_history!();
        if !pending.is_empty() && !(is_run && refused) { violation!("outputs missing", "{}: the module does not do {:?}; it did {:?}", cmd.join(" "), pending, seen) }
        if is_run {
            let fine = must_fail.is_none() && !refused && !clash;
            if fine && res.is_err() { violation!("command fails", "{}: {:?}", cmd.join(" "), res) }
            if let (Some(why), Ok(r)) = (&must_fail, &res) { violation!("command succeeds", "{} answers {:?}, though: {}", cmd.join(" "), r, why) }
            if res.is_err() || !persist { m.pipes = registered; } else {
                let id = match &res { Ok(Reply::Str(s)) => s.clone(), x => violation!("wrong answer", "{} answers {:?}", cmd.join(" "), x) };
                if !book.borrow().live.contains(&id) || live_before.contains(&id) { violation!("wrong answer", "{} answers {}, which is not the new pipeline", cmd.join(" "), id) }
            }
            if res.is_ok() && !persist && book.borrow().live != live_before { violation!("pipeline leaks", "{} leaves a pipeline", cmd.join(" ")) }
            if must_fail.is_some() {
                let after: BTreeMap<String, Vec<(u64, f64)>> = redissim::with(|s| s.series.iter().map(|(k, x)| (k.clone(), x.samples.iter().map(|(t, v)| (*t, *v)).collect())).collect());
                if after != before { violation!("failed command leaves traces", "{} fails and changes the series from {:?} to {:?}", cmd.join(" "), before, after) }
            }
        } else if cmd[0] == "TS.ADD" && res.is_err() && !refused && redissim::with(|s| s.series.get(&cmd[1]).map_or(true, |x| x.last_wins)) { violation!("command fails", "{}: {:?}", cmd.join(" "), res) }
        let held = book.borrow().live.len();
        if held != m.pipes.len() + own_pipes.len() { violation!("pipeline leaks", "after {} the engine holds {} programs for {} pipelines", cmd.join(" "), held, m.pipes.len() + own_pipes.len()) }
        if is_run && res.is_ok() && !history.is_empty() { o.nontrivial = true; }
    }
    // what is registered is what the model says
    if let Ok(b) = PIPELINES_REGISTRY.read() { if let Some(r) = b.as_ref() {
        for i in inputs { for u in outs {
            let there = r.delete(i, u).is_ok();
            if there != m.pipes.contains_key(&(i.to_string(), u.to_string())) { violation!("wrong registry", "at the end a pipeline from {} to {} {}", i, u, if there { "exists" } else { "does not exist" }) }
        } }
    } }
    for (n, c) in [("pipelines created in the engine", book.borrow().creates), ("programs the engine refused", book.borrow().refused), ("samples fed to pipelines", book.borrow().fed)] { o.components.insert(n.into(), c); }
    for (k, x) in redissim::with(|s| s.series.iter().map(|(k, x)| (k.clone(), format!("{:?}", x.samples))).collect::<Vec<_>>()) { for b in k.bytes().chain(x.bytes()) { o.state = (o.state ^ b as u64).wrapping_mul(0x100000001b3); } }
    o.log = log;
    o
}
