//! A Redis server with the time series and JSON modules, as far as rtbot uses them, plus modules loaded into it.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Reply { Null, Int(i64), Str(String), Arr(Vec<Reply>) }
pub type Res = Result<Reply, String>;
#[derive(Clone, Default)]
pub struct Series { pub last_wins: bool, pub samples: BTreeMap<u64, f64> }
pub type Command = Rc<dyn Fn(Vec<String>) -> Res>;
pub type Handler = Rc<dyn Fn(&str, &str)>;
#[derive(Default)]
pub struct Server {
    pub series: BTreeMap<String, Series>,
    pub json: BTreeMap<String, String>,
    pub subs: BTreeMap<String, BTreeSet<usize>>, // channel -> pipes of the subscribers
    pub commands: BTreeMap<String, Command>,
    pub handlers: Vec<Handler>,
    pub notifying: bool,
    pub depth: usize,
    pub log: Vec<Event>,
    pub fail_writes: f64,
    pub failed: u64,
}
#[derive(Debug, Clone)]
pub enum Event {
    Add { key: String, t: u64, v: f64, last: (u64, f64), by_module: bool, in_handler: bool },
    Publish { channel: String, payload: String, receivers: usize, by_module: bool },
    Run { cmd: String, args: Vec<String>, ok: bool },
    Begin { cmd: String, args: Vec<String>, history: Vec<(u64, f64)> },
    AddFailed { key: String, t: u64, v: f64, by_module: bool, memory: bool },
}
thread_local! { static S: RefCell<Server> = RefCell::new(Server::default()); }
pub fn with<R>(f: impl FnOnce(&mut Server) -> R) -> R { S.with(|s| f(&mut s.borrow_mut())) }

fn out_of_memory(key: &str, module: bool) -> bool {
    let p = with(|s| s.fail_writes);
    if p > 0.0 && simcore::chance(p) { simcore::fault(if module { "writes of the module refused by Redis" } else { "writes refused by Redis" }); with(|s| s.failed += 1); let _ = key; true } else { false }
}
pub fn exec(cmd: &str, args: &[String]) -> Res {
    let name = cmd.to_lowercase();
    let a = |i: usize| args.get(i).cloned().ok_or_else(|| format!("wrong number of arguments for '{}' command", cmd));
    let module = with(|s| s.depth > 0 || s.notifying);
    let handler = with(|s| s.notifying);
    simcore::mark(&format!("redis {} {:?}", name, args));
    match name.as_str() {
        "json.set" => { let (k, v) = (a(0)?, a(2)?); if out_of_memory(&k, module) { return Err("OOM command not allowed".into()); } with(|s| s.json.insert(k, v)); Ok(Reply::Str("OK".into())) }
        "json.get" => Ok(with(|s| s.json.get(&args[0]).cloned()).map_or(Reply::Null, Reply::Str)),
        "del" => { let k = a(0)?; Ok(Reply::Int(with(|s| s.series.remove(&k).is_some() as i64 + s.json.remove(&k).is_some() as i64))) }
        "ts.create" => {
            let k = a(0)?;
            if out_of_memory(&k, module) { return Err("OOM command not allowed".into()); }
            let last = args.iter().any(|x| x == "LAST");
            with(|s| if s.series.contains_key(&k) { Err("TSDB: key already exists".to_string()) } else { s.series.insert(k, Series { last_wins: last, ..Default::default() }); Ok(Reply::Str("OK".into())) })
        }
        "ts.add" => {
            let k = a(0)?;
            let t: u64 = a(1)?.parse().map_err(|_| "TSDB: invalid timestamp".to_string())?;
            if t > i64::MAX as u64 { return Err("TSDB: invalid timestamp".into()); }
            let v: f64 = a(2)?.parse().map_err(|_| "TSDB: invalid value".to_string())?;
            if v.is_nan() { return Err("TSDB: invalid value".into()); }
            if out_of_memory(&k, module) { with(|s| s.log.push(Event::AddFailed { key: k, t, v, by_module: module, memory: true })); return Err("OOM command not allowed".into()); }
            let last = with(|s| {
                let x = s.series.entry(k.clone()).or_default();
                if x.samples.contains_key(&t) && !x.last_wins { return Err("TSDB: Error at upsert, update is not supported when DUPLICATE_POLICY is set to BLOCK mode".to_string()); }
                x.samples.insert(t, v);
                let l = x.samples.iter().next_back().unwrap();
                Ok((*l.0, *l.1))
            });
            let last = match last { Ok(l) => l, Err(e) => { with(|s| s.log.push(Event::AddFailed { key: k, t, v, by_module: module, memory: false })); return Err(e); } };
            with(|s| s.log.push(Event::Add { key: k.clone(), t, v, last, by_module: module, in_handler: handler }));
            notify("ts.add", &k);
            Ok(Reply::Int(t as i64))
        }
        "ts.get" => with(|s| match s.series.get(&args[0]) {
            None => Err("TSDB: the key does not exist".to_string()),
            Some(x) => Ok(Reply::Arr(x.samples.iter().next_back().map_or(vec![], |(t, v)| vec![Reply::Int(*t as i64), Reply::Str(v.to_string())]))),
        }),
        "ts.range" => with(|s| match s.series.get(&args[0]) {
            None => Err("TSDB: the key does not exist".to_string()),
            Some(x) => Ok(Reply::Arr(x.samples.iter().map(|(t, v)| Reply::Arr(vec![Reply::Int(*t as i64), Reply::Str(v.to_string())])).collect())),
        }),
        "publish" => {
            let (c, p) = (a(0)?, a(1)?);
            let subs: Vec<usize> = with(|s| s.subs.get(&c).map_or(vec![], |x| x.iter().copied().collect()));
            for x in &subs { simcore::write(*x, p.clone()); }
            with(|s| s.log.push(Event::Publish { channel: c, payload: p, receivers: subs.len(), by_module: module }));
            Ok(Reply::Int(subs.len() as i64))
        }
        _ => {
            let f = with(|s| s.commands.get(&name).cloned()).ok_or_else(|| format!("unknown command '{}'", cmd))?;
            let mut full = vec![cmd.to_string()];
            full.extend(args.iter().cloned());
            let history = args.get(1).map_or(vec![], |k| with(|s| s.series.get(k).map_or(vec![], |x| x.samples.iter().map(|(t, v)| (*t, *v)).collect())));
            with(|s| { s.log.push(Event::Begin { cmd: name.clone(), args: args.to_vec(), history }); s.depth += 1 });
            let r = f(full);
            with(|s| { s.depth -= 1; s.log.push(Event::Run { cmd: name.clone(), args: args.to_vec(), ok: r.is_ok() }) });
            r
        }
    }
}
/// A module is not told about what it does while it is being told about something.
fn notify(event: &str, key: &str) {
    if with(|s| std::mem::replace(&mut s.notifying, true)) { return; }
    let hs = with(|s| s.handlers.clone());
    for h in hs { h(event, key); }
    with(|s| s.notifying = false);
}
