//! The interface a module sees of the simulated Redis server.
use redissim::Reply;
use std::rc::Rc;
#[derive(Debug)]
pub enum RedisError { WrongArity, Str(&'static str), String(String), WrongType }
impl<T: std::error::Error> From<T> for RedisError { fn from(e: T) -> RedisError { RedisError::String(format!("ERR {}", e)) } }
impl RedisError { pub fn text(&self) -> String { match self { RedisError::WrongArity => "wrong arity".into(), RedisError::Str(s) => s.to_string(), RedisError::String(s) => s.clone(), RedisError::WrongType => "wrong type".into() } } }
#[derive(Debug, Clone, PartialEq)]
pub enum RedisValue { SimpleStringStatic(&'static str), SimpleString(String), BulkString(String), Integer(i64), Float(f64), Array(Vec<RedisValue>), Null, NoReply }
pub type RedisResult = Result<RedisValue, RedisError>;
impl From<()> for RedisValue { fn from(_: ()) -> RedisValue { RedisValue::Null } }
impl From<String> for RedisValue { fn from(s: String) -> RedisValue { RedisValue::BulkString(s) } }
impl From<&str> for RedisValue { fn from(s: &str) -> RedisValue { RedisValue::BulkString(s.to_string()) } }
impl From<f64> for RedisValue { fn from(s: f64) -> RedisValue { RedisValue::Float(s) } }
impl From<usize> for RedisValue { fn from(s: usize) -> RedisValue { RedisValue::Integer(s as i64) } }
impl<T: Into<RedisValue>> From<Vec<T>> for RedisValue { fn from(v: Vec<T>) -> RedisValue { RedisValue::Array(v.into_iter().map(|x| x.into()).collect()) } }
impl<T: Into<RedisValue>> From<Option<T>> for RedisValue { fn from(v: Option<T>) -> RedisValue { v.map_or(RedisValue::Null, |x| x.into()) } }
impl From<i64> for RedisValue { fn from(s: i64) -> RedisValue { RedisValue::Integer(s) } }
pub struct RawContext;
pub struct RedisString(String);
impl RedisString {
    pub fn create(_: *mut RawContext, s: &str) -> RedisString { RedisString(s.to_string()) }
    pub fn new(s: &str) -> RedisString { RedisString(s.to_string()) }
    pub fn try_as_str(&self) -> Result<&str, RedisError> { Ok(&self.0) }
}
impl std::fmt::Display for RedisString { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::fmt::Display for RedisError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.text()) } }
impl RedisError { pub fn nonexistent_key() -> RedisError { RedisError::Str("ERR could not perform this operation on a key that doesn't exist") } pub fn short_read() -> RedisError { RedisError::Str("ERR short read or OOM loading DB") } }
impl From<RedisString> for String { fn from(s: RedisString) -> String { s.0 } }
impl Clone for RedisString { fn clone(&self) -> RedisString { RedisString(self.0.clone()) } }
impl PartialEq for RedisString { fn eq(&self, o: &RedisString) -> bool { self.0 == o.0 } }
impl std::fmt::Debug for RedisString { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self.0) } }
impl RedisString {
    pub fn as_slice(&self) -> &[u8] { self.0.as_bytes() }
    pub fn to_string_lossy(&self) -> String { self.0.clone() }
    pub fn into_string_lossy(self) -> String { self.0 }
    pub fn parse_integer(&self) -> Result<i64, RedisError> { self.0.parse().map_err(|_| RedisError::Str("Couldn't parse as integer")) }
    pub fn parse_float(&self) -> Result<f64, RedisError> { self.0.parse().map_err(|_| RedisError::Str("Couldn't parse as float")) }
}
/// Taking arguments one by one.
pub trait NextArg {
    fn next_arg(&mut self) -> Result<RedisString, RedisError>;
    fn next_string(&mut self) -> Result<String, RedisError> { self.next_arg().map(|s| s.0) }
    fn next_i64(&mut self) -> Result<i64, RedisError> { self.next_arg()?.parse_integer() }
    fn next_f64(&mut self) -> Result<f64, RedisError> { self.next_arg()?.parse_float() }
    fn done(&mut self) -> Result<(), RedisError>;
}
impl<T: Iterator<Item = RedisString>> NextArg for T {
    fn next_arg(&mut self) -> Result<RedisString, RedisError> { self.next().ok_or(RedisError::WrongArity) }
    fn done(&mut self) -> Result<(), RedisError> { if self.next().is_some() { Err(RedisError::WrongArity) } else { Ok(()) } }
}
#[derive(Clone, Copy, Debug)]
pub struct NotifyEvent;
pub enum LogLevel { Debug, Notice, Verbose, Warning }
pub const REDIS_OK: RedisResult = Ok(RedisValue::SimpleStringStatic("OK"));
pub struct Context { pub ctx: *mut RawContext }
fn value(r: Reply) -> RedisValue {
    match r { Reply::Null => RedisValue::Null, Reply::Int(i) => RedisValue::Integer(i), Reply::Str(s) => RedisValue::SimpleString(s), Reply::Arr(a) => RedisValue::Array(a.into_iter().map(value).collect()) }
}
fn reply(v: RedisValue) -> Reply {
    match v { RedisValue::SimpleStringStatic(s) => Reply::Str(s.into()), RedisValue::SimpleString(s) | RedisValue::BulkString(s) => Reply::Str(s), RedisValue::Integer(i) => Reply::Int(i),
        RedisValue::Float(f) => Reply::Str(f.to_string()), RedisValue::Array(a) => Reply::Arr(a.into_iter().map(reply).collect()), RedisValue::Null | RedisValue::NoReply => Reply::Null }
}
impl Context {
    pub fn call(&self, cmd: &str, args: &[&str]) -> RedisResult {
        redissim::exec(cmd, &args.iter().map(|s| s.to_string()).collect::<Vec<_>>()).map(value).map_err(RedisError::String)
    }
    pub fn auto_memory(&self) {}
    pub fn log(&self, _: LogLevel, _: &str) {}
    pub fn log_verbose(&self, _: &str) {}
    pub fn log_warning(&self, _: &str) {}
    pub fn log_notice(&self, _: &str) {}
    pub fn log_debug(&self, _: &str) {}
}
pub fn register(name: &str, f: fn(&Context, Vec<RedisString>) -> RedisResult) {
    redissim::with(|s| s.commands.insert(name.to_string(), Rc::new(move |args| f(&Context { ctx: std::ptr::null_mut() }, args.into_iter().map(RedisString).collect()).map(reply).map_err(|e| e.text()))));
}
pub fn listen(f: fn(&Context, NotifyEvent, &str, &str) -> RedisResult) {
    redissim::with(|s| s.handlers.push(Rc::new(move |e, k| { let _ = f(&Context { ctx: std::ptr::null_mut() }, NotifyEvent, e, k); })));
}
#[macro_export]
macro_rules! redis_module {
    (name: $n:expr, version: $v:expr, data_types: [$($t:expr),*], commands: [$([$c:expr, $f:path, $($rest:expr),*]),* $(,)?] $(, event_handlers: [$([@$e:ident: $h:path]),* $(,)?])? $(,)?) => {
        /// Loads the module into the simulated server.
        pub fn simulator_load_module() { $($crate::register($c, $f);)* $($($crate::listen($h);)*)? }
    };
}
