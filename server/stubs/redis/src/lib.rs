//! Redis client: commands travel to the simulated server and replies travel back when the simulator lets them.
use futures_util::stream::Stream;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
#[derive(Debug, Clone)]
pub struct RedisError(pub String);
impl std::fmt::Display for RedisError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for RedisError {}
pub type RedisResult<T> = Result<T, RedisError>;
pub struct Client;
/// Commands under way on a connection: the simulator executes the first of `up`, then the reply travels in `down`.
pub mod aio {
    pub use super::AsConnection as ConnectionLike;
    #[derive(Clone)]
    pub struct Connection { pub up: usize, pub down: usize }
    pub type MultiplexedConnection = Connection;
    pub struct PubSub { pub up: usize, pub down: usize, pub msgs: usize }
}
pub struct Connections(pub Vec<(usize, usize, usize)>); // up, down, pubsub
async fn read(p: usize) -> Option<String> { std::future::poll_fn(move |cx| simcore::poll_read(p, cx)).await }
impl Client {
    pub fn open(url: &str) -> RedisResult<Client> { if url.starts_with("redis") { Ok(Client) } else { Err(RedisError("bad url".into())) } }
    pub async fn get_async_connection(&self) -> RedisResult<aio::Connection> {
        let (up, down, msgs) = (simcore::pipe(1 << 30), simcore::pipe(1 << 30), simcore::pipe(1 << 30));
        simcore::with(|w| w.slots.entry("redis".into()).or_insert_with(|| Box::new(Connections(vec![]))).downcast_mut::<Connections>().unwrap().0.push((up, down, msgs)));
        simcore::write(up, "PING".into());
        read(down).await;
        Ok(aio::Connection { up, down })
    }
    pub async fn get_multiplexed_async_connection(&self) -> RedisResult<aio::Connection> { self.get_async_connection().await }
    pub async fn get_multiplexed_tokio_connection(&self) -> RedisResult<aio::Connection> { self.get_async_connection().await }
    pub async fn get_async_pubsub(&self) -> RedisResult<aio::PubSub> { Ok(self.get_async_connection().await?.into_pubsub()) }
}
pub struct Msg(String);
pub trait FromRedisValue: Sized { fn from(s: &str) -> RedisResult<Self>; }
impl FromRedisValue for String { fn from(s: &str) -> RedisResult<String> { Ok(s.to_string()) } }
macro_rules! number { ($($t:ty),*) => { $(impl FromRedisValue for $t { fn from(s: &str) -> RedisResult<$t> { s.parse().map_err(|_| RedisError("not a number".into())) } })* } }
number!(u64, i64, u32, i32, f64, usize);
impl<T: FromRedisValue> FromRedisValue for Option<T> { fn from(s: &str) -> RedisResult<Option<T>> { T::from(s).map(Some) } }
impl FromRedisValue for Vec<u8> { fn from(s: &str) -> RedisResult<Vec<u8>> { Ok(s.as_bytes().to_vec()) } }
pub enum Value { Nil, Okay, Status(String) }
impl FromRedisValue for Value { fn from(s: &str) -> RedisResult<Value> { Ok(if s == "OK" { Value::Okay } else { Value::Status(s.to_string()) }) } }
impl FromRedisValue for () { fn from(_: &str) -> RedisResult<()> { Ok(()) } }
impl Msg { pub fn get_channel_name(&self) -> &str { "" } pub fn get_payload<T: FromRedisValue>(&self) -> RedisResult<T> { T::from(&self.0) } }
async fn call(up: usize, down: usize, words: Vec<String>) -> RedisResult<String> {
    simcore::write(up, words.join("\x1f"));
    let r = read(down).await.ok_or(RedisError("connection lost".into()))?;
    if let Some(e) = r.strip_prefix('-') { Err(RedisError(e.to_string())) } else { Ok(r) }
}
impl aio::Connection { pub fn into_pubsub(self) -> aio::PubSub { aio::PubSub { up: self.up, down: self.down, msgs: self.up + 2 } } }
impl aio::PubSub {
    pub async fn subscribe(&mut self, channel: &str) -> RedisResult<()> { call(self.up, self.down, vec!["SUBSCRIBE".into(), channel.into(), self.msgs.to_string()]).await.map(|_| ()) }
    pub fn on_message(&mut self) -> Messages<'_> { Messages(self.msgs, std::marker::PhantomData) }
    pub fn into_on_message(self) -> Messages<'static> { Messages(self.msgs, std::marker::PhantomData) }
}
pub struct Messages<'a>(usize, std::marker::PhantomData<&'a ()>);
impl<'a> Stream for Messages<'a> {
    type Item = Msg;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Msg>> { simcore::poll_read(self.0, cx).map(|x| x.map(Msg)) }
}
pub trait ToRedisArgs { fn words(&self, out: &mut Vec<String>); }
impl<T: ToRedisArgs + ?Sized> ToRedisArgs for &T { fn words(&self, out: &mut Vec<String>) { (**self).words(out) } }
impl<T: ToRedisArgs> ToRedisArgs for [T] { fn words(&self, out: &mut Vec<String>) { for x in self { x.words(out) } } }
impl<T: ToRedisArgs> ToRedisArgs for Vec<T> { fn words(&self, out: &mut Vec<String>) { for x in self { x.words(out) } } }
impl<T: ToRedisArgs, const N: usize> ToRedisArgs for [T; N] { fn words(&self, out: &mut Vec<String>) { for x in self { x.words(out) } } }
impl<T: ToRedisArgs> ToRedisArgs for Option<T> { fn words(&self, out: &mut Vec<String>) { if let Some(x) = self { x.words(out) } } }
macro_rules! args { ($($t:ty),*) => { $(impl ToRedisArgs for $t { fn words(&self, out: &mut Vec<String>) { out.push(self.to_string()) } })* } }
args!(str, String, u64, i64, u32, i32, f64, usize);
#[derive(Clone)]
pub struct Cmd(Vec<String>);
pub fn cmd(name: &str) -> Cmd { Cmd(vec![name.to_string()]) }
impl Cmd {
    pub fn new() -> Cmd { Cmd(vec![]) }
    pub fn arg<T: ToRedisArgs>(&mut self, a: T) -> &mut Cmd { a.words(&mut self.0); self }
    pub fn query_async<'a, C, T: FromRedisValue + 'a>(&self, con: &'a mut C) -> Pin<Box<dyn Future<Output = RedisResult<T>> + Send + 'a>> where C: AsConnection + ?Sized {
        let (up, down) = con.pipes();
        let words = self.0.clone();
        Box::pin(async move { T::from(&call(up, down, words).await?) })
    }
}
pub trait AsConnection { fn pipes(&self) -> (usize, usize); }
impl AsConnection for aio::Connection { fn pipes(&self) -> (usize, usize) { (self.up, self.down) } }
