//! As much of warp as the server uses. Connections come from the simulator, which calls the served filter.
use futures_util::{sink::Sink, stream::Stream};
use std::convert::Infallible;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct Error(pub &'static str);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(self.0) } }
impl std::error::Error for Error {}
pub struct Request { pub path: String, pub ws: bool, pub socket: usize }
pub struct Rejection { not_found: bool, cause: Option<Box<dyn std::any::Any + Send + Sync>> }
impl Debug for Rejection { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "Rejection({})", self.not_found) } }
impl Rejection {
    pub fn is_not_found(&self) -> bool { self.not_found }
    pub fn find<T: 'static>(&self) -> Option<&T> { self.cause.as_ref().and_then(|c| c.downcast_ref::<T>()) }
}
pub struct Response { pub status: u16, pub body: String, pub upgrade: Option<Box<dyn FnOnce(ws::WebSocket) -> Pin<Box<dyn Future<Output = ()>>>>> }
pub mod http {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct StatusCode(pub u16);
    impl StatusCode {
        pub fn as_u16(&self) -> u16 { self.0 }
        pub const SWITCHING_PROTOCOLS: StatusCode = StatusCode(101);
        pub const FORBIDDEN: StatusCode = StatusCode(403);
        pub const SERVICE_UNAVAILABLE: StatusCode = StatusCode(503);
        pub const OK: StatusCode = StatusCode(200);
        pub const NOT_FOUND: StatusCode = StatusCode(404);
        pub const BAD_REQUEST: StatusCode = StatusCode(400);
        pub const UNAUTHORIZED: StatusCode = StatusCode(401);
        pub const METHOD_NOT_ALLOWED: StatusCode = StatusCode(405);
        pub const INTERNAL_SERVER_ERROR: StatusCode = StatusCode(500);
    }
}
pub mod reject {
    pub use super::Rejection;
    #[derive(Debug)]
    pub struct MethodNotAllowed;
    pub trait Reject: std::fmt::Debug + Send + Sync + 'static {}
    pub fn custom<T: Reject>(t: T) -> Rejection { Rejection { not_found: false, cause: Some(Box::new(t)) } }
    pub fn not_found() -> Rejection { Rejection { not_found: true, cause: None } }
    pub fn reject() -> Rejection { not_found() }
}
pub mod reply {
    use super::*;
    pub trait Reply { fn into_response(self) -> Response; }
    impl Reply for String { fn into_response(self) -> Response { Response { status: 200, body: self, upgrade: None } } }
    impl Reply for &'static str { fn into_response(self) -> Response { self.to_string().into_response() } }
    impl<T: Reply> Reply for (T,) { fn into_response(self) -> Response { self.0.into_response() } }
    impl Reply for http::StatusCode { fn into_response(self) -> Response { Response { status: self.0, body: String::new(), upgrade: None } } }
    impl Reply for Infallible { fn into_response(self) -> Response { match self {} } }
    impl<T: Reply, E: Reply> Reply for Result<T, E> { fn into_response(self) -> Response { match self { Ok(x) => x.into_response(), Err(e) => e.into_response() } } }
    pub fn html<T: Into<String>>(t: T) -> String { t.into() }
    impl Reply for Response { fn into_response(self) -> Response { self } }
    pub struct Json(pub String);
    impl Reply for Json { fn into_response(self) -> Response { self.0.into_response() } }
    pub fn json<T: serde::Serialize>(t: &T) -> Json { Json(serde_json::to_string(t).unwrap()) }
    pub struct WithStatus<R>(R, http::StatusCode);
    impl<R: Reply> Reply for WithStatus<R> { fn into_response(self) -> Response { let mut r = self.0.into_response(); r.status = self.1 .0; r } }
    pub fn with_status<R: Reply>(r: R, s: http::StatusCode) -> WithStatus<R> { WithStatus(r, s) }
}
pub use reply::Reply;
pub use reject::reject;
pub trait Combine<B> { type Out; fn combine(self, b: B) -> Self::Out; }
impl Combine<()> for () { type Out = (); fn combine(self, _: ()) {} }
impl<A> Combine<()> for (A,) { type Out = (A,); fn combine(self, _: ()) -> (A,) { self } }
impl<A, B> Combine<()> for (A, B) { type Out = (A, B); fn combine(self, _: ()) -> (A, B) { self } }
impl<A> Combine<(A,)> for () { type Out = (A,); fn combine(self, b: (A,)) -> (A,) { b } }
impl<A, B> Combine<(B,)> for (A,) { type Out = (A, B); fn combine(self, b: (B,)) -> (A, B) { (self.0, b.0) } }
impl<A, B, C> Combine<(C,)> for (A, B) { type Out = (A, B, C); fn combine(self, b: (C,)) -> (A, B, C) { (self.0, self.1, b.0) } }
/// The error of two filters in a row: impossible only if both are.
pub trait CombineError<B> { type One; }
impl CombineError<Infallible> for Infallible { type One = Infallible; }
impl CombineError<Rejection> for Infallible { type One = Rejection; }
impl CombineError<Infallible> for Rejection { type One = Rejection; }
impl CombineError<Rejection> for Rejection { type One = Rejection; }
pub trait Func<A> { type Output; fn call(&self, a: A) -> Self::Output; }
impl<F: Fn() -> R, R> Func<()> for F { type Output = R; fn call(&self, _: ()) -> R { self() } }
impl<F: Fn(A) -> R, R, A> Func<(A,)> for F { type Output = R; fn call(&self, a: (A,)) -> R { self(a.0) } }
impl<F: Fn(A, B) -> R, R, A, B> Func<(A, B)> for F { type Output = R; fn call(&self, a: (A, B)) -> R { self(a.0, a.1) } }
impl<F: Fn(A, B, C) -> R, R, A, B, C> Func<(A, B, C)> for F { type Output = R; fn call(&self, a: (A, B, C)) -> R { self(a.0, a.1, a.2) } }
pub trait Filter {
    type Extract;
    type Error;
    fn apply(&self, r: &Request) -> Result<Self::Extract, Rejection>;
    fn and<B: Filter>(self, b: B) -> And<Self, B> where Self: Sized, Self::Extract: Combine<B::Extract>, Self::Error: CombineError<B::Error> { And(self, b) }
    fn map<F: Func<Self::Extract>>(self, f: F) -> Map<Self, F> where Self: Sized { Map(self, f) }
    fn and_then<F: Func<Self::Extract>>(self, f: F) -> AndThen<Self, F> where Self: Sized { AndThen(self, f) }
    fn then<F: Func<Self::Extract>>(self, f: F) -> Then<Self, F> where Self: Sized { Then(self, f) }
    fn or<B: Filter>(self, b: B) -> Or<Self, B> where Self: Sized { Or(self, b) }
    fn with<W>(self, _: W) -> Self where Self: Sized { self }
    fn recover<F>(self, f: F) -> Recover<Self, F> where Self: Sized { Recover(self, f) }
    fn boxed(self) -> filters::BoxedFilter<Self::Extract> where Self: Sized + 'static { filters::BoxedFilter(std::sync::Arc::new(move |r: &Request| self.apply(r))) }
}
fn not_found<T>() -> Result<T, Rejection> { Err(Rejection { not_found: true, cause: None }) }
fn now<F: Future>(f: F) -> Option<F::Output> {
    let mut f = Box::pin(f);
    match f.as_mut().poll(&mut Context::from_waker(std::task::Waker::noop())) { Poll::Ready(x) => Some(x), _ => None }
}
#[derive(Clone)]
pub struct And<A, B>(A, B);
impl<A: Filter, B: Filter> Filter for And<A, B> where A::Extract: Combine<B::Extract>, A::Error: CombineError<B::Error> {
    type Extract = <A::Extract as Combine<B::Extract>>::Out;
    type Error = <A::Error as CombineError<B::Error>>::One;
    fn apply(&self, r: &Request) -> Result<Self::Extract, Rejection> { Ok(self.0.apply(r)?.combine(self.1.apply(r)?)) }
}
#[derive(Clone)]
pub struct Map<A, F>(A, F);
impl<A: Filter, F: Func<A::Extract>> Filter for Map<A, F> {
    type Extract = (F::Output,);
    type Error = A::Error;
    fn apply(&self, r: &Request) -> Result<Self::Extract, Rejection> { Ok((self.1.call(self.0.apply(r)?),)) }
}
#[derive(Clone)]
pub struct AndThen<A, F>(A, F);
impl<A: Filter, F: Func<A::Extract, Output = G>, G: Future<Output = Result<R, E>>, R, E: Into<Rejection>> Filter for AndThen<A, F> {
    type Extract = (R,);
    type Error = Rejection;
    fn apply(&self, r: &Request) -> Result<Self::Extract, Rejection> { match now(self.1.call(self.0.apply(r)?)) { Some(Ok(x)) => Ok((x,)), Some(Err(e)) => Err(e.into()), None => not_found() } }
}
impl From<Infallible> for Rejection { fn from(x: Infallible) -> Rejection { match x {} } }
#[derive(Clone)]
pub struct Then<A, F>(A, F);
impl<A: Filter, F: Func<A::Extract, Output = G>, G: Future> Filter for Then<A, F> {
    type Extract = (G::Output,);
    type Error = A::Error;
    fn apply(&self, r: &Request) -> Result<Self::Extract, Rejection> { match now(self.1.call(self.0.apply(r)?)) { Some(x) => Ok((x,)), None => not_found() } }
}
#[derive(Clone)]
pub struct Or<A, B>(A, B);
impl<A: Filter, B: Filter> Filter for Or<A, B> where A::Extract: Reply, B::Extract: Reply {
    type Extract = (Response,);
    type Error = Rejection;
    fn apply(&self, r: &Request) -> Result<Self::Extract, Rejection> {
        match self.0.apply(r) { Ok(x) => Ok((x.into_response(),)), Err(_) => self.1.apply(r).map(|y| (y.into_response(),)) }
    }
}
#[derive(Clone)]
pub struct Recover<A, F>(A, F);
impl<A: Filter, F: Fn(Rejection) -> G, G: Future<Output = Result<R, E>>, R: Reply, E> Filter for Recover<A, F> where A::Extract: Reply {
    type Extract = (Response,);
    type Error = E;
    fn apply(&self, r: &Request) -> Result<Self::Extract, Rejection> {
        match self.0.apply(r) {
            Ok(x) => Ok((x.into_response(),)),
            Err(e) => match now((self.1)(e)) { Some(Ok(x)) => Ok((x.into_response(),)), _ => not_found() },
        }
    }
}
#[derive(Clone)]
pub struct Path(&'static str);
impl Filter for Path { type Extract = (); type Error = Rejection; fn apply(&self, r: &Request) -> Result<(), Rejection> { if r.path == self.0 { Ok(()) } else { not_found() } } }
pub fn path(p: &'static str) -> Path { Path(p) }
#[macro_export]
macro_rules! path { ($p:literal) => { $crate::path($p) }; }
#[derive(Clone, Copy)]
pub struct Any;
impl Filter for Any { type Extract = (); type Error = Infallible; fn apply(&self, _: &Request) -> Result<(), Rejection> { Ok(()) } }
pub fn any() -> Any { Any }
/// Every request of the simulator is a GET request for the whole path.
#[derive(Clone, Copy)]
pub struct Always;
impl Filter for Always { type Extract = (); type Error = Rejection; fn apply(&self, _: &Request) -> Result<(), Rejection> { Ok(()) } }
pub fn get() -> Always { Always }
#[derive(Clone, Copy)]
pub struct WsFilter;
impl Filter for WsFilter {
    type Extract = (ws::Ws,);
    type Error = Rejection;
    fn apply(&self, r: &Request) -> Result<Self::Extract, Rejection> { if r.ws { Ok((ws::Ws,)) } else { not_found() } }
}
pub fn ws() -> WsFilter { WsFilter }
#[derive(Clone)]
pub struct Cors;
impl Cors { pub fn allow_any_origin(self) -> Cors { self } pub fn build(self) -> Cors { self } }
pub fn log(_: &'static str) {}
pub fn cors() -> Cors { Cors }
pub mod path { pub use super::Path as Exact; pub fn end() -> super::Always { super::Always } }
pub mod filters {
    use super::*;
    pub struct BoxedFilter<T>(pub std::sync::Arc<dyn Fn(&Request) -> Result<T, Rejection>>);
    impl<T> Clone for BoxedFilter<T> { fn clone(&self) -> Self { BoxedFilter(self.0.clone()) } }
    impl<T> Filter for BoxedFilter<T> { type Extract = T; type Error = Rejection; fn apply(&self, r: &Request) -> Result<T, Rejection> { (self.0)(r) } }
    pub mod body { #[derive(Debug)] pub struct BodyDeserializeError; }
    pub mod ws { pub use crate::ws::*; }
}
pub mod ws {
    use super::*;
    pub struct Ws;
    pub struct OnUpgrade(Box<dyn FnOnce(WebSocket) -> Pin<Box<dyn Future<Output = ()>>>>);
    impl Ws {
        pub fn on_upgrade<F, U>(self, f: F) -> OnUpgrade where F: FnOnce(WebSocket) -> U + Send + 'static, U: Future<Output = ()> + Send + 'static { OnUpgrade(Box::new(move |w| Box::pin(f(w)))) }
    }
    impl Reply for OnUpgrade { fn into_response(self) -> Response { Response { status: 101, body: String::new(), upgrade: Some(self.0) } } }
    #[derive(Debug, Clone)]
    pub struct Message(String);
    impl Message {
        pub fn text<S: Into<String>>(s: S) -> Message { Message(s.into()) }
        pub fn to_str(&self) -> Result<&str, ()> { Ok(&self.0) }
        pub fn is_text(&self) -> bool { true }
        pub fn is_close(&self) -> bool { false }
        pub fn is_binary(&self) -> bool { false }
        pub fn is_ping(&self) -> bool { false }
        pub fn as_bytes(&self) -> &[u8] { self.0.as_bytes() }
        pub fn into_bytes(self) -> Vec<u8> { self.0.into_bytes() }
    }
    /// A client's socket: `out` carries frames to the client, `inp` what the client sends.
    #[derive(Debug)]
    pub struct WebSocket { pub out: usize, pub inp: usize }
    impl Stream for WebSocket {
        type Item = Result<Message, Error>;
        fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> { simcore::poll_read(self.inp, cx).map(|x| x.map(|s| Ok(Message(s)))) }
    }
    impl Sink<Message> for WebSocket {
        type Error = Error;
        fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> { simcore::poll_room(self.out, cx).map_err(|_| Error("connection closed")) }
        fn start_send(self: Pin<&mut Self>, m: Message) -> Result<(), Error> { simcore::write(self.out, m.0); Ok(()) }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> { simcore::poll_flushed(self.out, cx).map_err(|_| Error("connection closed")) }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> { simcore::close(self.out); Poll::Ready(Ok(())) }
    }
}
pub type Handler = std::rc::Rc<dyn Fn(&Request) -> Response>;
pub struct Server(Handler);
pub fn serve<F: Filter + 'static>(f: F) -> Server where F::Extract: Reply {
    Server(std::rc::Rc::new(move |r: &Request| match f.apply(r) { Ok(x) => x.into_response(), Err(_) => Response { status: 404, body: String::new(), upgrade: None } }))
}
impl Server {
    pub async fn run<A: Into<std::net::SocketAddr>>(self, a: A) {
        let h = self.0;
        let port = a.into().port();
        simcore::with(|w| w.slots.insert(format!("http {}", port), Box::new(h)));
        std::future::pending::<()>().await
    }
}
