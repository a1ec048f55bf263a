//! tokio with the simulator's executor; the synchronisation primitives are the real ones.
pub use real_tokio::{join, pin, select, sync, try_join};
pub use tokio_macros_stub::main;
use std::future::Future;
pub mod task {
    pub use super::{spawn, yield_now, JoinError, JoinHandle};
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R> where F: FnOnce() -> R + Send + 'static, R: Send + 'static { spawn(async move { f() }) }
}
/// How long something takes is for the scheduler to decide.
pub mod time {
    pub use std::time::Duration;
    #[derive(Debug)]
    pub struct Elapsed;
    pub async fn sleep(_: Duration) { super::yield_now().await }
    pub async fn timeout<F: std::future::Future>(_: Duration, f: F) -> Result<F::Output, Elapsed> { Ok(f.await) }
}
pub mod net {
    pub use simcore::TcpStream;
}
pub struct JoinError;
impl std::fmt::Debug for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("JoinError") } }
pub struct JoinHandle<T>(real_tokio::sync::oneshot::Receiver<T>);
impl std::fmt::Display for JoinError { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("JoinError") } }
impl std::error::Error for JoinError {}
impl JoinError { pub fn is_panic(&self) -> bool { true } pub fn is_cancelled(&self) -> bool { false } }
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        std::pin::Pin::new(&mut self.0).poll(cx).map(|r| r.map_err(|_| JoinError))
    }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static {
    let (tx, rx) = real_tokio::sync::oneshot::channel();
    simcore::spawn(async move { let _ = tx.send(f.await); });
    JoinHandle(rx)
}
pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |cx| { if done { std::task::Poll::Ready(()) } else { done = true; cx.waker().wake_by_ref(); std::task::Poll::Pending } }).await
}
