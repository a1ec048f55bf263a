//! The input feed: a WebSocket whose frames the simulator delivers.
use futures_util::stream::Stream;
use std::pin::Pin;
use std::task::{Context, Poll};
pub mod tungstenite {
    #[derive(Debug)]
    pub enum Error { ConnectionClosed, Io }
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{:?}", self) } }
    impl std::error::Error for Error {}
    pub type Result<T, E = Error> = std::result::Result<T, E>;
    #[derive(Debug, Clone)]
    pub enum Message { Text(String), Binary(Vec<u8>), Ping(Vec<u8>), Pong(Vec<u8>), Close(Option<()>) }
    pub mod protocol { pub use super::Message; }
}
pub struct WebSocketStream<S = MaybeTlsStream<simcore::TcpStream>>(usize, std::marker::PhantomData<S>);
pub struct MaybeTlsStream<S>(std::marker::PhantomData<S>);
impl<S> Unpin for WebSocketStream<S> {}
/// Frames: "T..." text, "B..." binary, "P" ping, "C" close.
impl<S> Stream for WebSocketStream<S> {
    type Item = tungstenite::Result<tungstenite::Message>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        use tungstenite::Message as M;
        simcore::poll_read(self.0, cx).map(|x| x.map(|s| Ok(match &s[..1] { "T" => M::Text(s[1..].to_string()), "B" => M::Binary(s[1..].bytes().collect()), "P" => M::Ping(vec![1]), _ => M::Close(None) })))
    }
}
pub trait Address { fn address(self) -> String; }
impl Address for url::Url { fn address(self) -> String { self.0 } }
impl Address for &url::Url { fn address(self) -> String { self.0.clone() } }
impl Address for &str { fn address(self) -> String { self.to_string() } }
impl Address for &String { fn address(self) -> String { self.clone() } }
impl Address for String { fn address(self) -> String { self } }
pub async fn connect_async<A: Address>(url: A) -> tungstenite::Result<(WebSocketStream<MaybeTlsStream<simcore::TcpStream>>, ())> {
    let p = simcore::pipe(1 << 30);
    let name = url.address();
    simcore::with(|w| w.slots.insert(format!("feed {}", name), Box::new(p)));
    Ok((WebSocketStream(p, std::marker::PhantomData), ()))
}
