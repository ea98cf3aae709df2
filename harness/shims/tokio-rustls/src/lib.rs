//! TLS without cryptography: a handshake of one byte (0x16) in each direction, then the bytes as they
//! are. Writing behaves as tokio-rustls documents and does it: what is written goes to a queue first,
//! and as much of the queue to the connection as it takes at once; only flushing (or shutting down)
//! guarantees that all of it gets there.
pub use rustls;
use std::future::poll_fn;
use std::io::{ErrorKind, Result};
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
const HELLO: u8 = 0x16;
const QUEUE: usize = 64 * 1024;
macro_rules! s {
    ($m:ident) => {
        pub mod $m {
            use super::*;
            pub struct TlsStream<T> {
                io: T,
                queue: Vec<u8>,
            }
            impl<T> std::fmt::Debug for TlsStream<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("TlsStream")
                }
            }
            impl<T: AsyncRead + AsyncWrite + Unpin> TlsStream<T> {
                pub fn new(io: T) -> Self {
                    TlsStream { io, queue: Vec::new() }
                }
                fn push(&mut self, cx: &mut Context<'_>) -> Poll<Result<()>> {
                    while !self.queue.is_empty() {
                        match Pin::new(&mut self.io).poll_write(cx, &self.queue) {
                            Poll::Ready(Ok(0)) => return Poll::Ready(Err(ErrorKind::WriteZero.into())),
                            Poll::Ready(Ok(n)) => {
                                self.queue.drain(..n);
                            }
                            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                            Poll::Pending => return Poll::Pending,
                        }
                    }
                    Poll::Ready(Ok(()))
                }
                pub(crate) async fn hello(&mut self) -> Result<()> {
                    self.queue.push(HELLO);
                    poll_fn(|cx| self.push(cx)).await
                }
                pub(crate) async fn greeted(&mut self) -> Result<()> {
                    let mut b = [0u8];
                    let n = poll_fn(|cx| {
                        let mut r = ReadBuf::new(&mut b);
                        match Pin::new(&mut self.io).poll_read(cx, &mut r) {
                            Poll::Ready(Ok(())) => Poll::Ready(Ok(r.filled().len())),
                            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                            Poll::Pending => Poll::Pending,
                        }
                    })
                    .await?;
                    match (n, b[0]) {
                        (0, _) => Err(ErrorKind::UnexpectedEof.into()),
                        (_, HELLO) => Ok(()),
                        _ => Err(ErrorKind::InvalidData.into()),
                    }
                }
            }
            impl<T: AsyncRead + AsyncWrite + Unpin> AsyncRead for TlsStream<T> {
                fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<Result<()>> {
                    Pin::new(&mut self.io).poll_read(cx, b)
                }
            }
            impl<T: AsyncRead + AsyncWrite + Unpin> AsyncWrite for TlsStream<T> {
                fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
                    let mut at = 0;
                    while at < b.len() {
                        let n = (b.len() - at).min(QUEUE - self.queue.len());
                        self.queue.extend_from_slice(&b[at..at + n]);
                        at += n;
                        match self.push(cx) {
                            Poll::Ready(Ok(())) => {}
                            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                            Poll::Pending if at == 0 => return Poll::Pending,
                            Poll::Pending => break,
                        }
                    }
                    Poll::Ready(Ok(at))
                }
                fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
                    match self.push(cx) {
                        Poll::Ready(Ok(())) => Pin::new(&mut self.io).poll_flush(cx),
                        r => r,
                    }
                }
                fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
                    match self.push(cx) {
                        Poll::Ready(Ok(())) => Pin::new(&mut self.io).poll_shutdown(cx),
                        r => r,
                    }
                }
            }
            impl<T> Unpin for TlsStream<T> {}
        }
    };
}
s!(client);
s!(server);
#[derive(Clone)]
pub struct TlsAcceptor(());
impl TlsAcceptor {
    pub async fn accept<T: AsyncRead + AsyncWrite + Unpin>(&self, s: T) -> Result<server::TlsStream<T>> {
        let mut t = server::TlsStream::new(s);
        t.greeted().await?;
        t.hello().await?;
        Ok(t)
    }
}
impl From<std::sync::Arc<rustls::ServerConfig>> for TlsAcceptor {
    fn from(_: std::sync::Arc<rustls::ServerConfig>) -> Self {
        TlsAcceptor(())
    }
}
#[derive(Clone)]
pub struct TlsConnector(());
impl TlsConnector {
    pub async fn connect<T: AsyncRead + AsyncWrite + Unpin>(&self, _n: rustls::pki_types::ServerName<'static>, s: T) -> Result<client::TlsStream<T>> {
        let mut t = client::TlsStream::new(s);
        t.hello().await?;
        t.greeted().await?;
        Ok(t)
    }
}
impl From<std::sync::Arc<rustls::ClientConfig>> for TlsConnector {
    fn from(_: std::sync::Arc<rustls::ClientConfig>) -> Self {
        TlsConnector(())
    }
}
