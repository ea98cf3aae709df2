use crate::io::{AsyncRead, AsyncWrite, ReadBuf, Result};
use crate::sim::sim;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll};

pub struct TcpStream {
    pub(crate) id: usize,
}
impl std::fmt::Debug for TcpStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TcpStream")
    }
}
/// What `TcpStream::connect` and `TcpListener::bind` accept.  Addresses are irrelevant here.
pub trait ToSocketAddrs {}
impl ToSocketAddrs for SocketAddr {}
impl ToSocketAddrs for str {}
impl ToSocketAddrs for String {}
impl ToSocketAddrs for (&str, u16) {}
impl ToSocketAddrs for (std::net::IpAddr, u16) {}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {}

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(_a: A) -> Result<TcpStream> {
        if sim().refuse {
            return Err(std::io::ErrorKind::ConnectionRefused.into());
        }
        if !sim().delay.is_zero() {
            crate::time::sleep(sim().delay).await;
        }
        let i = crate::sim::new_conn();
        sim().opened.push(i);
        crate::sim::greeted(i);
        Ok(TcpStream { id: i })
    }
    pub fn set_nodelay(&self, _b: bool) -> Result<()> {
        Ok(())
    }
    pub fn peer_addr(&self) -> Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], 1)))
    }
    pub fn local_addr(&self) -> Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], 2)))
    }
}
impl Drop for TcpStream {
    fn drop(&mut self) {
        let c = &mut sim().conns[self.id];
        c.dropped = true;
        c.rw = None;
        c.ww = None;
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        let c = &mut sim().conns[self.id];
        c.reads += 1;
        let avail = c.to_sut.len() - c.pos;
        if avail == 0 {
            if let Some(e) = c.read_err {
                return Poll::Ready(Err(e.into()));
            }
            if c.eof {
                return Poll::Ready(Ok(()));
            }
            if buf.remaining() == 0 {
                return Poll::Ready(Ok(()));
            }
            c.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = avail.min(buf.remaining()).min(c.max_read);
        buf.put_slice(&c.to_sut[c.pos..c.pos + n]);
        c.pos += n;
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
        let c = &mut sim().conns[self.id];
        if let Some(e) = c.write_err {
            return Poll::Ready(Err(e.into()));
        }
        if c.shutdown {
            return Poll::Ready(Err(std::io::ErrorKind::BrokenPipe.into()));
        }
        let room = c.window.saturating_sub(c.from_sut.len());
        if room == 0 {
            c.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = b.len().min(c.max_write).min(room);
        c.from_sut.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<()>> {
        let c = &mut sim().conns[self.id];
        c.shutdown = true;
        Poll::Ready(Ok(()))
    }
}

pub struct TcpListener(());
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(_a: A) -> Result<TcpListener> {
        Ok(TcpListener(()))
    }
    pub async fn accept(&self) -> Result<(TcpStream, SocketAddr)> {
        std::future::poll_fn(|cx| {
            let s = sim();
            match s.accept.pop_front() {
                Some(usize::MAX) => Poll::Ready(Err(std::io::ErrorKind::ConnectionAborted.into())),
                Some(i) if i == usize::MAX - 1 => Poll::Ready(Err(std::io::ErrorKind::OutOfMemory.into())),
                Some(i) => Poll::Ready(Ok((TcpStream { id: i }, SocketAddr::from(([127, 0, 0, 1], 9))))),
                None => {
                    s.accept_waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await
    }
    pub fn local_addr(&self) -> Result<SocketAddr> {
        Ok(SocketAddr::from(([127, 0, 0, 1], 1883)))
    }
}
