use std::future::Future;
pub use std::io::{Error, ErrorKind, Result};
use std::pin::Pin;
use std::task::{Context, Poll};

pub struct ReadBuf<'a> {
    b: &'a mut [u8],
    n: usize,
}
impl<'a> ReadBuf<'a> {
    pub fn new(b: &'a mut [u8]) -> Self {
        ReadBuf { b, n: 0 }
    }
    pub fn filled(&self) -> &[u8] {
        &self.b[..self.n]
    }
    pub fn filled_mut(&mut self) -> &mut [u8] {
        &mut self.b[..self.n]
    }
    pub fn remaining(&self) -> usize {
        self.b.len() - self.n
    }
    pub fn capacity(&self) -> usize {
        self.b.len()
    }
    pub fn put_slice(&mut self, s: &[u8]) {
        self.b[self.n..self.n + s.len()].copy_from_slice(s);
        self.n += s.len();
    }
    pub fn advance(&mut self, n: usize) {
        self.n += n;
    }
    pub fn initialize_unfilled(&mut self) -> &mut [u8] {
        &mut self.b[self.n..]
    }
}
pub trait AsyncRead {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>>;
}
pub trait AsyncWrite {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>>;
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>>;
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>>;
}
impl<T: ?Sized + AsyncRead + Unpin> AsyncRead for &mut T {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        Pin::new(&mut **self).poll_read(cx, buf)
    }
}
impl<T: ?Sized + AsyncWrite + Unpin> AsyncWrite for &mut T {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        Pin::new(&mut **self).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut **self).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut **self).poll_shutdown(cx)
    }
}

impl<T: ?Sized + AsyncRead + Unpin> AsyncRead for Box<T> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        Pin::new(&mut **self).poll_read(cx, buf)
    }
}
impl<T: ?Sized + AsyncWrite + Unpin> AsyncWrite for Box<T> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
        Pin::new(&mut **self).poll_write(cx, buf)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut **self).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut **self).poll_shutdown(cx)
    }
}

pub struct Read<'a, R: ?Sized> {
    r: &'a mut R,
    b: &'a mut [u8],
}
impl<R: AsyncRead + Unpin + ?Sized> Future for Read<'_, R> {
    type Output = Result<usize>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<usize>> {
        let me = self.get_mut();
        let mut rb = ReadBuf::new(me.b);
        match Pin::new(&mut *me.r).poll_read(cx, &mut rb) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Ready(Ok(())) => Poll::Ready(Ok(rb.n)),
        }
    }
}
pub struct WriteAll<'a, W: ?Sized> {
    w: &'a mut W,
    b: &'a [u8],
}
impl<W: AsyncWrite + Unpin + ?Sized> Future for WriteAll<'_, W> {
    type Output = Result<()>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        let me = self.get_mut();
        while !me.b.is_empty() {
            match Pin::new(&mut *me.w).poll_write(cx, me.b) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Ready(Ok(0)) => return Poll::Ready(Err(ErrorKind::WriteZero.into())),
                Poll::Ready(Ok(n)) => me.b = &me.b[n..],
            }
        }
        Poll::Ready(Ok(()))
    }
}
pub struct Write<'a, W: ?Sized> {
    w: &'a mut W,
    b: &'a [u8],
}
impl<W: AsyncWrite + Unpin + ?Sized> Future for Write<'_, W> {
    type Output = Result<usize>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<usize>> {
        let me = self.get_mut();
        Pin::new(&mut *me.w).poll_write(cx, me.b)
    }
}
pub struct Shutdown<'a, W: ?Sized>(&'a mut W);
impl<W: AsyncWrite + Unpin + ?Sized> Future for Shutdown<'_, W> {
    type Output = Result<()>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut *self.get_mut().0).poll_shutdown(cx)
    }
}
pub struct Flush<'a, W: ?Sized>(&'a mut W);
impl<W: AsyncWrite + Unpin + ?Sized> Future for Flush<'_, W> {
    type Output = Result<()>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
        Pin::new(&mut *self.get_mut().0).poll_flush(cx)
    }
}
pub trait AsyncReadExt: AsyncRead {
    fn read<'a>(&'a mut self, b: &'a mut [u8]) -> Read<'a, Self>
    where
        Self: Unpin,
    {
        Read { r: self, b }
    }
    fn read_exact<'a>(&'a mut self, b: &'a mut [u8]) -> impl Future<Output = Result<usize>>
    where
        Self: Unpin,
    {
        async move {
            let n = b.len();
            let mut at = 0;
            while at < n {
                let k = self.read(&mut b[at..]).await?;
                if k == 0 {
                    return Err(ErrorKind::UnexpectedEof.into());
                }
                at += k;
            }
            Ok(n)
        }
    }
}
impl<R: AsyncRead + ?Sized> AsyncReadExt for R {}
pub trait AsyncWriteExt: AsyncWrite {
    fn write<'a>(&'a mut self, b: &'a [u8]) -> Write<'a, Self>
    where
        Self: Unpin,
    {
        Write { w: self, b }
    }
    fn write_all<'a>(&'a mut self, b: &'a [u8]) -> WriteAll<'a, Self>
    where
        Self: Unpin,
    {
        WriteAll { w: self, b }
    }
    fn flush(&mut self) -> Flush<'_, Self>
    where
        Self: Unpin,
    {
        Flush(self)
    }
    fn shutdown(&mut self) -> Shutdown<'_, Self>
    where
        Self: Unpin,
    {
        Shutdown(self)
    }
}
impl<W: AsyncWrite + ?Sized> AsyncWriteExt for W {}
