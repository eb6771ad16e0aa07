//! In-memory duplex stream handed to the broker as "the network connection".
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub static ACTIVITY: AtomicU64 = AtomicU64::new(0);
pub fn touch() {
    ACTIVITY.fetch_add(1, Ordering::Relaxed);
}

#[derive(Default)]
pub struct Pipe {
    pub inbuf: VecDeque<u8>,
    pub eof: bool,
    pub reset: bool,
    pub out: Vec<u8>,
    pub held: bool,
    /// bytes per read / write call, 0 = unlimited
    pub rchunk: usize,
    pub wchunk: usize,
    /// chunked reads return Pending in between when set
    pub lazy: bool,
    lazy_flip: bool,
    pub shutdown: bool,
    pub dropped: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
}

pub type Shared = Arc<Mutex<Pipe>>;

pub struct MockStream(pub Shared);

pub fn wake(p: &mut Pipe) {
    if let Some(w) = p.rw.take() {
        w.wake();
    }
    if let Some(w) = p.ww.take() {
        w.wake();
    }
}

impl AsyncRead for MockStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf) -> Poll<io::Result<()>> {
        let mut p = self.0.lock().unwrap();
        if p.reset {
            touch();
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if p.inbuf.is_empty() {
            if p.eof {
                touch();
                return Poll::Ready(Ok(()));
            }
            p.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if p.lazy {
            p.lazy_flip = !p.lazy_flip;
            if p.lazy_flip {
                touch();
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        let mut n = p.inbuf.len().min(buf.remaining());
        if p.rchunk > 0 {
            n = n.min(p.rchunk);
        }
        let data: Vec<u8> = p.inbuf.drain(..n).collect();
        buf.put_slice(&data);
        touch();
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for MockStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut p = self.0.lock().unwrap();
        if p.reset || p.eof {
            touch();
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if p.held {
            p.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = if p.wchunk > 0 { buf.len().min(p.wchunk) } else { buf.len() };
        p.out.extend_from_slice(&buf[..n]);
        touch();
        if p.wchunk > 0 {
            // whoever gets Ready(partial) is expected to come back by itself or to be woken later
            p.ww = Some(cx.waker().clone());
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.0.lock().unwrap();
        p.shutdown = true;
        touch();
        Poll::Ready(Ok(()))
    }
}

impl Drop for MockStream {
    fn drop(&mut self) {
        self.0.lock().unwrap().dropped = true;
        touch();
    }
}
