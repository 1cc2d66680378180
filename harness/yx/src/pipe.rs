//! In-memory duplex transport whose progress is decided by the scheduler.
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
}

/// What crossed the boundary between a session and its transport.
#[derive(Debug)]
pub enum Io {
    Rx(Vec<u8>),
    RxEof,
    RxErr,
    Tx(Vec<u8>),
    TxErr,
}

#[derive(Default)]
pub struct Half {
    /// written, not yet deliverable
    pub inflight: VecDeque<u8>,
    /// deliverable to the reader
    pub ready: VecDeque<u8>,
    pub cap: usize,
    /// no more bytes will come after what is queued
    pub closed: bool,
    /// closed became visible to the reader
    pub eof_visible: bool,
    pub read_err: bool,
    pub write_err: bool,
    pub rwaker: Option<Waker>,
    pub wwaker: Option<Waker>,
}

pub struct Net {
    /// half[e] carries bytes written by endpoint e
    pub half: [Half; 2],
    pub rng: Rng,
    pub rchunk: usize,
    pub wchunk: usize,
    pub io: Vec<(usize, Io)>,
}

pub type Shared = Arc<Mutex<Net>>;

pub struct End {
    pub e: usize,
    pub net: Shared,
}

impl AsyncRead for End {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut g = self.net.lock().unwrap();
        let g = &mut *g;
        let h = &mut g.half[1 - self.e];
        if h.read_err {
            g.io.push((self.e, Io::RxErr));
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if h.ready.is_empty() {
            if h.eof_visible {
                g.io.push((self.e, Io::RxEof));
                return Poll::Ready(Ok(0));
            }
            h.rwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = h.ready.len().min(buf.len());
        if g.rchunk > 0 {
            n = n.min(1 + g.rng.below(g.rchunk));
        }
        let mut v = Vec::with_capacity(n);
        for b in buf.iter_mut().take(n) {
            let x = h.ready.pop_front().unwrap();
            *b = x;
            v.push(x);
        }
        if let Some(w) = h.wwaker.take() {
            w.wake()
        }
        g.io.push((self.e, Io::Rx(v)));
        Poll::Ready(Ok(n))
    }

    unsafe fn prepare_uninitialized_buffer(&self, _buf: &mut [std::mem::MaybeUninit<u8>]) -> bool {
        false
    }
}

impl AsyncWrite for End {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut g = self.net.lock().unwrap();
        let g = &mut *g;
        let h = &mut g.half[self.e];
        if h.write_err {
            g.io.push((self.e, Io::TxErr));
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let used = h.inflight.len() + h.ready.len();
        if used >= h.cap {
            h.wwaker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = buf.len().min(h.cap - used);
        if g.wchunk > 0 {
            n = n.min(1 + g.rng.below(g.wchunk));
        }
        h.inflight.extend(buf[..n].iter());
        g.io.push((self.e, Io::Tx(buf[..n].to_vec())));
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

impl Drop for End {
    fn drop(&mut self) {
        // the owner dropped the transport: the peer sees end of stream
        let mut g = match self.net.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        };
        let e = self.e;
        g.half[e].closed = true;
        let h = &mut g.half[1 - e];
        h.write_err = true;
        if let Some(w) = h.wwaker.take() {
            w.wake()
        }
    }
}
