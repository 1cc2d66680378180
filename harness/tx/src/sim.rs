//! The simulated network and scheduler under the services.
use futures::future::{BoxFuture, FutureExt};
use std::{
    cell::Cell,
    collections::{HashMap, VecDeque},
    io,
    net::{IpAddr, Ipv4Addr, SocketAddr},
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll, Waker},
};
use tentacle::runtime::sim::{Accept, Gate, Link, Simulator};
use tokio::io::{AsyncRead, AsyncWrite};

thread_local! {
    /// the node whose task is running
    pub static NODE: Cell<usize> = Cell::new(usize::MAX);
}

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}

#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    /// the writer has finished
    eof: bool,
    /// the reader is gone
    gone: bool,
    broken: bool,
    stalled: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
}

impl Pipe {
    fn wake(&mut self) {
        if let Some(w) = self.reader.take() {
            w.wake()
        }
        if let Some(w) = self.writer.take() {
            w.wake()
        }
    }
}

pub struct Conn {
    pub from: usize,
    pub to: usize,
    pub addr: SocketAddr,
    pipes: [Pipe; 2],
    /// the end of each side is not done with
    pub kept: [bool; 2],
}

#[derive(Default)]
struct Port {
    queue: VecDeque<(End, SocketAddr)>,
    waker: Option<Waker>,
    fail: bool,
}

pub struct Net {
    pub rng: Rng,
    pub conns: Vec<Conn>,
    ports: HashMap<(usize, u16), Port>,
    pub cap: usize,
    pub chunk: bool,
    /// how often a task's poll is put off, in percent
    pub jitter: u64,
    /// how often a task is not polled for a long while, in 1/1000
    pub naps: u64,
    /// services do all they can whenever they have a turn
    pub eager: bool,
    /// nodes nobody can reach, connection attempts stay pending
    pub dark: Vec<usize>,
    /// incoming connections whose peer address cannot be had
    pub noaddr: usize,
    pub waiting: Vec<Waker>,
}

#[derive(Clone)]
pub struct Sim(pub Arc<Mutex<Net>>);

/// 10.0.node.x
pub fn node_of(addr: &SocketAddr) -> usize {
    match addr.ip() {
        IpAddr::V4(ip) => ip.octets()[2] as usize,
        _ => usize::MAX,
    }
}

impl Sim {
    pub fn new(seed: u64, cap: usize, chunk: bool, jitter: u64) -> Self {
        Sim(Arc::new(Mutex::new(Net {
            rng: Rng::new(seed),
            conns: Vec::new(),
            ports: HashMap::new(),
            cap,
            chunk,
            jitter,
            naps: 0,
            eager: false,
            dark: Vec::new(),
            noaddr: 0,
            waiting: Vec::new(),
        })))
    }

    /// resets the connection on both sides
    pub fn cut(&self, c: usize) {
        let mut net = self.0.lock().unwrap();
        for p in net.conns[c].pipes.iter_mut() {
            p.broken = true;
            p.wake();
        }
    }

    /// nothing passes in the given direction any more (or again)
    pub fn stall(&self, c: usize, dir: usize, on: bool) {
        let mut net = self.0.lock().unwrap();
        let p = &mut net.conns[c].pipes[dir];
        p.stalled = on;
        p.wake();
    }

    pub fn fail_accept(&self, node: usize, port: u16) -> bool {
        let mut net = self.0.lock().unwrap();
        match net.ports.get_mut(&(node, port)) {
            Some(p) => {
                p.fail = true;
                if let Some(w) = p.waker.take() {
                    w.wake()
                }
                true
            }
            None => false,
        }
    }

    pub fn raw_connect(&self, from: usize, addr: SocketAddr) -> io::Result<(usize, End)> {
        let mut net = self.0.lock().unwrap();
        let to = node_of(&addr);
        let c = net.conns.len();
        let key = (to, addr.port());
        if !net.ports.contains_key(&key) {
            return Err(io::ErrorKind::ConnectionRefused.into());
        }
        net.conns.push(Conn {
            from,
            to,
            addr,
            pipes: Default::default(),
            kept: [true; 2],
        });
        let me = SocketAddr::new(
            IpAddr::V4(Ipv4Addr::new(10, 0, from as u8, 200)),
            10000 + c as u16,
        );
        let other = if net.noaddr > 0 {
            net.noaddr -= 1;
            None
        } else {
            Some(me)
        };
        let na = other.is_none();
        let port = net.ports.get_mut(&key).unwrap();
        port.queue.push_back((
            End {
                sim: self.clone(),
                c,
                side: 1,
                peer: other,
            },
            me,
        ));
        if let Some(w) = port.waker.take() {
            w.wake()
        }
        crate::rec(serde_json::json!({"e": "conn", "c": c, "a": from, "b": to, "sa": addr.to_string(), "na": na}));
        Ok((
            c,
            End {
                sim: self.clone(),
                c,
                side: 0,
                peer: Some(addr),
            },
        ))
    }
}

/// One end; side 0 dialed. Pipe 0 carries what side 0 writes.
pub struct End {
    sim: Sim,
    pub c: usize,
    side: usize,
    peer: Option<SocketAddr>,
}

impl Link for End {
    fn peer_addr(&self) -> io::Result<SocketAddr> {
        self.peer.ok_or_else(|| io::ErrorKind::NotConnected.into())
    }
}

impl AsyncRead for End {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut [u8],
    ) -> Poll<io::Result<usize>> {
        let mut net = self.sim.0.lock().unwrap();
        let net = &mut *net;
        let p = &mut net.conns[self.c].pipes[1 - self.side];
        if p.broken {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if p.stalled || (p.buf.is_empty() && !p.eof) {
            p.reader = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = buf.len().min(p.buf.len());
        if net.chunk && n > 1 && net.rng.below(3) == 0 {
            n = 1 + net.rng.below(n as u64 - 1) as usize;
        }
        for (i, b) in p.buf.drain(..n).enumerate() {
            buf[i] = b;
        }
        if let Some(w) = p.writer.take() {
            w.wake()
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for End {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        let mut net = self.sim.0.lock().unwrap();
        let net = &mut *net;
        let p = &mut net.conns[self.c].pipes[self.side];
        if p.broken {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if p.gone || p.eof {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let room = net.cap.saturating_sub(p.buf.len());
        if room == 0 {
            p.writer = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = room.min(buf.len());
        if net.chunk && n > 1 && net.rng.below(3) == 0 {
            n = 1 + net.rng.below(n as u64 - 1) as usize;
        }
        p.buf.extend(&buf[..n]);
        if let Some(w) = p.reader.take() {
            w.wake()
        }
        Poll::Ready(Ok(n))
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut net = self.sim.0.lock().unwrap();
        let p = &mut net.conns[self.c].pipes[self.side];
        p.eof = true;
        p.wake();
        Poll::Ready(Ok(()))
    }
}

impl Drop for End {
    fn drop(&mut self) {
        let mut net = self.sim.0.lock().unwrap();
        let side = self.side;
        let conn = &mut net.conns[self.c];
        conn.kept[side] = false;
        conn.pipes[side].eof = true;
        conn.pipes[side].wake();
        conn.pipes[1 - side].gone = true;
        conn.pipes[1 - side].wake();
    }
}

struct Listener {
    sim: Sim,
    key: (usize, u16),
    addr: SocketAddr,
}

impl Accept for Listener {
    fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(self.addr)
    }

    fn poll_accept(
        &mut self,
        cx: &mut Context<'_>,
    ) -> Poll<io::Result<(Box<dyn Link>, SocketAddr)>> {
        let mut net = self.sim.0.lock().unwrap();
        let port = net.ports.get_mut(&self.key).unwrap();
        if port.fail {
            port.fail = false;
            return Poll::Ready(Err(io::ErrorKind::Other.into()));
        }
        match port.queue.pop_front() {
            Some((end, addr)) => Poll::Ready(Ok((Box::new(end), addr))),
            None => {
                port.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

impl Drop for Listener {
    fn drop(&mut self) {
        let port = self.sim.0.lock().unwrap().ports.remove(&self.key);
        drop(port);
    }
}

struct Task {
    sim: Sim,
    node: usize,
    late: u64,
    asleep: u64,
    before: usize,
}

impl Gate for Task {
    fn enter(&mut self) -> bool {
        crate::sync_clock();
        {
            let mut net = self.sim.0.lock().unwrap();
            if self.asleep > 0 {
                self.asleep -= 1;
                return false;
            }
            let naps = net.naps;
            if naps > 0 && net.rng.below(1000) < naps {
                self.asleep = 20 + net.rng.below(400);
                return false;
            }
            let j = net.jitter;
            if self.late < 12 && net.rng.below(100) < j {
                self.late += 1;
                return false;
            }
        }
        self.late = 0;
        self.before = NODE.with(|n| n.replace(self.node));
        true
    }

    fn leave(&mut self) {
        NODE.with(|n| n.set(self.before));
    }
}

impl Simulator for Sim {
    fn bind(&self, addr: SocketAddr) -> io::Result<Box<dyn Accept>> {
        let mut net = self.0.lock().unwrap();
        let key = (node_of(&addr), addr.port());
        if net.ports.contains_key(&key) {
            return Err(io::ErrorKind::AddrInUse.into());
        }
        net.ports.insert(key, Port::default());
        Ok(Box::new(Listener {
            sim: self.clone(),
            key,
            addr,
        }))
    }

    fn connect(&self, addr: SocketAddr) -> BoxFuture<'static, io::Result<Box<dyn Link>>> {
        let sim = self.clone();
        let from = NODE.with(|n| n.get());
        async move {
            // the attempt takes a moment
            let k = sim.0.lock().unwrap().rng.below(4);
            for _ in 0..k {
                crate::yield_now().await;
            }
            futures::future::poll_fn(|cx| {
                let mut net = sim.0.lock().unwrap();
                if net.dark.contains(&node_of(&addr)) {
                    net.waiting.push(cx.waker().clone());
                    return Poll::Pending;
                }
                Poll::Ready(())
            })
            .await;
            sim.raw_connect(from, addr)
                .map(|(_, end)| Box::new(end) as Box<dyn Link>)
        }
        .boxed()
    }

    fn gate(&self) -> Box<dyn Gate> {
        Box::new(Task {
            sim: self.clone(),
            node: NODE.with(|n| n.get()),
            late: 0,
            asleep: 0,
            before: usize::MAX,
        })
    }
}
