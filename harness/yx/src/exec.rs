use crate::clock;
use crate::pipe::{End, Half, Io, Net, Rng, Shared};
use futures::future::BoxFuture;
use futures::task::{waker, ArcWake};
use futures::{FutureExt, Stream};
use serde_json::{json, Value};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite};
use tokio_yamux::{Config, Control, Session, StreamHandle};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Task {
    Sess(usize),
    Read(usize, u32),
    Write(usize, u32),
    Ctl(usize),
}

type Woken = Arc<Mutex<BTreeSet<Task>>>;

struct W {
    set: Woken,
    t: Task,
}
impl ArcWake for W {
    fn wake_by_ref(a: &Arc<Self>) {
        a.set.lock().unwrap().insert(a.t);
    }
}

/// Splits a byte stream into frames; written from the wire format, independent of the code under test.
pub struct Parser {
    buf: Vec<u8>,
    dead: bool,
    max: u64,
}

impl Parser {
    pub fn new(max: u64) -> Self {
        Parser { buf: Vec::new(), dead: false, max }
    }
    pub fn feed(&mut self, b: &[u8]) -> Vec<Value> {
        let mut out = Vec::new();
        if self.dead {
            return out;
        }
        self.buf.extend_from_slice(b);
        loop {
            if self.buf.len() < 12 {
                break;
            }
            let h = &self.buf[..12];
            let ty = h[1];
            let fl = ((h[2] as u64) << 8) | h[3] as u64;
            let id = be(&h[4..8]);
            let len = be(&h[8..12]);
            if h[0] != 0 || ty > 3 || (ty == 0 && len > self.max) {
                out.push(json!({"t":"bad","s":0,"fl":0,"n":0,"d":[]}));
                self.dead = true;
                break;
            }
            let mut d: Vec<u8> = Vec::new();
            if ty == 0 {
                if self.buf.len() < 12 + len as usize {
                    break;
                }
                d = self.buf[12..12 + len as usize].to_vec();
            }
            let t = ["data", "wu", "ping", "ga"][ty as usize];
            // TLC integers are 32-bit signed: large numbers are logged as a class
            let n: i64 = if len == 0xffff_ffff { 2_000_000_001 } else if len > 2_000_000_000 { 2_000_000_000 } else { len as i64 };
            out.push(json!({"t":t,"s":sid(id),"fl":fl & 15,"n":n,"d":d}));
            let cut = 12 + d.len();
            self.buf.drain(..cut);
        }
        out
    }
}

/// Stream ids beyond TLC's integers are folded, keeping their parity.
fn sid(id: u64) -> u64 {
    if id > 2_000_000_000 {
        1_000_000_000 + id % 1_000_000_000
    } else {
        id
    }
}

pub fn be(b: &[u8]) -> u64 {
    b.iter().fold(0u64, |a, x| (a << 8) | *x as u64)
}

pub fn frame_bytes(t: &str, fl: u64, id: u64, n: u64, d: &[u8]) -> Vec<u8> {
    let ty = match t {
        "data" => 0,
        "wu" => 1,
        "ping" => 2,
        "ga" => 3,
        _ => 9,
    };
    let mut v = vec![0u8, ty, (fl >> 8) as u8, fl as u8];
    v.extend_from_slice(&(id as u32).to_be_bytes());
    let len = if t == "data" { d.len() as u32 } else { n as u32 };
    v.extend_from_slice(&len.to_be_bytes());
    if t == "data" {
        v.extend_from_slice(d);
    }
    v
}

struct ReadOp {
    n: usize,
    looping: bool,
}

struct Str {
    h: StreamHandle,
    rd: Option<ReadOp>,
    wr: VecDeque<u8>,
    wsize: usize,
    count: u64,
    bad: bool,
}

enum CtlRes {
    Open(Result<StreamHandle, String>),
    Closed,
}

struct World {
    net: Shared,
    woken: Woken,
    sess: [Option<Session<End>>; 2],
    ctl: [Option<Control>; 2],
    streams: [BTreeMap<u32, Str>; 2],
    ctls: Vec<Option<(usize, &'static str, BoxFuture<'static, CtlRes>)>>,
    log: [Vec<Value>; 2],
    rxp: [Parser; 2],
    txp: [Parser; 2],
    rng: Rng,
    raw: bool,
    dchunk: usize,
    spurious: usize,
    steps: u64,
    pongs: VecDeque<u64>,
    auto_pong: bool,
    auto_ga: bool,
    hold: [bool; 2],
    stuck: bool,
    /// how rarely a reader or writer runs in the middle of a poll of a session, 0: never
    meddle: usize,
    /// bytes per unit: sizes in the program are given in units
    unit: u64,
}

thread_local! {
    static DURING: Cell<*mut World> = Cell::new(std::ptr::null_mut());
}

/// While it lives, the log messages of the library are points where another thread may run.
struct During;
impl During {
    fn start(w: &mut World) -> During {
        DURING.with(|c| c.set(if w.meddle > 0 { w } else { std::ptr::null_mut() }));
        During
    }
}
impl Drop for During {
    fn drop(&mut self) {
        DURING.with(|c| c.set(std::ptr::null_mut()));
    }
}

pub struct Points;
impl log::Log for Points {
    fn enabled(&self, _: &log::Metadata) -> bool {
        DURING.with(|c| !c.get().is_null())
    }
    fn log(&self, _: &log::Record) {
        let w = DURING.with(|c| c.replace(std::ptr::null_mut()));
        if !w.is_null() {
            // the session being polled is taken out of the world, which nobody else uses meanwhile
            unsafe { (*w).other() };
            DURING.with(|c| c.set(w));
        }
    }
    fn flush(&self) {}
}

impl World {
    /// A reader or writer that is ready runs now.
    fn other(&mut self) {
        if self.stuck || self.rng.below(self.meddle) != 0 {
            return;
        }
        let tasks: Vec<Task> = self
            .woken
            .lock()
            .unwrap()
            .iter()
            .filter(|t| matches!(t, Task::Read(..) | Task::Write(..)))
            .cloned()
            .collect();
        if !tasks.is_empty() {
            let t = tasks[self.rng.below(tasks.len())];
            self.woken.lock().unwrap().remove(&t);
            self.drain_io();
            self.poll_task(t);
        }
    }

    fn waker(&self, t: Task) -> Waker {
        waker(Arc::new(W { set: self.woken.clone(), t }))
    }
    fn wake(&self, t: Task) {
        self.woken.lock().unwrap().insert(t);
    }
    fn ev(&mut self, e: usize, mut v: Value) {
        if let Some(id) = v.get("s").and_then(|s| s.as_u64()) {
            v["s"] = json!(sid(id));
        }
        self.log[e].push(v);
    }

    fn drain_io(&mut self) {
        let io: Vec<(usize, Io)> = std::mem::replace(&mut self.net.lock().unwrap().io, Vec::new());
        for (e, x) in io {
            match x {
                Io::Rx(b) => {
                    for f in self.rxp[e].feed(&b) {
                        self.ev(e, json!({"e":"rx","f":f}));
                    }
                }
                Io::Tx(b) => {
                    for f in self.txp[e].feed(&b) {
                        if self.raw {
                            let n = f["n"].as_u64().unwrap();
                            if f["t"] == "ping" && f["fl"].as_u64().unwrap() & 1 == 1 {
                                if self.auto_pong {
                                    self.raw_send(&frame_bytes("ping", 2, 0, n, &[]));
                                } else {
                                    self.pongs.push_back(n);
                                }
                            }
                            if f["t"] == "ga" && self.auto_ga {
                                self.raw_send(&frame_bytes("ga", 0, 0, 0, &[]));
                            }
                        }
                        self.ev(e, json!({"e":"tx","f":f}));
                    }
                }
                Io::RxEof => self.ev(e, json!({"e":"rxeof"})),
                Io::RxErr => self.ev(e, json!({"e":"rxerr"})),
                Io::TxErr => self.ev(e, json!({"e":"txerr"})),
            }
        }
    }

    fn raw_send(&mut self, b: &[u8]) {
        let mut g = self.net.lock().unwrap();
        if !g.half[1].closed {
            g.half[1].inflight.extend(b.iter());
        }
    }

    fn guarded<R>(&mut self, e: usize, f: impl FnOnce(&mut Self) -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(|| f(self))) {
            Ok(r) => Some(r),
            Err(p) => {
                let m = p
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| p.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                self.ev(e, json!({"e":"panic","m":m}));
                self.stuck = true;
                None
            }
        }
    }

    fn add_stream(&mut self, e: usize, h: StreamHandle) -> u32 {
        let id = h.id();
        self.streams[e].insert(
            id,
            Str { h, rd: None, wr: VecDeque::new(), wsize: 0, count: 0, bad: false },
        );
        id
    }

    fn poll_task(&mut self, t: Task) {
        let w = self.waker(t);
        let mut cx = Context::from_waker(&w);
        match t {
            Task::Sess(e) => {
                let r = self.guarded(e, |s| {
                    let mut x = s.sess[e].take();
                    let during = During::start(s);
                    let r = x.as_mut().map(|x| Pin::new(x).poll_next(&mut cx));
                    drop(during);
                    s.sess[e] = x;
                    r
                });
                self.drain_io();
                match r {
                    Some(Some(Poll::Ready(Some(Ok(h))))) => {
                        let id = h.id();
                        self.ev(e, json!({"e":"accept","s":id}));
                        self.add_stream(e, h);
                        self.wake(t);
                    }
                    Some(Some(Poll::Ready(Some(Err(err))))) => {
                        self.ev(e, json!({"e":"end","k":format!("{:?}", err.kind())}));
                        self.drop_session(e);
                    }
                    Some(Some(Poll::Ready(None))) => {
                        self.ev(e, json!({"e":"end","k":"None"}));
                        self.drop_session(e);
                    }
                    _ => {}
                }
            }
            Task::Read(e, id) => {
                let r = self.guarded(e, |s| {
                    let st = match s.streams[e].get_mut(&id) {
                        Some(st) => st,
                        None => return None,
                    };
                    let n = match &st.rd {
                        Some(op) => op.n,
                        None => return None,
                    };
                    let mut buf = vec![0u8; n];
                    Some(match Pin::new(&mut st.h).poll_read(&mut cx, &mut buf) {
                        Poll::Pending => Poll::Pending,
                        Poll::Ready(Ok(k)) => Poll::Ready(Ok(buf[..k].to_vec())),
                        Poll::Ready(Err(x)) => Poll::Ready(Err(format!("{:?}", x.kind()))),
                    })
                });
                match r {
                    Some(Some(Poll::Ready(Ok(d)))) => {
                        let eof = d.is_empty();
                        self.ev(e, json!({"e":"rd","s":id,"d":d}));
                        let st = self.streams[e].get_mut(&id).unwrap();
                        if st.rd.as_ref().unwrap().looping && !eof {
                            self.wake(t);
                        } else {
                            st.rd = None;
                        }
                    }
                    Some(Some(Poll::Ready(Err(k)))) => {
                        let st = self.streams[e].get_mut(&id).unwrap();
                        st.rd = None;
                        st.bad |= k == "InvalidData";
                        self.ev(e, json!({"e":"rderr","s":id,"k":k}));
                    }
                    _ => {}
                }
            }
            Task::Write(e, id) => {
                let r = self.guarded(e, |s| {
                    let st = match s.streams[e].get_mut(&id) {
                        Some(st) => st,
                        None => return None,
                    };
                    if st.wr.is_empty() {
                        return None;
                    }
                    let k = if st.wsize == 0 { st.wr.len() } else { st.wr.len().min(st.wsize) };
                    let buf: Vec<u8> = st.wr.iter().take(k).cloned().collect();
                    Some(match Pin::new(&mut st.h).poll_write(&mut cx, &buf) {
                        Poll::Pending => Poll::Pending,
                        Poll::Ready(Ok(n)) => Poll::Ready(Ok((n, buf))),
                        Poll::Ready(Err(x)) => Poll::Ready(Err(format!("{:?}", x.kind()))),
                    })
                });
                match r {
                    Some(Some(Poll::Ready(Ok((n, buf))))) => {
                        let m = n.min(buf.len());
                        self.ev(e, json!({"e":"wr","s":id,"n":n,"d":&buf[..m]}));
                        let st = self.streams[e].get_mut(&id).unwrap();
                        st.wr.drain(..m);
                        if !st.wr.is_empty() {
                            self.wake(t);
                        }
                    }
                    Some(Some(Poll::Ready(Err(k)))) => {
                        self.ev(e, json!({"e":"wrerr","s":id,"k":k}));
                        self.streams[e].get_mut(&id).unwrap().wr.clear();
                    }
                    _ => {}
                }
            }
            Task::Ctl(i) => {
                let (e, k, mut f) = match self.ctls[i].take() {
                    Some(x) => x,
                    None => return,
                };
                match self.guarded(e, |_| f.as_mut().poll(&mut cx)) {
                    Some(Poll::Pending) => self.ctls[i] = Some((e, k, f)),
                    Some(Poll::Ready(CtlRes::Open(Ok(h)))) => {
                        let id = h.id();
                        self.ev(e, json!({"e":"open","s":id,"ctl":true}));
                        self.add_stream(e, h);
                    }
                    Some(Poll::Ready(CtlRes::Open(Err(k)))) => self.ev(e, json!({"e":"openerr","k":k,"ctl":true})),
                    Some(Poll::Ready(CtlRes::Closed)) => self.ev(e, json!({"e":"closed"})),
                    None => {}
                }
            }
        }
        self.drain_io();
    }

    fn drop_session(&mut self, e: usize) {
        let s = self.sess[e].take();
        self.guarded(e, move |_| drop(s));
        self.woken.lock().unwrap().remove(&Task::Sess(e));
        self.drain_io();
    }

    /// One scheduler step; false when nothing is runnable.
    fn step(&mut self) -> bool {
        self.steps += 1;
        if self.stuck {
            return false;
        }
        if self.steps > 60_000 {
            for e in 0..2 {
                self.ev(e, json!({"e":"livelock"}));
            }
            self.stuck = true;
            return false;
        }
        let tasks: Vec<Task> = self.woken.lock().unwrap().iter().cloned().collect();
        let mut wires = Vec::new();
        {
            let g = self.net.lock().unwrap();
            for e in 0..2 {
                let h: &Half = &g.half[e];
                if self.hold[e] {
                    continue;
                }
                if !h.inflight.is_empty() || (h.closed && !h.eof_visible) {
                    wires.push(e);
                }
            }
        }
        let total = tasks.len() + wires.len();
        if total == 0 {
            return false;
        }
        if self.spurious > 0 && self.rng.below(self.spurious) == 0 {
            // a spurious poll, always allowed
            let mut all: Vec<Task> = (0..2).map(Task::Sess).collect();
            for e in 0..2 {
                for id in self.streams[e].keys() {
                    all.push(Task::Read(e, *id));
                    all.push(Task::Write(e, *id));
                }
            }
            let t = all[self.rng.below(all.len())];
            self.poll_task(t);
            return true;
        }
        let k = self.rng.below(total);
        if k < tasks.len() {
            let t = tasks[k];
            self.woken.lock().unwrap().remove(&t);
            self.poll_task(t);
        } else {
            let e = wires[k - tasks.len()];
            let mut g = self.net.lock().unwrap();
            let g = &mut *g;
            let raw_sink = self.raw && e == 0;
            let h = &mut g.half[e];
            let mut n = h.inflight.len();
            if self.dchunk > 0 {
                n = n.min(1 + self.rng.below(self.dchunk));
            }
            for _ in 0..n {
                let b = h.inflight.pop_front().unwrap();
                if !raw_sink {
                    h.ready.push_back(b);
                }
            }
            if h.inflight.is_empty() && h.closed {
                h.eof_visible = true;
            }
            if let Some(w) = h.rwaker.take() {
                w.wake()
            }
            if raw_sink {
                if let Some(w) = h.wwaker.take() {
                    w.wake()
                }
            }
        }
        true
    }

    async fn run_steps(&mut self, n: usize) {
        for i in 0..n {
            if !self.step() {
                break;
            }
            if i % 16 == 15 {
                relax().await;
            }
        }
    }

    async fn settle(&mut self) {
        loop {
            let mut i = 0;
            while self.step() {
                i += 1;
                if i % 16 == 0 {
                    relax().await;
                }
            }
            // let the timer driver deliver what is due
            for _ in 0..3 {
                relax().await;
            }
            if self.stuck || self.woken.lock().unwrap().is_empty() {
                break;
            }
        }
    }

    async fn quiet(&mut self) {
        self.settle().await;
        if self.stuck {
            return;
        }
        for e in 0..2 {
            if self.raw && e == 1 {
                continue;
            }
            let pr: Vec<u64> = self.streams[e].iter().filter(|(_, s)| s.rd.is_some()).map(|(k, _)| sid(*k as u64)).collect();
            let pw: Vec<u64> = self.streams[e].iter().filter(|(_, s)| !s.wr.is_empty()).map(|(k, _)| sid(*k as u64)).collect();
            let mut po = 0;
            let mut pc = 0;
            for c in self.ctls.iter() {
                if let Some((x, k, _)) = c {
                    if *x == e {
                        if *k == "open" {
                            po += 1
                        } else {
                            pc += 1
                        }
                    }
                }
            }
            // transport blocked by the program: output may legitimately wait
            let held = self.hold[e];
            self.ev(e, json!({"e":"quiet","pr":pr,"pw":pw,"po":po,"pc":pc,"held":held}));
        }
    }
}

fn num(v: &Value, k: &str, d: u64) -> u64 {
    v.get(k).and_then(|x| x.as_u64()).unwrap_or(d)
}
fn flag(v: &Value, k: &str, d: bool) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or(d)
}

pub fn run(p: &Value) -> Vec<Value> {
    let mut rt = tokio::runtime::Builder::new().basic_scheduler().enable_time().build().unwrap();
    rt.block_on(async { run_async(p).await })
}

/// Back to the runtime, which fires due timers.
async fn relax() {
    let mut first = true;
    futures::future::poll_fn(move |cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

async fn run_async(p: &Value) -> Vec<Value> {
    let raw = p["kind"] == "raw";
    let unit = num(p, "unit", 1);
    let w = (num(p, "w", 8) * unit) as u32;
    let cap = num(p, "cap", 1 << 30) as usize;
    let seed = num(p, "seed", 1);
    let role0 = p["role0"].as_str().unwrap_or("client").to_string();
    let net: Shared = Arc::new(Mutex::new(Net {
        half: [
            Half { cap, ..Default::default() },
            Half { cap, ..Default::default() },
        ],
        rng: Rng(seed ^ 0xABCD),
        rchunk: num(p, "rchunk", 0) as usize,
        wchunk: num(p, "wchunk", 0) as usize,
        io: Vec::new(),
    }));
    let maxs = [num(p, "max0", 1000), num(p, "max1", 1000)];
    let backlog = num(p, "backlog", 256);
    let ka = num(p, "ka", 0);
    let wt = num(p, "wt", 10_000);
    let mk = |e: usize| Config {
        accept_backlog: backlog as usize,
        enable_keepalive: ka > 0,
        keepalive_interval: Duration::from_millis(ka.max(1)),
        connection_write_timeout: Duration::from_millis(wt),
        max_stream_count: maxs[e] as usize,
        max_stream_window_size: w,
    };
    let woken: Woken = Arc::new(Mutex::new(BTreeSet::new()));
    let e0 = End { e: 0, net: net.clone() };
    let e1 = End { e: 1, net: net.clone() };
    let s0 = if role0 == "client" { Session::new_client(e0, mk(0)) } else { Session::new_server(e0, mk(0)) };
    let c0 = s0.control();
    let (s1, c1, keep) = if raw {
        (None, None, Some(e1))
    } else {
        let s = if role0 == "client" { Session::new_server(e1, mk(1)) } else { Session::new_client(e1, mk(1)) };
        let c = s.control();
        (Some(s), Some(c), None)
    };
    let mut x = World {
        net,
        woken,
        sess: [Some(s0), s1],
        ctl: [Some(c0), c1],
        streams: [BTreeMap::new(), BTreeMap::new()],
        ctls: Vec::new(),
        log: [Vec::new(), Vec::new()],
        rxp: [Parser::new(w as u64), Parser::new(w as u64)],
        txp: [Parser::new(u64::MAX), Parser::new(u64::MAX)],
        rng: Rng(seed),
        raw,
        dchunk: num(p, "dchunk", 0) as usize,
        spurious: num(p, "spurious", 0) as usize,
        steps: 0,
        pongs: VecDeque::new(),
        auto_pong: flag(p, "pong", true),
        auto_ga: flag(p, "raw_ga", true),
        hold: [false, false],
        stuck: false,
        meddle: num(p, "meddle", 0) as usize,
        unit,
    };
    x.wake(Task::Sess(0));
    x.wake(Task::Sess(1));
    let gap = num(p, "gap", 6) as usize;
    let empty = Vec::new();
    for op in p["ops"].as_array().unwrap_or(&empty) {
        if x.stuck {
            break;
        }
        do_op(&mut x, op, raw).await;
        let n = match gap {
            0 => 0,
            g => x.rng.below(g),
        };
        if flag(p, "sync", false) {
            x.settle().await;
        } else {
            x.run_steps(n).await;
        }
    }
    x.quiet().await;
    drop(keep);
    let mut out = Vec::new();
    for e in 0..2 {
        if raw && e == 1 {
            continue;
        }
        let role = if (e == 0) == (role0 == "client") { "client" } else { "server" };
        let evs = std::mem::replace(&mut x.log[e], Vec::new());
        let (evs, w) = match in_units(&evs, unit) {
            Some(v) => (v, w as u64 / unit),
            None => (evs, w as u64),
        };
        out.push(json!({
            "id": format!("{}/{}", p["id"].as_str().unwrap_or("?"), e),
            "cfg": {"w": w, "max": maxs[e], "backlog": backlog, "ka": ka, "wt": wt, "role": role, "raw": raw,
                    "wide": cap >= 1 << 20 && num(p, "wchunk", 0) == 0},
            "ev": evs,
        }));
    }
    // dropping leftovers must not panic either, but is outside the recorded trace
    let _ = catch_unwind(AssertUnwindSafe(move || drop(x)));
    out
}

/// The same trace with units in place of bytes, where everything in it comes in whole units of
/// equal bytes; anything else stays as it was recorded.
fn in_units(evs: &[Value], unit: u64) -> Option<Vec<Value>> {
    fn data(d: &Value, unit: usize) -> Option<Value> {
        let v: Vec<u64> = d.as_array()?.iter().map(|b| b.as_u64().unwrap()).collect();
        if v.len() % unit != 0 || v.chunks(unit).any(|c| c.iter().any(|b| *b != c[0])) {
            return None;
        }
        Some(json!(v.chunks(unit).map(|c| c[0]).collect::<Vec<_>>()))
    }
    fn amount(n: &Value, unit: u64) -> Option<Value> {
        match n.as_u64()? {
            n if n >= 2_000_000_000 => Some(json!(n)),
            n if n % unit == 0 => Some(json!(n / unit)),
            _ => None,
        }
    }
    if unit == 1 {
        return None;
    }
    let mut out = evs.to_vec();
    for v in out.iter_mut() {
        let f = if v.get("f").is_some() { v.get_mut("f").unwrap() } else { v };
        if f["d"].is_array() {
            f["d"] = data(&f["d"], unit as usize)?;
        }
        if f["t"] == "data" || f["t"] == "wu" || f["e"] == "wr" {
            f["n"] = amount(&f["n"], unit)?;
        }
    }
    Some(out)
}

async fn do_op(x: &mut World, op: &Value, raw: bool) {
    let a = op.as_array().unwrap();
    let name = a[0].as_str().unwrap();
    let u = |i: usize| a.get(i).and_then(|v| v.as_u64()).unwrap_or(0);
    match name {
        "quiet" => x.quiet().await,
        "steps" => x.run_steps(u(1) as usize).await,
        "adv" => {
            x.settle().await;
            let ms = u(1);
            for e in 0..2 {
                if !(raw && e == 1) {
                    x.ev(e, json!({"e":"adv","ms":ms}));
                }
            }
            clock::advance(ms);
            for _ in 0..3 {
                relax().await;
            }
        }
        "hold" => x.hold[u(1) as usize] = true,
        "unhold" => x.hold[u(1) as usize] = false,
        "cut" => {
            // a failure of the transport: "eof" one way, "err" on reads, "werr" on writes
            let e = u(1) as usize;
            let mut g = x.net.lock().unwrap();
            let h = &mut g.half[e];
            match a[2].as_str().unwrap() {
                "eof" => h.closed = true,
                "err" => {
                    h.read_err = true;
                    if let Some(w) = h.rwaker.take() {
                        w.wake()
                    }
                }
                _ => {
                    h.write_err = true;
                    if let Some(w) = h.wwaker.take() {
                        w.wake()
                    }
                }
            }
        }
        "raw" => {
            let f = &a[1];
            let k = x.unit as usize;
            let d: Vec<u8> = f["d"]
                .as_array()
                .map(|v| v.iter().flat_map(|b| std::iter::repeat(b.as_u64().unwrap() as u8).take(k)).collect())
                .unwrap_or_default();
            let n = num(f, "n", 0);
            let n = if f["t"] == "wu" && n < 1 << 20 { n * x.unit } else { n };
            let b = frame_bytes(f["t"].as_str().unwrap(), num(f, "fl", 0), num(f, "s", 0), n, &d);
            x.raw_send(&b);
        }
        "bytes" => {
            let b: Vec<u8> = a[1].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
            x.raw_send(&b);
        }
        "pong" => {
            // answer one of the outstanding pings: index from the oldest
            let i = u(1) as usize;
            if i < x.pongs.len() {
                let id = x.pongs.remove(i).unwrap();
                x.raw_send(&frame_bytes("ping", 2, 0, id, &[]));
            }
        }
        "open" => {
            let e = u(1) as usize;
            if a.get(2).and_then(|v| v.as_str()) == Some("direct") && x.sess[e].is_some() {
                let r = x.guarded(e, |x| x.sess[e].as_mut().unwrap().open_stream());
                match r {
                    Some(Ok(h)) => {
                        let id = h.id();
                        x.ev(e, json!({"e":"open","s":id,"ctl":false}));
                        x.add_stream(e, h);
                    }
                    Some(Err(err)) => x.ev(e, json!({"e":"openerr","k":format!("{:?}", err),"ctl":false})),
                    None => {}
                }
            } else if let Some(c) = x.ctl[e].as_ref() {
                let mut c = c.clone();
                let f = async move { CtlRes::Open(c.open_stream().await.map_err(|e| format!("{:?}", e))) }.boxed();
                x.ctls.push(Some((e, "open", f)));
                x.ev(e, json!({"e":"openreq"}));
                x.wake(Task::Ctl(x.ctls.len() - 1));
            }
        }
        "close" => {
            let e = u(1) as usize;
            if let Some(c) = x.ctl[e].as_ref() {
                let mut c = c.clone();
                let f = async move {
                    c.close().await;
                    CtlRes::Closed
                }
                .boxed();
                x.ctls.push(Some((e, "close", f)));
                x.ev(e, json!({"e":"close"}));
                x.wake(Task::Ctl(x.ctls.len() - 1));
            }
        }
        "dropsess" => {
            let e = u(1) as usize;
            if x.sess[e].is_some() {
                x.ev(e, json!({"e":"dropsess"}));
                x.drop_session(e);
            }
        }
        "read" | "write" | "shut" | "drop" | "stopread" | "stopwrite" => {
            let e = u(1) as usize;
            let id = u(2) as u32;
            let unit = x.unit;
            if !x.streams[e].contains_key(&id) {
                x.settle().await;
                if !x.streams[e].contains_key(&id) {
                    return;
                }
            }
            match name {
                "read" => {
                    if x.streams[e][&id].bad {
                        return; // nobody goes on reading after a protocol error
                    }
                    let st = x.streams[e].get_mut(&id).unwrap();
                    st.rd = Some(ReadOp { n: (u(3).max(1) * unit) as usize, looping: u(4) != 0 });
                    x.wake(Task::Read(e, id));
                }
                "stopread" => x.streams[e].get_mut(&id).unwrap().rd = None,
                "stopwrite" => x.streams[e].get_mut(&id).unwrap().wr.clear(),
                "write" => {
                    let st = x.streams[e].get_mut(&id).unwrap();
                    for _ in 0..u(3) * unit {
                        let b = (st.count / unit * 7 + id as u64 * 13 + e as u64 * 101) as u8;
                        st.count += 1;
                        st.wr.push_back(b);
                    }
                    st.wsize = (u(4) * unit) as usize;
                    x.wake(Task::Write(e, id));
                }
                "shut" => {
                    let w = x.waker(Task::Write(e, id));
                    let r = x.guarded(e, |x| {
                        let mut cx = Context::from_waker(&w);
                        let st = x.streams[e].get_mut(&id).unwrap();
                        st.wr.clear();
                        Pin::new(&mut st.h).poll_shutdown(&mut cx)
                    });
                    let ok = match r {
                        Some(Poll::Ready(Ok(()))) => true,
                        _ => false,
                    };
                    x.ev(e, json!({"e":"shut","s":id,"ok":ok}));
                }
                _ => {
                    let st = x.streams[e].remove(&id).unwrap();
                    x.ev(e, json!({"e":"drop","s":id}));
                    x.guarded(e, move |_| drop(st));
                }
            }
        }
        _ => panic!("unknown op {}", name),
    }
}
