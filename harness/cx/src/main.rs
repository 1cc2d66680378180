//! Executes programs of concurrent tasks on the library's queues and records calls and
//! returns. The queue sources are compiled from /repo with the standard atomics, mutexes and
//! yields replaced by those of a controlled scheduler, so every step on shared state is a
//! scheduling point. Nothing is judged here: the records are evaluated by TLC.
mod vstd;
#[path = "gen/buffer.rs"]
#[allow(dead_code)]
mod buffer;
#[path = "gen/channel/mod.rs"]
#[allow(dead_code, unused_imports, deprecated)]
mod channel;

use buffer::{Buffer, PriorityBuffer, SendResult};
use futures::channel::mpsc as plain;
use channel::mpsc::{channel as bounded, unbounded, Priority, Receiver, Sender, UnboundedReceiver, UnboundedSender};
use futures::task::{waker, ArcWake};
use futures::Stream;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// A message that knows how many of its kind exist.
#[derive(Debug)]
struct Msg(u64, Arc<AtomicI64>);
impl Msg {
    fn new(n: u64, live: &Arc<AtomicI64>) -> Msg {
        live.fetch_add(1, SeqCst);
        Msg(n, live.clone())
    }
}
impl Drop for Msg {
    fn drop(&mut self) {
        self.1.fetch_sub(1, SeqCst);
    }
}

struct Flag(AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(f: &Arc<Self>) {
        f.0.store(true, SeqCst)
    }
}

enum Tx {
    B(Sender<Msg>),
    U(UnboundedSender<Msg>),
    /// with the buffer in front
    F(PriorityBuffer<Msg>, Sender<Msg>),
    /// the queue of the futures crate, with the plain buffer in front
    G(plain::Sender<Msg>),
    P(Buffer<Msg>, plain::Sender<Msg>),
}
enum Rx {
    B(Receiver<Msg>),
    U(UnboundedReceiver<Msg>),
    P(plain::Receiver<Msg>),
}

type Log = Arc<Mutex<Vec<Value>>>;

/// What the receiver has taken of each task's messages, and whether it has finished.
type Acks = Arc<(shuttle::sync::Mutex<(HashMap<usize, u64>, bool)>, shuttle::sync::Condvar)>;

fn acks() -> Acks {
    Arc::new((shuttle::sync::Mutex::new((HashMap::new(), false)), shuttle::sync::Condvar::new()))
}

#[derive(Clone)]
struct World {
    log: Log,
    live: Arc<AtomicI64>,
    handles: Arc<AtomicU64>,
}

impl World {
    fn ev(&self, v: Value) {
        self.log.lock().unwrap().push(v)
    }
    fn call(&self, th: usize, k: &str, s: u64, m: u64, p: &str) {
        self.ev(json!({"e": "call", "th": th, "k": k, "s": s, "m": m, "p": p}))
    }
    fn ret(&self, th: usize, r: &str) {
        self.ev(json!({"e": "ret", "th": th, "r": r}))
    }
}

impl Tx {
    fn poll_ready(&self, cx: &mut Context) -> Poll<bool> {
        match self {
            Tx::B(s) => s.poll_ready(cx).map(|r| r.is_ok()),
            Tx::U(s) => s.poll_ready(cx).map(|r| r.is_ok()),
            Tx::F(_, s) => s.poll_ready(cx).map(|r| r.is_ok()),
            Tx::G(_) | Tx::P(..) => unreachable!(),
        }
    }
    fn send(&self, m: Msg, hi: bool) -> &'static str {
        let r = match self {
            Tx::B(s) | Tx::F(_, s) if hi => s.try_quick_send(m),
            Tx::B(s) | Tx::F(_, s) => s.try_send(m),
            Tx::U(s) if hi => s.unbounded_quick_send(m),
            Tx::U(s) => s.unbounded_send(m),
            Tx::G(_) | Tx::P(..) => unreachable!(),
        };
        match r {
            Ok(()) => "ok",
            Err(e) if e.is_full() => "full",
            Err(_) => "disc",
        }
    }
}

impl Rx {
    fn poll(&mut self, cx: &mut Context) -> Poll<Option<(Priority, Msg)>> {
        match self {
            Rx::B(r) => Pin::new(r).poll_next(cx),
            Rx::U(r) => Pin::new(r).poll_next(cx),
            Rx::P(r) => Pin::new(r).poll_next(cx).map(|m| m.map(|m| (Priority::Normal, m))),
        }
    }
}

fn show(w: &World, acks: &Acks, th: usize, r: Option<(Priority, Msg)>) -> bool {
    {
        let mut g = acks.0.lock().unwrap();
        match &r {
            Some((_, m)) => *g.0.entry((m.0 / 1000) as usize).or_insert(0) += 1,
            None => g.1 = true,
        }
        acks.1.notify_all();
    }
    match r {
        Some((p, m)) => {
            w.ev(json!({"e": "ret", "th": th, "r": "msg", "m": m.0, "p": if p.is_high() { "hi" } else { "lo" }}));
            true
        }
        None => {
            w.ret(th, "end");
            false
        }
    }
}

/// The sending side of one task: its handles by number, and which of them wait for room.
struct Side {
    th: usize,
    hs: HashMap<u64, Tx>,
    wait: HashMap<u64, Arc<Flag>>,
    n: u64,
    /// messages that were sent
    sent: u64,
    acks: Acks,
}

impl Side {
    fn step(&mut self, w: &World, op: &[Value]) {
        let th = self.th;
        let k = op[0].as_str().unwrap();
        let mut ids: Vec<u64> = self.hs.keys().cloned().collect();
        ids.sort();
        if ids.is_empty() {
            return;
        }
        let s = ids[op[1].as_u64().unwrap() as usize % ids.len()];
        let p = op.get(2).and_then(|x| x.as_str()).unwrap_or("lo");
        self.n += 1;
        let m = (th as u64) * 1000 + self.n;
        let buffered = matches!(self.hs[&s], Tx::F(..) | Tx::P(..));
        let p = if let Tx::P(..) = self.hs[&s] { "lo" } else { p };
        match k {
            "send" if !buffered => {
                let msg = Msg::new(m, &w.live);
                w.call(th, "send", s, m, p);
                // trying without a waker replaces the waiting with one, as in futures
                self.wait.remove(&s);
                let r = self.hs[&s].send(msg, p == "hi");
                self.sent += (r == "ok") as u64;
                w.ret(th, r);
            }
            "wait" if !buffered => {
                let msg = Msg::new(m, &w.live);
                w.call(th, "wait", s, m, p);
                let tx = &self.hs[&s];
                let mut msg = Some(msg);
                let r = shuttle::future::block_on(futures::future::poll_fn(|cx| match tx.poll_ready(cx) {
                    Poll::Pending => Poll::Pending,
                    Poll::Ready(false) => Poll::Ready("disc"),
                    Poll::Ready(true) => Poll::Ready(tx.send(msg.take().unwrap(), p == "hi")),
                }));
                self.sent += (r == "ok") as u64;
                w.ret(th, r);
            }
            "sync" => {
                // keeps its handles until the receiver has taken everything sent so far
                let mut g = self.acks.0.lock().unwrap();
                while !g.1 && g.0.get(&th).cloned().unwrap_or(0) < self.sent {
                    g = self.acks.1.wait(g).unwrap();
                }
            }
            "ready" if !buffered => {
                let f = Arc::new(Flag(AtomicBool::new(false)));
                w.call(th, "ready", s, 0, "");
                let r = self.hs[&s].poll_ready(&mut Context::from_waker(&waker(f.clone())));
                self.wait.remove(&s);
                w.ret(
                    th,
                    match r {
                        Poll::Pending => {
                            self.wait.insert(s, f);
                            "full"
                        }
                        Poll::Ready(true) => "ok",
                        Poll::Ready(false) => "disc",
                    },
                );
            }
            "send" | "ready" | "wait" => {
                // through the buffer: keep it back, then try to send all that is kept
                {
                    let b = self.hs.get_mut(&s).unwrap();
                    if k != "ready" {
                        w.ev(json!({"e": "bpush", "s": s, "m": m, "p": p}));
                        match b {
                            Tx::F(b, _) if p == "hi" => b.push_high(Msg::new(m, &w.live)),
                            Tx::F(b, _) => b.push_normal(Msg::new(m, &w.live)),
                            Tx::P(b, _) => b.push(Msg::new(m, &w.live)),
                            _ => unreachable!(),
                        }
                    }
                    let f = Arc::new(Flag(AtomicBool::new(false)));
                    w.call(th, "btry", s, 0, "");
                    self.wait.remove(&s);
                    let wk = waker(f.clone());
                    let mut cx = Context::from_waker(&wk);
                    let r = match b {
                        Tx::F(b, _) => b.try_send(&mut cx),
                        Tx::P(b, _) => b.try_send(&mut cx),
                        _ => unreachable!(),
                    };
                    w.ret(
                        th,
                        match r {
                            SendResult::Ok => "ok",
                            SendResult::Pending => {
                                self.wait.insert(s, f);
                                "full"
                            }
                            SendResult::Disconnect => "disc",
                        },
                    );
                }
            }
            "clone" => {
                let id = w.handles.fetch_add(1, SeqCst);
                if id > 20 || buffered {
                    return;
                }
                w.call(th, "clone", s, id, "");
                let x = match &self.hs[&s] {
                    Tx::B(x) => Tx::B(x.clone()),
                    Tx::U(x) => Tx::U(x.clone()),
                    Tx::G(x) => Tx::G(x.clone()),
                    Tx::F(..) | Tx::P(..) => unreachable!(),
                };
                self.hs.insert(id, x);
                w.ret(th, "ok");
            }
            "cclose" if !buffered => {
                w.call(th, "cclose", s, 0, "");
                match self.hs.get_mut(&s).unwrap() {
                    Tx::B(x) => x.close_channel(),
                    Tx::U(x) => x.close_channel(),
                    _ => (),
                }
                w.ret(th, "ok");
            }
            "drop" if !buffered => self.drop(w, s),
            "len" => {
                if let Tx::U(x) = &self.hs[&s] {
                    w.call(th, "len", s, 0, "");
                    let n = x.len().map(|x| x as i64).unwrap_or(-1);
                    w.ev(json!({"e": "ret", "th": th, "r": "num", "m": n}));
                }
            }
            "isclosed" => {
                w.call(th, "isclosed", s, 0, "");
                let b = match &self.hs[&s] {
                    Tx::B(x) | Tx::F(_, x) => x.is_closed(),
                    Tx::U(x) => x.is_closed(),
                    Tx::G(x) | Tx::P(_, x) => x.is_closed(),
                };
                w.ev(json!({"e": "ret", "th": th, "r": "num", "m": b as i64}));
            }
            _ => (),
        }
    }

    fn drop(&mut self, w: &World, s: u64) {
        w.call(self.th, "drop", s, 0, "");
        self.wait.remove(&s);
        self.hs.remove(&s);
        w.ret(self.th, "ok");
    }

    fn finish(&mut self, w: &World) {
        let mut ids: Vec<u64> = self.hs.keys().cloned().collect();
        ids.sort();
        for s in ids {
            self.drop(w, s)
        }
    }
}

struct End {
    th: usize,
    rx: Option<Rx>,
    over: bool,
    wait: Option<Arc<Flag>>,
    acks: Acks,
}

impl End {
    fn step(&mut self, w: &World, op: &[Value]) {
        let th = self.th;
        if self.over || self.rx.is_none() {
            return;
        }
        let rx = self.rx.as_mut().unwrap();
        match op[0].as_str().unwrap() {
            "recv" => {
                w.call(th, "recv", 0, 0, "");
                let r = shuttle::future::block_on(futures::future::poll_fn(|cx| rx.poll(cx)));
                self.over = !show(w, &self.acks, th, r);
            }
            "try" => {
                w.call(th, "try", 0, 0, "");
                let r = match rx {
                    Rx::B(r) => r.try_next(),
                    Rx::U(r) => r.try_next(),
                    Rx::P(r) => match r.try_next() {
                        Ok(m) => Ok(m.map(|m| (Priority::Normal, m))),
                        Err(_) => return w.ret(th, "empty"),
                    },
                };
                match r {
                    Ok(r) => self.over = !show(w, &self.acks, th, r),
                    Err(_) => w.ret(th, "empty"),
                }
            }
            "poll" => {
                let f = Arc::new(Flag(AtomicBool::new(false)));
                w.call(th, "poll", 0, 0, "");
                self.wait = None;
                match rx.poll(&mut Context::from_waker(&waker(f.clone()))) {
                    Poll::Ready(r) => self.over = !show(w, &self.acks, th, r),
                    Poll::Pending => {
                        self.wait = Some(f);
                        w.ret(th, "empty")
                    }
                }
            }
            "close" => {
                w.call(th, "close", 0, 0, "");
                self.wait = None; // the closing task knows
                match rx {
                    Rx::B(r) => r.close(),
                    Rx::U(r) => r.close(),
                    Rx::P(r) => r.close(),
                }
                w.ret(th, "ok");
            }
            "rdrop" => {
                w.call(th, "rdrop", 0, 0, "");
                self.wait = None;
                self.rx = None;
                w.ret(th, "ok");
                self.acks.0.lock().unwrap().1 = true;
                self.acks.1.notify_all();
            }
            _ => (),
        }
    }
}

fn make(buf: i64, other: bool) -> (Tx, Rx) {
    if other {
        let (t, r) = plain::channel(buf as usize);
        (Tx::G(t), Rx::P(r))
    } else if buf >= 1000 {
        let (t, r) = unbounded();
        (Tx::U(t), Rx::U(r))
    } else {
        let (t, r) = bounded(buf as usize);
        (Tx::B(t), Rx::B(r))
    }
}

fn body(v: &Value, w: &World) {
    let acks = acks();
    let (tx, rx) = make(v["buf"].as_i64().unwrap(), v["plain"].as_bool().unwrap());
    let mut end = End { th: 0, rx: Some(rx), over: false, wait: None, acks: acks.clone() };
    let prog = |k: &str| -> Vec<Vec<Value>> { v[k].as_array().unwrap().iter().map(|o| o.as_array().unwrap().clone()).collect() };
    let kinds: Vec<bool> = v["buffered"].as_array().unwrap().iter().map(|x| x.as_bool().unwrap()).collect();
    // handle 0 belongs to the main task, which makes one for each sending task
    let mut main = Side { th: 0, hs: HashMap::new(), wait: HashMap::new(), n: 0, sent: 0, acks: acks.clone() };
    main.hs.insert(0, tx);
    let mut sides = vec![];
    for (j, buffered) in kinds.iter().enumerate() {
        main.step(w, &[json!("clone"), json!(0)]);
        let id = *main.hs.keys().max().unwrap();
        let tx = main.hs.remove(&id).unwrap();
        let tx = match tx {
            // the plain handle next to the buffer is never used, it would count as a sender of its own
            Tx::B(s) if *buffered => {
                let n = w.handles.fetch_add(1, SeqCst);
                w.call(0, "clone", id, n, "");
                let probe = s.clone();
                w.ret(0, "ok");
                let mut side = Side { th: j + 1, hs: HashMap::new(), wait: HashMap::new(), n: 0, sent: 0, acks: acks.clone() };
                side.hs.insert(id, Tx::F(PriorityBuffer::new(s), probe));
                sides.push((side, Some(n)));
                continue;
            }
            Tx::G(s) => {
                let n = w.handles.fetch_add(1, SeqCst);
                w.call(0, "clone", id, n, "");
                let probe = s.clone();
                w.ret(0, "ok");
                let mut side = Side { th: j + 1, hs: HashMap::new(), wait: HashMap::new(), n: 0, sent: 0, acks: acks.clone() };
                side.hs.insert(id, Tx::P(Buffer::new(s), probe));
                sides.push((side, Some(n)));
                continue;
            }
            x => x,
        };
        let mut side = Side { th: j + 1, hs: HashMap::new(), wait: HashMap::new(), n: 0, sent: 0, acks: acks.clone() };
        side.hs.insert(id, tx);
        sides.push((side, None));
    }
    main.step(w, &[json!("drop"), json!(0)]);
    let progs = v["tx"].as_array().unwrap();
    if v["seq"].as_bool().unwrap() {
        // one task plays all roles, in the given order
        for o in prog("order") {
            let who = o[0].as_u64().unwrap() as usize;
            let quiet = |end: &End, sides: &Vec<(Side, Option<u64>)>| {
                let rxw = end.wait.as_ref().map(|f| !f.0.load(SeqCst)).unwrap_or(false);
                let mut txw = vec![];
                for (s, _) in sides {
                    for (id, f) in &s.wait {
                        if !f.0.load(SeqCst) {
                            txw.push(*id);
                        }
                    }
                }
                txw.sort();
                w.ev(json!({"e": "quiet", "rxw": rxw, "txw": txw}));
            };
            if who == 0 {
                end.step(w, &o[1..]);
            } else {
                sides[who - 1].0.step(w, &o[1..]);
            }
            quiet(&end, &sides);
        }
        for (s, probe) in &mut sides {
            finish(s, *probe, w);
        }
        while !end.over && end.rx.is_some() {
            end.step(w, &[json!("recv")]);
        }
        end.rx = None;
    } else {
        let mut js = vec![];
        for (j, (mut side, probe)) in sides.into_iter().enumerate() {
            let ops: Vec<Vec<Value>> = progs[j].as_array().unwrap().iter().map(|o| o.as_array().unwrap().clone()).collect();
            let w = w.clone();
            js.push(shuttle::thread::spawn(move || {
                for o in &ops {
                    side.step(&w, o);
                }
                finish(&mut side, probe, &w);
            }));
        }
        for o in prog("rx") {
            if o[0] == "hold" {
                // takes nothing until all senders are done
                for j in js.drain(..) {
                    j.join().unwrap();
                }
            } else {
                end.step(w, &o);
            }
        }
        while !end.over && end.rx.is_some() {
            end.step(w, &[json!("recv")]);
        }
        for j in js {
            j.join().unwrap();
        }
        end.rx = None;
    }
    w.ev(json!({"e": "fin", "left": w.live.load(SeqCst)}));
}

fn finish(side: &mut Side, probe: Option<u64>, w: &World) {
    if let Some(n) = probe {
        let ids: Vec<u64> = side.hs.keys().cloned().collect();
        for s in ids {
            let (b, p): (Box<dyn std::any::Any>, Box<dyn std::any::Any>) = match side.hs.remove(&s) {
                Some(Tx::F(b, p)) => (Box::new(b), Box::new(p)),
                Some(Tx::P(b, p)) => (Box::new(b), Box::new(p)),
                _ => continue,
            };
            w.call(side.th, "drop", n, 0, "");
            drop(p);
            w.ret(side.th, "ok");
            w.call(side.th, "drop", s, 0, "");
            drop(b);
            w.ret(side.th, "ok");
        }
    } else {
        side.finish(w);
    }
}

fn run(v: &Value) -> Vec<Value> {
    let runs = v["runs"].as_u64().unwrap();
    let seed = v["seed"].as_u64().unwrap();
    let mut out: Vec<Value> = vec![];
    let mut seen = std::collections::HashSet::new();
    for k in 0..runs {
        let w = World {
            log: Arc::new(Mutex::new(vec![])),
            live: Arc::new(AtomicI64::new(0)),
            handles: Arc::new(AtomicU64::new(1)),
        };
        let (w2, v2) = (w.clone(), v.clone());
        let mut cfg = shuttle::Config::new();
        cfg.failure_persistence = shuttle::FailurePersistence::None;
        cfg.max_steps = shuttle::MaxSteps::FailAfter(200_000);
        let f = move || body(&v2, &w2);
        let r = catch_unwind(AssertUnwindSafe(|| {
            if k % 3 == 2 {
                shuttle::Runner::new(shuttle::scheduler::PctScheduler::new_from_seed(seed + k, 3, 1), cfg).run(f);
            } else {
                shuttle::Runner::new(shuttle::scheduler::RandomScheduler::new_from_seed(seed + k, 1), cfg).run(f);
            }
        }));
        let mut ev = w.log.lock().map(|l| l.clone()).unwrap_or_else(|e| e.into_inner().clone());
        if let Err(e) = r {
            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            ev.push(json!({"e": "stuck", "why": msg.chars().take(300).collect::<String>()}));
        }
        let s = serde_json::to_string(&ev).unwrap();
        if seen.insert(s) {
            out.push(json!({"id": format!("{}/{}", v["id"].as_str().unwrap(), k), "buf": v["buf"], "threads": 1 + v["tx"].as_array().unwrap().len(), "ev": ev}));
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let inp = std::fs::File::open(&args[2]).expect("input");
    let mut out = BufWriter::new(std::fs::File::create(&args[3]).expect("output"));
    std::panic::set_hook(Box::new(|_| {}));
    for line in BufReader::new(inp).lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).expect("json");
        for r in run(&v) {
            serde_json::to_writer(&mut out, &r).unwrap();
            out.write_all(b"\n").unwrap();
        }
        out.write_all(b"#done\n").unwrap();
        out.flush().unwrap();
    }
}
