//! Runs programs on real services over a simulated network and writes down what happens.
mod clock;
mod entropy;
mod forge;
mod node;
mod sim;

use serde_json::{json, Value};
use sim::Sim;
use std::{
    cell::RefCell,
    collections::HashMap,
    future::Future,
    io::Write,
    pin::Pin,
    sync::{atomic::Ordering, Arc},
    task::{Context, Poll, Waker},
    time::Duration,
};
use tentacle::{context::SessionContext, service::ServiceControl};

pub struct World {
    pub log: Vec<Value>,
    pub sim: Option<Sim>,
    pub reactions: Vec<(Value, i64)>,
    pub controls: Vec<ServiceControl>,
    pub contexts: HashMap<(usize, usize), Arc<SessionContext>>,
    pub conns: HashMap<(usize, usize), i64>,
    pub next_msg: u32,
    pub protos: Vec<Vec<i64>>,
    pub next_task: u32,
    pub start: Option<tokio::time::Instant>,
    pub t0: u64,
    pub held: Vec<(usize, sim::End)>,
    /// protocols (node, session, protocol) whose messages are not read for now
    pub holds: HashMap<(usize, usize, usize), Vec<Waker>>,
    /// ends of the streams last handed to spawned readers
    pub turns: HashMap<(usize, usize, usize), futures::channel::oneshot::Receiver<()>>,
    pub over: bool,
}

thread_local! {
    pub static W: RefCell<World> = RefCell::new(World {
        log: Vec::new(), sim: None, reactions: Vec::new(), controls: Vec::new(),
        contexts: HashMap::new(), conns: HashMap::new(), next_msg: 0, protos: Vec::new(), next_task: 0, start: None, t0: 0,
        held: Vec::new(), holds: HashMap::new(), turns: HashMap::new(), over: false,
    });
}

pub fn now() -> u64 {
    W.with(|w| match w.borrow().start {
        Some(s) => (tokio::time::Instant::now() - s).as_millis() as u64,
        None => 0,
    })
}

/// std's monotonic clock follows the runtime's virtual one
pub fn sync_clock() {
    let d = W.with(|w| {
        let w = w.borrow();
        w.start
            .map(|s| w.t0 + (tokio::time::Instant::now() - s).as_nanos() as u64)
    });
    if let Some(d) = d {
        clock::NOW_NS.store(d, Ordering::SeqCst);
    }
}

pub fn rec(mut v: Value) {
    let t = now();
    W.with(|w| {
        let mut w = w.borrow_mut();
        if !w.over {
            v["t"] = json!(t);
            w.log.push(v);
        }
    })
}

/// like rec, but what was recorded since `at` comes after it
pub fn rec_at(at: usize, mut v: Value) {
    let t = now();
    W.with(|w| {
        v["t"] = json!(t);
        w.borrow_mut().log.insert(at, v);
    })
}

pub fn recorded() -> usize {
    W.with(|w| w.borrow().log.len())
}

pub fn sim() -> Sim {
    W.with(|w| w.borrow().sim.clone().unwrap())
}

struct Yield(bool);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub fn yield_now() -> impl Future<Output = ()> {
    Yield(false)
}

/// Ends when nobody holds the protocol
pub struct Held(pub usize, pub usize, pub usize);

impl Future for Held {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        W.with(|w| match w.borrow_mut().holds.get_mut(&(self.0, self.1, self.2)) {
            Some(wakers) => {
                wakers.push(cx.waker().clone());
                Poll::Pending
            }
            None => Poll::Ready(()),
        })
    }
}

fn i(v: &Value, k: &str, d: i64) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(d)
}

async fn drive(prog: Value) {
    let sim = sim();
    let nodes = prog["nodes"].as_array().unwrap().clone();
    for (n, cfg) in nodes.iter().enumerate() {
        node::start(n, cfg).await;
    }
    for op in prog["ops"].as_array().unwrap() {
        let n = i(op, "n", 0) as usize;
        match op["op"].as_str().unwrap() {
            "run" => {
                for _ in 0..i(op, "k", 1) {
                    yield_now().await;
                }
            }
            "sleep" => tokio::time::delay_for(Duration::from_millis(i(op, "ms", 1) as u64)).await,
            "settle" => {
                tokio::time::delay_for(Duration::from_millis(i(op, "ms", 2000) as u64)).await;
                let pend: Vec<Value> = W.with(|w| {
                    let w = w.borrow();
                    let mut ks: Vec<_> = w.contexts.iter().collect();
                    ks.sort_by_key(|(k, _)| **k);
                    ks.iter()
                        .map(|(k, c)| {
                            // a count below zero wraps round
                            let p = c.pending_data_size();
                            let p = if p > (1 << 30) { -1 } else { p as i64 };
                            json!({"n": k.0, "s": k.1, "d": p})
                        })
                        .collect()
                });
                let mut ends = Vec::new();
                for (c, conn) in sim.0.lock().unwrap().conns.iter().enumerate() {
                    for d in 0..2 {
                        if conn.kept[d] {
                            ends.push(json!({"c": c, "d": if d == 0 { "out" } else { "in" }}));
                        }
                    }
                }
                rec(json!({"e": "quiet", "pend": pend, "ends": ends}));
            }
            "cut" => {
                if let Some(c) = conn_of(op) {
                    sim.cut(c);
                    rec(json!({"e": "cut", "c": c}));
                }
            }
            "stall" => {
                if let Some(c) = conn_of(op) {
                    let on = i(op, "on", 1) == 1;
                    for d in 0..2 {
                        if i(op, "dir", 2) == 2 || i(op, "dir", 2) == d {
                            sim.stall(c, d as usize, on);
                            rec(json!({"e": "stall", "c": c, "d": d, "on": on}));
                        }
                    }
                }
            }
            "hold" => {
                let (s, p, on) = (i(op, "s", 1), i(op, "p", 1), i(op, "on", 1) == 1);
                let k = (n, s as usize, p as usize);
                rec(json!({"e": "hold", "n": n, "s": s, "p": p, "on": on}));
                let wakers = W.with(|w| {
                    let mut w = w.borrow_mut();
                    if on {
                        w.holds.entry(k).or_default();
                        None
                    } else {
                        w.holds.remove(&k)
                    }
                });
                wakers.unwrap_or_default().into_iter().for_each(Waker::wake);
            }
            "dark" => {
                let mut net = sim.0.lock().unwrap();
                if i(op, "on", 1) == 1 {
                    net.dark.push(n);
                } else {
                    net.dark.retain(|x| *x != n);
                    for w in std::mem::take(&mut net.waiting) {
                        w.wake()
                    }
                }
                drop(net);
                rec(json!({"e": "dark", "n": n, "on": i(op, "on", 1) == 1}));
            }
            "noaddr" => sim.0.lock().unwrap().noaddr += 1,
            "acceptfail" => {
                let port = i(op, "port", 1000);
                if sim.fail_accept(n, port as u16) {
                    rec(json!({"e": "acceptfail", "n": n, "port": port, "addr": node::listen_addr(n, op).to_string()}));
                }
            }
            "raw" => {
                // somebody connects who does not speak the protocol
                let addr = node::sock(i(op, "to", 0) as usize, i(op, "v", 1) as u8, i(op, "port", 1000) as u16);
                if let Ok((c, mut end)) = sim.raw_connect(nodes.len(), addr) {
                    if let Some(bytes) = op.get("data").and_then(|d| d.as_array()) {
                        use tokio::io::AsyncWriteExt;
                        let b: Vec<u8> = bytes.iter().map(|x| x.as_u64().unwrap() as u8).collect();
                        let _ = end.write_all(&b).await;
                    }
                    if i(op, "hold", 1) == 1 {
                        W.with(|w| w.borrow_mut().held.push((c, end)));
                    }
                }
            }
            "forge" => {
                let addr = node::sock(i(op, "to", 0) as usize, i(op, "v", 1) as u8, i(op, "port", 1000) as u16);
                forge::start(addr, nodes.len(), op);
            }
            "rawsend" => {
                let held = W.with(|w| w.borrow_mut().held.pop());
                if let Some((c, mut end)) = held {
                    use tokio::io::AsyncWriteExt;
                    let b: Vec<u8> = op["data"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
                    // what is written includes the end of the conversation
                    rec(json!({"e": "cut", "c": c}));
                    let _ = end.write_all(&b).await;
                    W.with(|w| w.borrow_mut().held.push((c, end)));
                }
            }
            _ => {
                if i(op, "count", 1) > 1 {
                    for _ in 0..i(op, "count", 1) {
                        node::exec(n, op, node::Here::Nowhere);
                    }
                } else {
                    node::exec(n, op, node::Here::Nowhere)
                }
            }
        }
    }
}

fn conn_of(op: &Value) -> Option<usize> {
    let n = sim().0.lock().unwrap().conns.len();
    let c = i(op, "c", -1);
    if c < 0 {
        // counted from the latest
        n.checked_sub((-c) as usize)
    } else if (c as usize) < n {
        Some(c as usize)
    } else {
        None
    }
}

fn run(prog: Value) -> Vec<Value> {
    let seed = i(&prog, "seed", 1) as u64;
    entropy::seed(seed);
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let s = Sim::new(
                seed,
                i(&prog, "cap", 65536) as usize,
                i(&prog, "chunk", 0) == 1,
                i(&prog, "jitter", 0) as u64,
            );
            s.0.lock().unwrap().naps = i(&prog, "naps", 0) as u64;
            s.0.lock().unwrap().eager = i(&prog, "eager", 0) == 1;
            let mut rt = tokio::runtime::Builder::new()
                .basic_scheduler()
                .enable_time()
                .build()
                .unwrap();
            tentacle::runtime::sim::install(Arc::new(s.clone()));
            W.with(|w| {
                let mut w = w.borrow_mut();
                w.sim = Some(s);
                w.reactions = prog["react"]
                    .as_array()
                    .map(|a| a.iter().map(|r| (r.clone(), 0)).collect())
                    .unwrap_or_default();
            });
            rt.block_on(async {
                tokio::time::pause();
                W.with(|w| {
                    let mut w = w.borrow_mut();
                    w.start = Some(tokio::time::Instant::now());
                    w.t0 = clock::NOW_NS.load(Ordering::SeqCst);
                });
                let _ = tokio::spawn(drive(prog)).await;
            });
            // what falls when the runtime goes is not part of the run
            W.with(|w| w.borrow_mut().over = true);
            let (log, held, ctls, ctxs) = W.with(|w| {
                let mut w = w.borrow_mut();
                (
                    std::mem::take(&mut w.log),
                    std::mem::take(&mut w.held),
                    std::mem::take(&mut w.controls),
                    std::mem::take(&mut w.contexts),
                )
            });
            drop(held);
            drop(ctls);
            drop(ctxs);
            rt.block_on(async {});
            drop(rt);
            log
        })
        .unwrap()
        .join()
        .unwrap()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::read_to_string(&args[2]).unwrap();
    let mut out = std::fs::File::create(&args[3]).unwrap();
    if std::env::var("LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let beat = Arc::new(std::sync::atomic::AtomicU64::new(0));
    {
        let beat = beat.clone();
        std::thread::spawn(move || {
            let mut last = 0;
            loop {
                std::thread::sleep(Duration::from_secs(60));
                let b = beat.load(Ordering::SeqCst);
                if b == last {
                    eprintln!("watchdog");
                    std::process::exit(99);
                }
                last = b;
            }
        });
    }
    for line in input.lines() {
        let prog: Value = serde_json::from_str(line).unwrap();
        let id = prog["id"].clone();
        let nodes: Vec<Value> = prog["nodes"].as_array().unwrap().clone();
        let ev = run(prog);
        beat.fetch_add(1, Ordering::SeqCst);
        let cfg: Vec<Value> = nodes.iter().map(node::summary).collect();
        writeln!(out, "{}", json!({"id": format!("{}/0", id.as_str().unwrap()), "nodes": cfg, "ev": ev})).unwrap();
        writeln!(out, "#done").unwrap();
    }
}
