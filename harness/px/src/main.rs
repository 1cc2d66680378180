//! Runs the ping, identify and discovery protocols of /repo/protocols on real
//! services over a simulated network and writes down what happens.
#[path = "../../tx/src/clock.rs"]
mod clock;
#[path = "../../tx/src/entropy.rs"]
mod entropy;
mod node;
#[path = "../../tx/src/sim.rs"]
mod sim;
mod wire;

use serde_json::{json, Value};
use sim::Sim;
use std::{
    cell::RefCell,
    collections::HashMap,
    future::Future,
    io::Write,
    pin::Pin,
    sync::{atomic::Ordering, Arc},
    task::{Context, Poll},
    time::Duration,
};
use tentacle::service::ServiceControl;

#[derive(Default)]
pub struct World {
    pub log: Vec<Value>,
    pub sim: Option<Sim>,
    pub controls: Vec<ServiceControl>,
    /// sessions whose protocol is open, and the last number a ping brought
    pub open: HashMap<(usize, usize), Option<u32>>,
    pub start: Option<tokio::time::Instant>,
    pub t0: u64,
    pub over: bool,
}

thread_local! {
    pub static W: RefCell<World> = RefCell::new(World::default());
}

pub fn now() -> u64 {
    W.with(|w| match w.borrow().start {
        Some(s) => (tokio::time::Instant::now() - s).as_millis() as u64,
        None => 0,
    })
}

/// std's monotonic clock follows the runtime's virtual one
pub fn sync_clock() {
    let d = W.with(|w| {
        let w = w.borrow();
        w.start
            .map(|s| w.t0 + (tokio::time::Instant::now() - s).as_nanos() as u64)
    });
    if let Some(d) = d {
        clock::NOW_NS.store(d, Ordering::SeqCst);
    }
}

pub fn rec(mut v: Value) {
    let t = now();
    W.with(|w| {
        let mut w = w.borrow_mut();
        if !w.over && v["e"] != "conn" {
            v["t"] = json!(t);
            w.log.push(v);
        }
    })
}

pub fn sim() -> Sim {
    W.with(|w| w.borrow().sim.clone().unwrap())
}

struct Yield(bool);

impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

pub fn yield_now() -> impl Future<Output = ()> {
    Yield(false)
}

pub fn i(v: &Value, k: &str, d: i64) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(d)
}

async fn drive(prog: Value) {
    let sim = sim();
    let kind = prog["kind"].as_str().unwrap();
    for (n, cfg) in prog["nodes"].as_array().unwrap().iter().enumerate() {
        node::start(n, kind, cfg);
    }
    for op in prog["ops"].as_array().unwrap() {
        let n = i(op, "n", 0) as usize;
        match op["op"].as_str().unwrap() {
            "run" => {
                for _ in 0..i(op, "k", 1) {
                    yield_now().await;
                }
            }
            "sleep" => tokio::time::delay_for(Duration::from_millis(i(op, "ms", 1) as u64)).await,
            "settle" => {
                tokio::time::delay_for(Duration::from_millis(i(op, "ms", 500) as u64)).await;
                // time goes on when what this moment's timers set going has come to its end
                tokio::time::delay_for(Duration::from_millis(1)).await;
                rec(json!({"e": "quiet"}));
            }
            "cut" => {
                let c = i(op, "c", 0) as usize;
                if c < sim.0.lock().unwrap().conns.len() {
                    sim.cut(c);
                    rec(json!({"e": "cut", "c": c}));
                }
            }
            "stall" => {
                let c = i(op, "c", 0) as usize;
                if c < sim.0.lock().unwrap().conns.len() {
                    for d in 0..2 {
                        sim.stall(c, d, i(op, "on", 1) == 1);
                    }
                }
            }
            _ => node::exec(n, kind, op),
        }
    }
}

fn run(prog: Value) -> Vec<Value> {
    let seed = i(&prog, "seed", 1) as u64;
    entropy::seed(seed);
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let s = Sim::new(
                seed,
                i(&prog, "cap", 65536) as usize,
                i(&prog, "chunk", 0) == 1,
                i(&prog, "jitter", 0) as u64,
            );
            s.0.lock().unwrap().naps = i(&prog, "naps", 0) as u64;
            let mut rt = tokio::runtime::Builder::new()
                .basic_scheduler()
                .enable_time()
                .build()
                .unwrap();
            tentacle::runtime::sim::install(Arc::new(s.clone()));
            W.with(|w| w.borrow_mut().sim = Some(s));
            rt.block_on(async {
                tokio::time::pause();
                W.with(|w| {
                    let mut w = w.borrow_mut();
                    w.start = Some(tokio::time::Instant::now());
                    w.t0 = clock::NOW_NS.load(Ordering::SeqCst);
                });
                let _ = tokio::spawn(drive(prog)).await;
            });
            // what falls when the runtime goes is not part of the run
            let (log, ctls) = W.with(|w| {
                let mut w = w.borrow_mut();
                w.over = true;
                (std::mem::take(&mut w.log), std::mem::take(&mut w.controls))
            });
            drop(ctls);
            rt.block_on(async {});
            drop(rt);
            log
        })
        .unwrap()
        .join()
        .unwrap()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::read_to_string(&args[2]).unwrap();
    let mut out = std::fs::File::create(&args[3]).unwrap();
    if std::env::var("LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let beat = Arc::new(std::sync::atomic::AtomicU64::new(0));
    {
        let beat = beat.clone();
        std::thread::spawn(move || {
            let mut last = 0;
            loop {
                std::thread::sleep(Duration::from_secs(60));
                let b = beat.load(Ordering::SeqCst);
                if b == last {
                    eprintln!("watchdog");
                    std::process::exit(99);
                }
                last = b;
            }
        });
    }
    for line in input.lines() {
        let prog: Value = serde_json::from_str(line).unwrap();
        let id = prog["id"].as_str().unwrap().to_string();
        let (kind, nodes, tab) = (prog["kind"].clone(), prog["nodes"].clone(), prog["tab"].clone());
        let ev = run(prog);
        beat.fetch_add(1, Ordering::SeqCst);
        writeln!(out, "{}", json!({"id": format!("{}/0", id), "kind": kind, "nodes": nodes, "tab": tab, "ev": ev})).unwrap();
        writeln!(out, "#done").unwrap();
    }
}
