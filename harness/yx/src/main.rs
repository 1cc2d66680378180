//! Executes yamux programs on the real tokio-yamux code under a deterministic,
//! waker-accurate scheduler and records what happened at each endpoint.
//! Nothing is judged here: the recorded traces are evaluated by TLC.
mod clock;
mod codec;
mod exec;
mod pipe;

use serde_json::Value;
use std::io::{BufRead, BufReader, BufWriter, Write};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    let inp = std::fs::File::open(&args[2]).expect("input");
    let mut out = BufWriter::new(std::fs::File::create(&args[3]).expect("output"));
    log::set_logger(&exec::Points).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|_| {}));
    // a program that never returns must not hang the check
    let tick = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let seen = tick.clone();
    std::thread::spawn(move || {
        let (mut last, mut idle) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let now = seen.load(std::sync::atomic::Ordering::SeqCst);
            idle = if now == last { idle + 1 } else { 0 };
            last = now;
            if idle > 60 {
                std::process::exit(99);
            }
        }
    });
    for line in BufReader::new(inp).lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let v: Value = serde_json::from_str(&line).expect("json");
        let res = match cmd {
            "run" => exec::run(&v),
            "codec" => codec::run(&v),
            _ => panic!("unknown command"),
        };
        for r in res {
            serde_json::to_writer(&mut out, &r).unwrap();
            out.write_all(b"\n").unwrap();
        }
        out.write_all(b"#done\n").unwrap();
        out.flush().unwrap();
        tick.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    }
    out.flush().unwrap();
}
