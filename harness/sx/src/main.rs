//! Runs handshakes and encrypted streams over wires in somebody's hands and writes down what happens.
mod entropy;
mod forge;

use forge::Persona;
use futures::{future::BoxFuture, task::ArcWake, FutureExt};
use serde_json::{json, Value};
use std::{
    collections::{HashMap, HashSet, VecDeque},
    io::{self, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    pin::Pin,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Waker},
    time::Duration,
};
use tentacle_secio::{
    codec::secure_stream::SecureStream, crypto::cipher::CipherType, error::SecioError,
    handshake::Config, Digest, KeyAgreement, PublicKey, SecioKeyPair,
};
use tokio::io::{AsyncRead, AsyncWrite};

const KEYS: usize = 10;

#[derive(Default)]
struct Line {
    inq: VecDeque<u8>,
    eof: bool,
    out: Vec<u8>,
    room: Option<usize>,
    closed: bool,
    rwake: Option<Waker>,
    wwake: Option<Waker>,
    chunk: u64,
}

impl Line {
    fn some(&mut self, n: usize) -> usize {
        if self.chunk == 0 || n == 0 {
            return n;
        }
        self.chunk = self.chunk.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let k = self.chunk >> 33;
        // mostly small pieces, now and then a large one
        n.min(1 + (if k & 3 == 0 { k >> 2 } else { (k >> 2) % 7 }) as usize % n.max(1))
    }
}

struct Wire(Arc<Mutex<Line>>);

impl AsyncRead for Wire {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut l = self.0.lock().unwrap();
        if l.inq.is_empty() {
            if l.eof {
                return Poll::Ready(Ok(0));
            }
            l.rwake = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = l.inq.len().min(buf.len());
        let n = l.some(n);
        for b in buf[..n].iter_mut() {
            *b = l.inq.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Wire {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut l = self.0.lock().unwrap();
        if l.closed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let n = l.room.unwrap_or(usize::max_value()).min(buf.len());
        if n == 0 && !buf.is_empty() {
            l.wwake = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let n = l.some(n);
        if let Some(r) = l.room.as_mut() {
            *r -= n;
        }
        l.out.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.lock().unwrap().closed = true;
        Poll::Ready(Ok(()))
    }
}

struct Flag(AtomicBool);

impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst)
    }
}

type Outcome = Result<(SecureStream<Wire>, PublicKey, Vec<u8>), SecioError>;

struct Run {
    key: usize,
    line: Arc<Mutex<Line>>,
    flag: Arc<Flag>,
    fut: Option<BoxFuture<'static, Outcome>>,
    stream: Option<SecureStream<Wire>>,
    max: usize,
    parsed: usize,
    frames: Vec<Vec<u8>>,
    got: usize,
    from: usize,
    text: Vec<u8>,
    marks: Vec<usize>,
    read: usize,
    over: bool,
}

struct World {
    runs: Vec<Run>,
    mine: HashMap<i64, (Persona, Option<ring::agreement::EphemeralPrivateKey>, Vec<u8>)>,
    seen: HashSet<Vec<u8>>,
    log: Vec<Value>,
}

fn i(v: &Value, k: &str, d: i64) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or(d)
}

fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("")
}

fn names(v: &Value, k: &str) -> Option<Vec<String>> {
    v.get(k)
        .and_then(|x| x.as_array())
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
}

fn pattern(r: usize, p: usize) -> u8 {
    let z = ((r as u64 + 1) << 40 ^ p as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (z >> 32) as u8 ^ (z >> 51) as u8
}

fn find(hay: &[u8], needle: &[u8]) -> Option<usize> {
    hay.windows(needle.len()).position(|w| w == needle)
}

fn framed(body: &[u8]) -> Vec<u8> {
    let mut v = (body.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(body);
    v
}

impl World {
    fn rec(&mut self, v: Value) {
        self.log.push(v)
    }

    fn start(&mut self, op: &Value) {
        let key = i(op, "key", 1) as usize;
        let max = i(op, "max", 1 << 23) as usize;
        let mut cfg = Config::new(SecioKeyPair::secp256k1_raw_key(forge::secret(key)).unwrap()).max_frame_length(max);
        if let Some(a) = names(op, "ag") {
            let l: Vec<KeyAgreement> = a
                .iter()
                .map(|x| match x.as_str() {
                    "P-256" => KeyAgreement::EcdhP256,
                    "P-384" => KeyAgreement::EcdhP384,
                    _ => KeyAgreement::X25519,
                })
                .collect();
            cfg = cfg.key_agreements(&l);
        }
        if let Some(a) = names(op, "ci") {
            let l: Vec<CipherType> = a
                .iter()
                .map(|x| match x.as_str() {
                    "AES-128-GCM" => CipherType::Aes128Gcm,
                    "AES-256-GCM" => CipherType::Aes256Gcm,
                    _ => CipherType::ChaCha20Poly1305,
                })
                .collect();
            cfg = cfg.ciphers(&l);
        }
        if let Some(a) = names(op, "di") {
            let l: Vec<Digest> = a
                .iter()
                .map(|x| if x == "SHA256" { Digest::Sha256 } else { Digest::Sha512 })
                .collect();
            cfg = cfg.digests(&l);
        }
        let line = Arc::new(Mutex::new(Line { chunk: i(op, "chunk", 0) as u64, ..Default::default() }));
        if i(op, "room", -1) >= 0 {
            line.lock().unwrap().room = Some(i(op, "room", 0) as usize);
        }
        let wire = Wire(line.clone());
        self.runs.push(Run {
            key,
            line,
            flag: Arc::new(Flag(AtomicBool::new(true))),
            fut: Some(cfg.handshake(wire).boxed()),
            stream: None,
            max,
            parsed: 0,
            frames: Vec::new(),
            got: 0,
            from: 0,
            text: Vec::new(),
            marks: Vec::new(),
            read: 0,
            over: false,
        });
        let def = |k: &str, d: &[&str]| names(op, k).unwrap_or_else(|| d.iter().map(|x| x.to_string()).collect());
        let v = json!({"e": "start", "r": self.runs.len(), "key": key, "max": max, "free": i(op, "room", -1) < 0,
            "ag": def("ag", &["P-256", "P-384", "X25519"]),
            "ci": def("ci", &["AES-128-GCM", "AES-256-GCM", "CHACHA20_POLY1305"]),
            "di": def("di", &["SHA256", "SHA512"])});
        self.rec(v);
    }

    /// everything that can move, moves
    fn settle(&mut self) {
        loop {
            let mut moved = false;
            for r in 0..self.runs.len() {
                let run = &mut self.runs[r];
                if let Some(mut f) = run.fut.take() {
                    if run.flag.0.swap(false, Ordering::SeqCst) {
                        moved = true;
                        let w = futures::task::waker(run.flag.clone());
                        let res = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut Context::from_waker(&w))));
                        self.frames(r);
                        let run = &mut self.runs[r];
                        match res {
                            Err(_) => self.rec(json!({"e": "panic", "r": r + 1})),
                            Ok(Poll::Pending) => run.fut = Some(f),
                            Ok(Poll::Ready(Ok((stream, key, epub)))) => {
                                run.stream = Some(stream);
                                let k = (0..KEYS).find(|k| &forge::public(*k, "c") == key.inner_ref());
                                let v = json!({"e": "done", "r": r + 1, "ok": true,
                                    "key": k.map(|k| k as i64).unwrap_or(-1), "elen": epub.len(), "why": ""});
                                self.rec(v)
                            }
                            Ok(Poll::Ready(Err(e))) => {
                                run.over = true;
                                self.rec(json!({"e": "done", "r": r + 1, "ok": false, "key": -1, "elen": 0, "why": e.to_string()}))
                            }
                        }
                    } else {
                        run.fut = Some(f);
                    }
                }
                self.frames(r);
            }
            if !moved {
                break;
            }
        }
        let st: Vec<Value> = self.runs.iter().map(|r| json!(r.fut.is_some())).collect();
        self.rec(json!({"e": "quiet", "run": st}));
    }

    fn frames(&mut self, r: usize) {
        loop {
            let run = &mut self.runs[r];
            let body = {
                let l = run.line.lock().unwrap();
                let o = &l.out[run.parsed..];
                if o.len() < 4 {
                    break;
                }
                let n = u32::from_be_bytes([o[0], o[1], o[2], o[3]]) as usize;
                if o.len() < 4 + n {
                    break;
                }
                o[4..4 + n].to_vec()
            };
            run.parsed += 4 + body.len();
            run.frames.push(body.clone());
            let n = run.frames.len();
            let mut clear = false;
            if n > 3 {
                let start: usize = run.frames[3..n - 1].iter().map(|f| f.len().saturating_sub(16)).sum();
                let len = body.len().saturating_sub(16).min(run.text.len().saturating_sub(start));
                let part = &run.text[start..start + len];
                clear = len >= 12 && find(&body, &part[len - 12..]).is_some();
            }
            let v = json!({"e": "sent", "r": r + 1, "n": n, "len": body.len(), "dup": n > 2 && !self.seen.insert(body), "clear": clear});
            self.rec(v);
        }
    }

    fn frame(&self, t: &Value) -> Option<Vec<u8>> {
        let r = i(t, "r", 0);
        self.runs.get((r - 1) as usize)?.frames.get(i(t, "f", 1) as usize - 1).cloned()
    }

    /// the bytes a term stands for, with their header
    fn bytes(&mut self, t: &mut Value, to: usize) -> Option<Vec<u8>> {
        match s(t, "k") {
            "copy" => self.frame(t).map(|b| framed(&b)),
            "bad" => {
                let orig = self.frame(t)?;
                let mut b = orig.clone();
                for m in t["mods"].as_array().unwrap().clone() {
                    let at = i(&m, "at", 0) as usize;
                    match s(&m, "m") {
                        "flip" if !b.is_empty() => {
                            let at = at % b.len();
                            b[at] ^= (i(&m, "x", 1) as u8).max(1)
                        }
                        "set" if !b.is_empty() => {
                            let at = at % b.len();
                            b[at] = i(&m, "x", 0) as u8
                        }
                        "cut" => b.truncate(at % (b.len() + 1)),
                        "behead" => {
                            let at = at % (b.len() + 1);
                            b.drain(..at);
                        }
                        "ext" => b.extend(vec![i(&m, "x", 0) as u8; 1 + at % 64]),
                        "ins" => {
                            let at = at % (b.len() + 1);
                            b.insert(at, i(&m, "x", 0) as u8)
                        }
                        "key" => {
                            // another identity in its place
                            let owner = self.runs[i(t, "r", 1) as usize - 1].key;
                            let old = forge::public(owner, "c");
                            if let Some(p) = find(&b, &old) {
                                b[p..p + 33].copy_from_slice(&forge::public(i(&m, "x", 8) as usize, "c"))
                            }
                        }
                        "name" => {
                            // other preferences in their place
                            if let Some(p) = find(&b, s(&m, "a").as_bytes()) {
                                let n = s(&m, "b").as_bytes();
                                b[p..p + n.len()].copy_from_slice(n)
                            }
                        }
                        "mix" => {
                            // the second half of somebody else's
                            if let Some(o) = self.frame(&m) {
                                let h = at % (b.len() + 1);
                                b.truncate(h);
                                b.extend(o.iter().skip(h));
                            }
                        }
                        _ => (),
                    }
                }
                // a change that changes nothing
                if b == orig {
                    *t = json!({"k": "copy", "r": t["r"], "f": t["f"]});
                }
                Some(framed(&b))
            }
            "junk" => {
                let mut x = i(t, "x", 1) as u64;
                let n = i(t, "n", 0) as usize;
                let b: Vec<u8> = (0..n)
                    .map(|_| {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        (x >> 40) as u8
                    })
                    .collect();
                Some(framed(&b))
            }
            "over" => {
                let mut v = ((self.runs[to].max + i(t, "n", 1) as usize) as u32).to_be_bytes().to_vec();
                v.extend(vec![7; i(t, "x", 0) as usize]);
                Some(v)
            }
            "prop" => {
                let m = i(t, "m", 1);
                let nonce = match i(t, "nonce", 0) {
                    0 => vec![m as u8; 16],
                    n => forge::field(self.runs.get(n as usize - 1)?.frames.get(0)?, 0)?,
                };
                let p = Persona {
                    key: i(t, "key", 8) as usize,
                    form: s(t, "form").to_string(),
                    nonce,
                    ag: s(t, "ag").to_string(),
                    ci: s(t, "ci").to_string(),
                    di: s(t, "di").to_string(),
                };
                let b = p.proposal();
                self.mine.insert(m, (p, None, Vec::new()));
                Some(framed(&b))
            }
            "exch" => {
                let m = i(t, "m", 1);
                let (p, _, _) = self.mine.get(&m)?;
                let (p, prop) = (p.clone(), p.proposal());
                let theirs = self.runs[i(t, "b", to as i64 + 1) as usize - 1].frames.get(0)?.clone();
                let alg = if s(t, "alg").is_empty() { p.ag.clone() } else { s(t, "alg").to_string() };
                let (eph, own) = forge::ephemeral(&alg);
                let other = match i(t, "epub", 0) {
                    0 => own.clone(),
                    r => forge::field(self.runs.get(r as usize - 1)?.frames.get(1)?, 0)?,
                };
                let signed = if i(t, "signed", 0) == 1 { own.clone() } else { other.clone() };
                let (a, b) = if i(t, "swap", 0) == 1 { (&theirs, &prop) } else { (&prop, &theirs) };
                let body = forge::exchange(i(t, "sign", 8) as usize, a, b, &signed, &other);
                self.mine.insert(m, (p, Some(eph), own));
                Some(framed(&body))
            }
            "enc" => {
                let m = i(t, "m", 1);
                let (p, eph, own) = self.mine.remove(&m)?;
                let run = &self.runs[to];
                let nonce = forge::field(run.frames.get(0)?, 0)?;
                let epub = forge::field(run.frames.get(1)?, 0)?;
                let mut data = nonce.clone();
                if i(t, "wrong", 0) == 1 {
                    data[3] ^= 1
                }
                let b = forge::echo(&p, eph?, &forge::public(run.key, "c"), &nonce, &epub, &data, i(t, "swap", 0) == 1)?;
                self.mine.insert(m, (p, None, own));
                Some(framed(&b))
            }
            _ => None,
        }
    }

    fn put(&mut self, to: usize, b: &[u8]) {
        let mut l = self.runs[to].line.lock().unwrap();
        l.inq.extend(b);
        if let Some(w) = l.rwake.take() {
            w.wake()
        }
    }

    fn give(&mut self, to: usize, mut t: Value) -> bool {
        if to >= self.runs.len() || self.runs[to].line.lock().unwrap().eof {
            return false;
        }
        let b = match self.bytes(&mut t, to) {
            Some(b) => b,
            None => return false,
        };
        self.runs[to].got += 1;
        if self.runs[to].got == 2 && s(&t, "k") == "copy" {
            self.runs[to].from = i(&t, "r", 0) as usize;
        }
        self.rec(json!({"e": "give", "to": to + 1, "t": t}));
        self.put(to, &b);
        true
    }

    /// one call on a stream; None if it panicked
    fn call<R>(&mut self, r: usize, f: impl FnOnce(Pin<&mut SecureStream<Wire>>, &mut Context) -> R) -> Option<R> {
        let flag = self.runs[r].flag.clone();
        let mut st = self.runs[r].stream.take()?;
        let w = futures::task::waker(flag);
        let x = catch_unwind(AssertUnwindSafe(|| f(Pin::new(&mut st), &mut Context::from_waker(&w))));
        match x {
            Ok(x) => {
                self.runs[r].stream = Some(st);
                Some(x)
            }
            Err(_) => {
                self.rec(json!({"e": "panic", "r": r + 1}));
                self.runs[r].over = true;
                None
            }
        }
    }

    fn write(&mut self, r: usize, n: usize, same: bool) {
        if self.runs[r].stream.is_none() || self.runs[r].over {
            return;
        }
        let at = self.runs[r].text.len();
        let data: Vec<u8> = (0..n).map(|k| if same { 0x41 } else { pattern(r, at + k) }).collect();
        // what is accepted is known only afterwards, what is on the wire before
        self.runs[r].text.extend_from_slice(&data);
        if let Some(x) = self.call(r, |st, cx| st.poll_write(cx, &data)) {
            let (res, m) = match x {
                Poll::Pending => ("pend", 0),
                Poll::Ready(Ok(m)) => ("ok", m),
                Poll::Ready(Err(_)) => ("err", 0),
            };
            self.runs[r].text.truncate(at + m);
            self.runs[r].marks.push(m);
            self.rec(json!({"e": "write", "r": r + 1, "n": n, "res": res, "m": m}));
        }
        self.frames(r);
    }

    fn read(&mut self, r: usize, n: usize) -> bool {
        if self.runs[r].stream.is_none() || self.runs[r].over {
            return false;
        }
        let mut buf = vec![0u8; n];
        let flag = self.runs[r].flag.clone();
        flag.0.store(false, Ordering::SeqCst);
        let mut got = self.call(r, |st, cx| st.poll_read(cx, &mut buf));
        for _ in 0..1000 {
            // who asks to be polled again is polled again
            match got {
                Some(Poll::Pending) if flag.0.swap(false, Ordering::SeqCst) => got = self.call(r, |st, cx| st.poll_read(cx, &mut buf)),
                _ => break,
            }
        }
        if let Some(x) = got {
            let (res, m) = match x {
                Poll::Pending => ("pend", 0),
                Poll::Ready(Ok(m)) => ("ok", m),
                Poll::Ready(Err(_)) => ("err", 0),
            };
            let mut at = -1i64;
            let mut from = 0;
            if m > 0 {
                let exp = self.runs[r].read;
                let p = self.runs[r].from;
                if p > 0 && self.runs[p - 1].text.get(exp..exp + m) == Some(&buf[..m]) {
                    at = exp as i64;
                    from = p;
                } else {
                    for (k, x) in self.runs.iter().enumerate() {
                        if let Some(q) = find(&x.text, &buf[..m]) {
                            at = q as i64;
                            from = k + 1;
                        }
                    }
                }
                self.runs[r].read += m;
            }
            if res == "err" {
                self.runs[r].over = true;
            }
            self.rec(json!({"e": "read", "r": r + 1, "n": n, "res": res, "m": m, "at": at, "from": from}));
            return res == "ok" && m > 0;
        }
        false
    }

    fn step(&mut self, op: &Value) {
        let r = (i(op, "r", 1) - 1).max(0) as usize;
        match s(op, "op") {
            "start" => self.start(op),
            "give" => {
                self.give((i(op, "to", 1) - 1) as usize, op["t"].clone());
            }
            "relay" => {
                // the next frames of one run to the other, as many as there are
                let (a, b) = ((i(op, "from", 1) - 1) as usize, (i(op, "to", 2) - 1) as usize);
                if a < self.runs.len() && b < self.runs.len() {
                    let mut left = i(op, "n", 1000);
                    while left > 0 && self.runs[b].got < self.runs[a].frames.len() {
                        let f = self.runs[b].got + 1;
                        if !self.give(b, json!({"k": "copy", "r": a + 1, "f": f})) {
                            break;
                        }
                        left -= 1;
                    }
                }
            }
            "eof" => {
                let to = (i(op, "to", 1) - 1) as usize;
                if to >= self.runs.len() {
                    return;
                }
                if op.get("t").is_some() {
                    let mut t = op["t"].clone();
                    if let Some(b) = self.bytes(&mut t, to) {
                        let n = i(op, "n", 0) as usize % b.len();
                        self.put(to, &b[..n]);
                    }
                }
                let mut l = self.runs[to].line.lock().unwrap();
                l.eof = true;
                if let Some(w) = l.rwake.take() {
                    w.wake()
                }
                drop(l);
                self.rec(json!({"e": "eof", "to": to + 1}));
            }
            _ if r >= self.runs.len() => (),
            "room" => {
                let mut l = self.runs[r].line.lock().unwrap();
                let n = i(op, "n", -1);
                l.room = if n < 0 { None } else { Some(n as usize) };
                if let Some(w) = l.wwake.take() {
                    w.wake()
                }
                drop(l);
                self.rec(json!({"e": "room", "r": r + 1, "free": n < 0}));
            }
            "write" => self.write(r, i(op, "n", 1) as usize, i(op, "same", 0) == 1),
            "flush" | "close" => {
                if self.runs[r].stream.is_none() || self.runs[r].over {
                    return;
                }
                let close = s(op, "op") == "close";
                if let Some(x) = self.call(r, |st, cx| if close { st.poll_shutdown(cx) } else { st.poll_flush(cx) }) {
                    self.frames(r);
                    let res = match x {
                        Poll::Pending => "pend",
                        Poll::Ready(Ok(())) => "ok",
                        Poll::Ready(Err(_)) => "err",
                    };
                    if close && res == "ok" {
                        self.runs[r].over = true
                    }
                    self.rec(json!({"e": s(op, "op"), "r": r + 1, "res": res}));
                }
            }
            "read" => {
                self.read(r, i(op, "n", 1) as usize);
            }
            "drain" => {
                // reads until there is nothing left
                let mut k = 0;
                while self.read(r, (i(op, "n", 64) as usize).max(1)) && k < 300 {
                    k += 1
                }
            }
            "burst" => self.burst(r, op),
            _ => (),
        }
    }

    /// the same message over and over: is it ever the same on the wire?
    fn burst(&mut self, r: usize, op: &Value) {
        let p = self.runs[r].from;
        if self.runs[r].stream.is_none() || self.runs[r].over || p == 0 || self.runs[p - 1].stream.is_none() || self.runs[p - 1].over {
            return;
        }
        let p = p - 1;
        let data = vec![0x41u8; 16];
        let k = i(op, "k", 1000);
        let (mut frames, mut dup, mut clear, mut read) = (0, false, false, 0);
        let mut mark = self.runs[r].line.lock().unwrap().out.len();
        let flag = self.runs[r].flag.clone();
        let w = futures::task::waker(flag);
        let mut cx = Context::from_waker(&w);
        let (mut a, mut b) = (self.runs[r].stream.take().unwrap(), self.runs[p].stream.take().unwrap());
        for _ in 0..k {
            match Pin::new(&mut a).poll_write(&mut cx, &data) {
                Poll::Ready(Ok(16)) => (),
                _ => break,
            }
            let _ = Pin::new(&mut a).poll_flush(&mut cx);
            let mut l = self.runs[r].line.lock().unwrap();
            let new = l.out[mark..].to_vec();
            mark = l.out.len();
            if l.out.len() > 1 << 20 {
                l.out.clear();
                mark = 0;
            }
            drop(l);
            if new.len() < 4 {
                break;
            }
            frames += 1;
            clear |= find(&new, &data[..12]).is_some();
            dup |= !self.seen.insert(new[4..].to_vec());
            self.put(p, &new);
            let mut buf = [0u8; 32];
            match Pin::new(&mut b).poll_read(&mut cx, &mut buf) {
                Poll::Ready(Ok(16)) if buf[..16] == data[..] => read += 1,
                _ => break,
            }
        }
        for x in [r, p].iter() {
            let run = &mut self.runs[*x];
            run.over = true;
            run.parsed = run.line.lock().unwrap().out.len();
        }
        self.rec(json!({"e": "burst", "r": r + 1, "k": k, "frames": frames, "dup": dup, "clear": clear, "read": read}));
    }
}

fn run(prog: &Value) -> Vec<Value> {
    entropy::seed(i(prog, "seed", 1) as u64);
    let mut w = World { runs: Vec::new(), mine: HashMap::new(), seen: HashSet::new(), log: Vec::new() };
    for op in prog["ops"].as_array().unwrap() {
        w.step(op);
        w.settle();
    }
    w.log
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let input = std::fs::read_to_string(&args[2]).unwrap();
    let mut out = std::fs::File::create(&args[3]).unwrap();
    if std::env::var("LOUD").is_err() {
        // some cannot be caught; say at least where it was
        std::panic::set_hook(Box::new(|p| eprintln!("{}", p)));
    }
    let beat = Arc::new(AtomicU64::new(0));
    {
        let beat = beat.clone();
        std::thread::spawn(move || {
            let mut last = 0;
            loop {
                std::thread::sleep(Duration::from_secs(60));
                let b = beat.load(Ordering::SeqCst);
                if b == last {
                    eprintln!("watchdog");
                    std::process::exit(99);
                }
                last = b;
            }
        });
    }
    for line in input.lines() {
        let prog: Value = serde_json::from_str(line).unwrap();
        let id = prog["id"].clone();
        let ev = run(&prog);
        beat.fetch_add(1, Ordering::SeqCst);
        let strict = !args[0].ends_with("sxf");
        writeln!(out, "{}", json!({"id": format!("{}/0", id.as_str().unwrap()), "strict": strict, "ev": ev})).unwrap();
        writeln!(out, "#done").unwrap();
    }
}
