//! One service with one of the protocols, or with a peer that says what the program wants.
use crate::{
    i, rec, sim,
    wire::{address, decode, encode, garbage, identity, keypair, peer_index, plain, text},
    W,
};
use bytes::Bytes;
use futures::prelude::*;
use serde_json::{json, Value};
use std::{
    net::SocketAddr,
    pin::Pin,
    task::{Context, Poll},
    time::Duration,
};
use tentacle::{
    builder::{MetaBuilder, ServiceBuilder},
    context::{ProtocolContext, ProtocolContextMutRef},
    multiaddr::Multiaddr,
    secio::PeerId,
    service::*,
    traits::{ServiceHandle, ServiceProtocol},
    utils::multiaddr_to_socketaddr,
    yamux::Config as YamuxConfig,
    ProtocolId, SessionId,
};
use tentacle_discovery as disc;
use tentacle_identify as ident;
use tentacle_ping as ping;

fn with_port(a: &Multiaddr) -> (String, String) {
    let p = plain(a).to_string();
    let at = p.rfind('/').unwrap() + 1;
    (p[..at].to_string(), identity(a))
}

fn conn_of(n: usize, addr: &Multiaddr, ty: SessionType) -> i64 {
    let s: SocketAddr = multiaddr_to_socketaddr(addr).unwrap();
    if ty.is_inbound() {
        return s.port() as i64 - 10000;
    }
    let sim = sim();
    let net = sim.0.lock().unwrap();
    net.conns
        .iter()
        .rposition(|c| c.from == n && c.addr == s)
        .map(|c| c as i64)
        .unwrap_or(-1)
}

fn up(n: usize, cx: &ProtocolContextMutRef) {
    let s = cx.session;
    let (pre, post) = with_port(&s.address);
    W.with(|w| w.borrow_mut().open.insert((n, s.id.value()), None));
    rec(json!({"e": "up", "n": n, "s": s.id.value(), "c": conn_of(n, &s.address, s.ty), "out": s.ty.is_outbound(),
        "addr": text(&s.address), "plain": text(&plain(&s.address)), "pre": pre, "post": post,
        "key": s.remote_pubkey.as_ref().map(|k| peer_index(&k.peer_id())).unwrap_or(-1)}));
}

fn down(n: usize, cx: &ProtocolContextMutRef) {
    W.with(|w| w.borrow_mut().open.remove(&(n, cx.session.id.value())));
    rec(json!({"e": "down", "n": n, "s": cx.session.id.value()}));
}

/// hands everything on to the protocol and writes it down first
struct Watched<P>(usize, &'static str, P);

impl<P: ServiceProtocol> ServiceProtocol for Watched<P> {
    fn init(&mut self, cx: &mut ProtocolContext) {
        self.2.init(cx)
    }
    fn connected(&mut self, cx: ProtocolContextMutRef, version: &str) {
        up(self.0, &cx);
        self.2.connected(cx, version)
    }
    fn disconnected(&mut self, cx: ProtocolContextMutRef) {
        down(self.0, &cx);
        self.2.disconnected(cx)
    }
    fn received(&mut self, cx: ProtocolContextMutRef, data: Bytes) {
        rec(json!({"e": "got", "n": self.0, "s": cx.session.id.value(), "m": decode(self.1, &data)}));
        self.2.received(cx, data)
    }
    fn notify(&mut self, cx: &mut ProtocolContext, token: u64) {
        rec(json!({"e": "tick", "n": self.0, "tok": token}));
        self.2.notify(cx, token)
    }
}

/// a peer that follows the program; with `auto` it answers pings at once
struct Scripted(usize, &'static str, bool);

impl ServiceProtocol for Scripted {
    fn init(&mut self, _: &mut ProtocolContext) {}
    fn connected(&mut self, cx: ProtocolContextMutRef, _: &str) {
        up(self.0, &cx)
    }
    fn disconnected(&mut self, cx: ProtocolContextMutRef) {
        down(self.0, &cx)
    }
    fn received(&mut self, cx: ProtocolContextMutRef, data: Bytes) {
        let (n, s, m) = (self.0, cx.session.id.value(), decode(self.1, &data));
        rec(json!({"e": "got", "n": n, "s": s, "m": m}));
        if m["k"] == "ping" {
            let x = m["x"].as_str().unwrap().parse().unwrap();
            W.with(|w| w.borrow_mut().open.insert((n, s), Some(x)));
            if self.2 {
                put(n, self.1, s, &json!({"k": "pong", "x": "last"}));
            }
        }
    }
}

fn put(n: usize, kind: &str, s: usize, m: &Value) {
    let mut m = m.clone();
    let (open, ctl) = W.with(|w| {
        let w = w.borrow();
        (w.open.get(&(n, s)).cloned(), w.controls[n].clone())
    });
    let last = match open {
        Some(l) => l,
        None => return,
    };
    if m["x"] == "last" || m["x"] == "near" {
        match last {
            Some(x) => m["x"] = json!(if m["x"] == "last" { x } else { x - 1 }.to_string()),
            None => return,
        }
    }
    let data = if m["k"] == "raw" {
        let b = garbage(kind, m["how"].as_str().unwrap());
        m = json!({"k": "raw"});
        b
    } else {
        encode(&m)
    };
    rec(json!({"e": "put", "n": n, "s": s, "m": m}));
    let _ = ctl.send_message_to(SessionId::new(s), ProtocolId::new(1), data.into());
}

pub fn exec(n: usize, kind: &str, op: &Value) {
    let ctl = W.with(|w| w.borrow().controls[n].clone());
    let s = i(op, "s", 1) as usize;
    match op["op"].as_str().unwrap() {
        "listen" => {
            let _ = ctl.listen(format!("/ip4/10.0.{}.1/tcp/{}", n, i(op, "port", 1000)).parse().unwrap());
        }
        "dial" => {
            let a = format!("/ip4/10.0.{}.{}/tcp/{}", i(op, "to", 0), i(op, "v", 1), i(op, "port", 1000));
            let _ = ctl.dial(a.parse().unwrap(), TargetProtocol::All);
        }
        "disconnect" => {
            if W.with(|w| w.borrow().open.contains_key(&(n, s))) {
                rec(json!({"e": "disc", "n": n, "s": s}));
                let _ = ctl.disconnect(SessionId::new(s));
            }
        }
        "put" => put(n, kind, s, &op["m"]),
        x => panic!("unknown operation {}", x),
    }
}

// ---------------------------------------------------------------- what the protocols ask their users

fn cb(n: usize, v: Value) {
    let mut v = v;
    v["n"] = json!(n);
    rec(json!({"e": "cb", "cb": v}));
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}

fn addresses(v: &Value) -> Vec<Multiaddr> {
    strings(v).iter().map(|x| address(x)).collect()
}

struct PingUser(usize);

impl ping::Callback for PingUser {
    fn received_ping(&mut self, cx: ProtocolContextMutRef) {
        cb(self.0, json!({"k": "ping", "s": cx.session.id.value()}))
    }
    fn received_pong(&mut self, cx: ProtocolContextMutRef, time: Duration) {
        cb(self.0, json!({"k": "pong", "s": cx.session.id.value(), "d": time.as_millis() as u64}))
    }
    fn timeout(&mut self, _: &mut ProtocolContext, id: SessionId) {
        cb(self.0, json!({"k": "timeout", "s": id.value()}))
    }
    fn unexpected_error(&mut self, cx: ProtocolContextMutRef) {
        cb(self.0, json!({"k": "bad", "s": cx.session.id.value()}))
    }
}

#[derive(Clone)]
struct IdUser {
    n: usize,
    listens: Vec<Multiaddr>,
    id: String,
    disc: Vec<String>,
}

impl IdUser {
    fn verdict(&self, why: &str) -> ident::MisbehaveResult {
        if self.disc.iter().any(|d| d == why) {
            ident::MisbehaveResult::Disconnect
        } else {
            ident::MisbehaveResult::Continue
        }
    }
}

impl ident::Callback for IdUser {
    fn received_identify(&mut self, cx: &mut ProtocolContextMutRef, id: &[u8]) -> ident::MisbehaveResult {
        cb(self.n, json!({"k": "ident", "s": cx.session.id.value(), "id": String::from_utf8_lossy(id)}));
        self.verdict("ident")
    }
    fn identify(&mut self) -> &[u8] {
        self.id.as_bytes()
    }
    fn local_listen_addrs(&mut self) -> Vec<Multiaddr> {
        self.listens.clone()
    }
    fn add_remote_listen_addrs(&mut self, peer: &PeerId, addrs: Vec<Multiaddr>) {
        let a: Vec<String> = addrs.iter().map(text).collect();
        cb(self.n, json!({"k": "listens", "peer": peer_index(peer), "as": a}))
    }
    fn add_observed_addr(&mut self, peer: &PeerId, addr: Multiaddr, ty: SessionType) -> ident::MisbehaveResult {
        cb(self.n, json!({"k": "observed", "peer": peer_index(peer), "a": text(&addr), "out": ty.is_outbound()}));
        self.verdict("observed")
    }
    fn misbehave(&mut self, peer: &PeerId, kind: ident::Misbehavior) -> ident::MisbehaveResult {
        let (why, x) = match kind {
            ident::Misbehavior::DuplicateReceived => ("dup", 0),
            ident::Misbehavior::Timeout => ("timeout", 0),
            ident::Misbehavior::InvalidData => ("invalid", 0),
            ident::Misbehavior::TooManyAddresses(x) => ("many", x),
        };
        cb(self.n, json!({"k": "mis", "peer": peer_index(peer), "why": why, "x": x}));
        self.verdict(why)
    }
}

struct DiscUser {
    n: usize,
    store: Vec<Multiaddr>,
    invalid: Vec<Multiaddr>,
    disc: Vec<String>,
}

impl DiscUser {
    fn keep(&mut self, a: Multiaddr) {
        if !self.store.contains(&a) {
            self.store.push(a)
        }
    }
}

impl disc::AddressManager for DiscUser {
    fn is_valid_addr(&self, addr: &Multiaddr) -> bool {
        !self.invalid.contains(addr)
    }
    fn add_new_addr(&mut self, s: SessionId, addr: Multiaddr) {
        cb(self.n, json!({"k": "add", "s": s.value(), "as": [text(&addr)]}));
        self.keep(addr)
    }
    fn add_new_addrs(&mut self, s: SessionId, addrs: Vec<Multiaddr>) {
        let a: Vec<String> = addrs.iter().map(text).collect();
        cb(self.n, json!({"k": "adds", "s": s.value(), "as": a}));
        addrs.into_iter().for_each(|a| self.keep(a))
    }
    fn misbehave(&mut self, s: SessionId, kind: disc::Misbehavior) -> disc::MisbehaveResult {
        let (why, x) = match kind {
            disc::Misbehavior::DuplicateGetNodes => ("dupget", 0),
            disc::Misbehavior::DuplicateFirstNodes => ("dupnodes", 0),
            disc::Misbehavior::TooManyItems { length, .. } => ("items", length),
            disc::Misbehavior::TooManyAddresses(x) => ("many", x),
            disc::Misbehavior::InvalidData => ("invalid", 0),
        };
        cb(self.n, json!({"k": "mis", "s": s.value(), "why": why, "x": x}));
        if self.disc.iter().any(|d| d == why) {
            disc::MisbehaveResult::Disconnect
        } else {
            disc::MisbehaveResult::Continue
        }
    }
    fn get_random(&mut self, n: usize) -> Vec<Multiaddr> {
        self.store.iter().take(n).cloned().collect()
    }
}

fn handler(n: usize, kind: &str, cfg: &Value) -> Box<dyn ServiceProtocol + Send + Unpin> {
    let ms = |k: &str| Duration::from_millis(i(cfg, k, 1000) as u64);
    let kind = match kind {
        "ping" => "ping",
        "id" => "id",
        _ => "disc",
    };
    if !cfg["real"].as_bool().unwrap() {
        return Box::new(Scripted(n, kind, cfg["auto"].as_bool().unwrap()));
    }
    match kind {
        "ping" => Box::new(Watched(n, kind, ping::PingHandler::new(ms("interval"), ms("timeout"), PingUser(n)))),
        "id" => {
            let user = IdUser {
                n,
                listens: addresses(&cfg["listens"]),
                id: cfg["id"].as_str().unwrap().to_string(),
                disc: strings(&cfg["disc"]),
            };
            Box::new(Watched(n, kind, ident::IdentifyProtocol::new(user).global_ip_only(cfg["global"].as_bool().unwrap())))
        }
        _ => {
            let user = DiscUser {
                n,
                store: addresses(&cfg["store"]),
                invalid: addresses(&cfg["invalid"]),
                disc: strings(&cfg["disc"]),
            };
            Box::new(Watched(n, kind, disc::DiscoveryProtocol::new(user, Some(ms("cycle")), Some(ms("interval")))))
        }
    }
}

struct Handle;

impl ServiceHandle for Handle {}

struct Running(Option<Service<Handle>>, Box<dyn tentacle::runtime::sim::Gate>);

impl Future for Running {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if !self.1.enter() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let r = self.0.as_mut().unwrap().poll_next_unpin(cx);
        if let Poll::Ready(None) = r {
            self.0.take();
        }
        self.1.leave();
        match r {
            Poll::Ready(Some(())) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Poll::Ready(None) => Poll::Ready(()),
            Poll::Pending => Poll::Pending,
        }
    }
}

pub fn start(n: usize, kind: &str, cfg: &Value) {
    let mut y = YamuxConfig::default();
    y.enable_keepalive = false;
    let mut b = ServiceBuilder::default().forever(true).yamux_config(y);
    if i(cfg, "key", -1) >= 0 {
        b = b.key_pair(keypair(i(cfg, "key", 0)));
    }
    let (k, c) = (kind.to_string(), cfg.clone());
    let mut once = Some(());
    let meta = MetaBuilder::default()
        .id(ProtocolId::new(1))
        .name(|_| "app".to_string())
        .service_handle(move || {
            once.take().unwrap();
            ProtocolHandle::Callback(handler(n, &k, &c))
        });
    let svc = b.insert_protocol(meta.build()).build(Handle);
    W.with(|w| w.borrow_mut().controls.push(svc.control().clone()));
    crate::sim::NODE.with(|c| c.set(n));
    let gate = tentacle::runtime::sim::Simulator::gate(&sim());
    crate::sim::NODE.with(|c| c.set(usize::MAX));
    tokio::spawn(Running(Some(svc), gate));
}
