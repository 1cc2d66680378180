//! One service: its configuration, handlers that record, and the operations on it.
use crate::{i, rec, sim, W};
use bytes::{BufMut, Bytes, BytesMut};
use futures::prelude::*;
use serde_json::{json, Value};
use std::{
    net::{IpAddr, Ipv4Addr, SocketAddr},
    pin::Pin,
    sync::Arc,
    task::{Context, Poll},
    time::Duration,
};
use tentacle::{
    builder::{MetaBuilder, ServiceBuilder},
    context::{ProtocolContext, ProtocolContextMutRef, ServiceContext, SessionContext},
    error::*,
    multiaddr::{Multiaddr, Protocol},
    secio::{PeerId, PublicKey, SecioKeyPair},
    service::*,
    traits::{ProtocolSpawn, ServiceHandle, ServiceProtocol, SessionProtocol},
    utils::multiaddr_to_socketaddr,
    yamux::Config as YamuxConfig,
    ProtocolId, SubstreamReadPart,
};

const KEYS: i64 = 6;

fn keypair(k: i64) -> SecioKeyPair {
    SecioKeyPair::secp256k1_raw_key([k as u8 + 1; 32]).unwrap()
}

fn key_index(key: &PublicKey) -> i64 {
    (0..KEYS)
        .find(|k| &keypair(*k).public_key() == key)
        .unwrap_or(-2)
}

fn peer_index(addr: &Multiaddr) -> i64 {
    addr.iter()
        .find_map(|p| match p {
            Protocol::P2P(b) => {
                let id = PeerId::from_bytes(b.into_owned()).ok()?;
                Some((0..KEYS).find(|k| keypair(*k).peer_id() == id).unwrap_or(-2))
            }
            _ => None,
        })
        .unwrap_or(-1)
}

/// the address without the identity
fn plain(addr: &Multiaddr) -> String {
    let m: Multiaddr = addr
        .iter()
        .filter(|p| !matches!(p, Protocol::P2P(_)))
        .collect();
    m.to_string()
}

pub fn sock(node: usize, v: u8, port: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, node as u8, v)), port)
}

pub fn listen_addr(n: usize, op: &Value) -> Multiaddr {
    dial_addr(n, op, 1)
}

fn dial_addr(to: usize, op: &Value, v: u8) -> Multiaddr {
    let mut s = match op.get("host").and_then(|h| h.as_str()) {
        Some(h) => format!("{}/tcp/{}", h, i(op, "port", 1000)),
        None => format!("/ip4/10.0.{}.{}/tcp/{}", to, v, i(op, "port", 1000)),
    };
    match op.get("kind").and_then(|k| k.as_str()) {
        Some("ws") => s += "/ws",
        Some("wss") => s += "/wss",
        Some("tls") => s += "/tls/x",
        Some("dns") => s = s.replace("/ip4/", "/dns4/"),
        Some("dnsws") => s = s.replace("/ip4/", "/dns4/") + "/ws",
        Some("udp") => s = s.replace("/tcp/", "/udp/"),
        Some("bare") => s = s[s.find("/tcp").unwrap()..].to_string(),
        _ => {}
    }
    let mut a: Multiaddr = s.parse().unwrap();
    let peer = i(op, "peer", -1);
    if peer >= 0 {
        a.push(Protocol::P2P(keypair(peer).peer_id().into_bytes().into()));
    }
    a
}

/// the socket address, also of a numeric name
fn sock_of(addr: &Multiaddr) -> Option<SocketAddr> {
    let mut it = addr.iter();
    match (it.next(), it.next()) {
        (Some(Protocol::DNS4(h)), Some(Protocol::TCP(p))) => Some(SocketAddr::new(h.parse().ok()?, p)),
        _ => multiaddr_to_socketaddr(addr),
    }
}

/// "tcp", "ws", or "none" for addresses no transport serves
fn transport(op: &Value) -> &'static str {
    match op.get("kind").and_then(|k| k.as_str()) {
        Some("ws") | Some("dnsws") => "ws",
        Some("dns") | None => "tcp",
        _ => "none",
    }
}

/// which connection a session runs on
fn conn_of(n: usize, addr: &Multiaddr, ty: SessionType) -> i64 {
    let s = match sock_of(addr) {
        Some(s) => s,
        None => return -1,
    };
    if ty.is_inbound() {
        return s.port() as i64 - 10000;
    }
    let sim = sim();
    let net = sim.0.lock().unwrap();
    net.conns
        .iter()
        .rposition(|c| c.from == n && c.addr == s)
        .map(|c| c as i64)
        .unwrap_or(-1)
}

fn session(n: usize, c: &SessionContext) -> Value {
    // an address can be dialed again later: the connection is looked up once
    let known = W.with(|w| w.borrow().conns.get(&(n, c.id.value())).cloned());
    let conn = known.unwrap_or_else(|| conn_of(n, &c.address, c.ty));
    W.with(|w| w.borrow_mut().conns.insert((n, c.id.value()), conn));
    json!({"n": n, "s": c.id.value(), "c": conn, "dir": if c.ty.is_inbound() { "in" } else { "out" },
        "addr": plain(&c.address), "peer": peer_index(&c.address),
        "key": c.remote_pubkey.as_ref().map(key_index).unwrap_or(-1)})
}

fn with(mut v: Value, add: Value) -> Value {
    for (k, x) in add.as_object().unwrap() {
        v[k] = x.clone();
    }
    v
}

// ---------------------------------------------------------------- messages

const MAGIC: u8 = 0xa5;

fn payload(id: u32, size: usize) -> Bytes {
    if size == 0 {
        return Bytes::new();
    }
    let mut b = BytesMut::with_capacity(size.max(9));
    b.put_u8(MAGIC);
    b.put_u32(id);
    b.put_u32(size as u32);
    for k in 9..size {
        b.put_u8((id as usize * 31 + k * 7) as u8);
    }
    b.freeze()
}

/// message number (-1: damaged) and the transformations applied to it
fn decode(data: &[u8]) -> (i64, String) {
    let mut tr = String::new();
    let mut d = data;
    while let Some(&x) = d.first() {
        if x == MAGIC {
            break;
        }
        tr.push(x as char);
        d = &d[1..];
    }
    if d.is_empty() {
        return (0, tr);
    }
    if d.len() < 9 {
        return (-1, tr);
    }
    let id = u32::from_be_bytes([d[1], d[2], d[3], d[4]]);
    let size = u32::from_be_bytes([d[5], d[6], d[7], d[8]]) as usize;
    if payload(id, size.min(1 << 26)) == d {
        (id as i64, tr)
    } else {
        (-1, tr)
    }
}

// ---------------------------------------------------------------- operations

fn target_protocol(v: &Value) -> TargetProtocol {
    match v {
        Value::Array(a) => TargetProtocol::Multi(
            a.iter()
                .map(|x| ProtocolId::new(x.as_u64().unwrap() as usize))
                .collect(),
        ),
        Value::Number(x) => TargetProtocol::Single(ProtocolId::new(x.as_u64().unwrap() as usize)),
        _ => TargetProtocol::All,
    }
}

/// the protocols a target stands for
fn want(n: usize, v: Option<&Value>) -> Value {
    match v {
        Some(Value::Array(_)) => v.unwrap().clone(),
        Some(Value::Number(_)) => json!([v.unwrap()]),
        _ => W.with(|w| json!(w.borrow().protos[n])),
    }
}

fn result(r: Result<(), SendErrorKind>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(SendErrorKind::BrokenPipe) => "broken",
        Err(SendErrorKind::WouldBlock) => "block",
    }
}

struct TaskGuard(usize, u32, bool);

impl Drop for TaskGuard {
    fn drop(&mut self) {
        if !self.2 {
            rec(json!({"e": "task", "n": self.0, "i": self.1, "k": "cancel"}));
        }
    }
}

/// the context a callback was given, where there is one
#[derive(Clone, Copy)]
pub enum Here<'a> {
    Nowhere,
    Service(&'a ServiceContext),
    Handler(&'a ProtocolContextMutRef<'a>),
}

/// The asynchronous call either is done at once or goes on by itself
fn later<F>(call: F) -> Result<(), SendErrorKind>
where
    F: Future<Output = Result<(), SendErrorKind>> + Send + 'static,
{
    let mut call = Box::pin(call);
    match (&mut call).now_or_never() {
        Some(r) => r,
        None => {
            tokio::spawn(async move {
                let _ = call.await;
            });
            Ok(())
        }
    }
}

pub fn exec(n: usize, op: &Value, here: Here) {
    let via = i(op, "via", 0);
    let narrow = i(op, "nar", 0) == 1;
    let ctl = W.with(|w| w.borrow().controls[n].clone());
    let sid = (i(op, "s", 1) as usize).into();
    let pid = ProtocolId::new(i(op, "p", 1) as usize);
    let ms = Duration::from_millis(i(op, "ms", 100) as u64);
    let name = op["op"].as_str().unwrap();
    let base = json!({"e": "ctl", "n": n, "op": name});
    // requests for a session that may open while the request is under way are
    // not made: which one comes first could not be told
    let early = |s: i64| s > 0 && s < 100 && W.with(|w| !w.borrow().contexts.contains_key(&(n, s as usize)));
    let single = match name {
        "disconnect" | "openp" | "closep" => true,
        "send" => op.get("ss").is_none(),
        "notify" | "unnotify" => i(op, "s", 0) != 0,
        _ => false,
    };
    if single && early(i(op, "s", 1)) {
        return;
    }
    if let Some(Value::Array(a)) = op.get("ss") {
        if a.iter().any(|s| early(s.as_i64().unwrap())) {
            return;
        }
    }
    // all ways to ask for the same: a control, an asynchronous one, or the callback's context
    macro_rules! call {
        ($f:ident($($a:expr),*)) => {
            match (via, here) {
                (1, _) => {
                    let mut c = ServiceAsyncControl::from(ctl);
                    later(async move { c.$f($($a),*).await })
                }
                (2, Here::Service(c)) => c.$f($($a),*),
                (2, Here::Handler(c)) => c.$f($($a),*),
                _ => ctl.$f($($a),*),
            }
        };
    }
    match name {
        "dial" => {
            let a = dial_addr(i(op, "to", 0) as usize, op, i(op, "v", 1) as u8);
            let sa = sock_of(&a).filter(|_| transport(op) != "none");
            let info = json!({"addr": plain(&a), "tr": transport(op), "peer": i(op, "peer", -1), "want": want(n, op.get("protos")),
                "sa": sa.map(|s| s.to_string()).unwrap_or_default(), "port": i(op, "port", 1000),
                "to": sa.map(|s| crate::sim::node_of(&s) as i64).unwrap_or(-1)});
            let t = target_protocol(&op["protos"]);
            let r = result(call!(dial(a, t)));
            rec(with(with(base, info), json!({"r": r})));
        }
        "listen" => {
            let a = dial_addr(n, op, i(op, "v", 1) as u8);
            // the listener is known by the address it is bound to
            let b = a.to_string().replace("/dns4/", "/ip4/");
            let port = if transport(op) == "none" { -1 } else { i(op, "port", 1000) };
            let info = json!({"addr": b, "port": port, "tr": transport(op)});
            let r = result(call!(listen(a)));
            rec(with(with(base, info), json!({"r": r})));
        }
        "disconnect" => {
            let r = result(call!(disconnect(sid)));
            rec(with(base, json!({"s": i(op, "s", 1), "r": r})));
        }
        "send" => {
            let m = W.with(|w| {
                let mut w = w.borrow_mut();
                w.next_msg += 1;
                w.next_msg
            });
            let size = i(op, "size", 20) as usize;
            let size = if size == 0 { 0 } else { size.max(9) };
            let m = if size == 0 { 0 } else { m };
            let data = payload(m, size);
            let (target, to) = match op.get("ss") {
                Some(Value::Array(a)) => (
                    TargetSession::Multi(
                        a.iter()
                            .map(|x| (x.as_u64().unwrap() as usize).into())
                            .collect(),
                    ),
                    op["ss"].clone(),
                ),
                Some(Value::String(_)) => (TargetSession::All, json!([])),
                _ => (TargetSession::Single(sid), json!([i(op, "s", 1)])),
            };
            let quick = i(op, "quick", 0) == 1;
            let single = matches!(target, TargetSession::Single(_)) && narrow;
            let r = result(match here {
                Here::Handler(c) if single && via == 2 && c.session.id == sid && c.proto_id() == pid => match quick {
                    true => c.quick_send_message(data),
                    false => c.send_message(data),
                },
                _ => match (single, quick) {
                    (true, true) => call!(quick_send_message_to(sid, pid, data)),
                    (true, false) => call!(send_message_to(sid, pid, data)),
                    (false, true) => call!(quick_filter_broadcast(target, pid, data)),
                    (false, false) => call!(filter_broadcast(target, pid, data)),
                },
            });
            rec(with(base, json!({"to": to, "all": op.get("ss").map(|x| x.is_string()).unwrap_or(false), "p": i(op, "p", 1), "m": m, "z": size, "q": quick, "r": r})));
        }
        "openp" => {
            let t = target_protocol(&op["protos"]);
            let r = result(match t {
                TargetProtocol::Single(p) if narrow => call!(open_protocol(sid, p)),
                t => call!(open_protocols(sid, t)),
            });
            rec(with(base, json!({"s": i(op, "s", 1), "want": want(n, op.get("protos")), "r": r})));
        }
        "closep" => {
            let r = result(call!(close_protocol(sid, pid)));
            rec(with(base, json!({"s": i(op, "s", 1), "p": i(op, "p", 1), "r": r})));
        }
        "notify" => {
            let tok = i(op, "tok", 1);
            let r = result(match i(op, "s", 0) {
                0 => call!(set_service_notify(pid, ms, tok as u64)),
                _ => call!(set_session_notify(sid, pid, ms, tok as u64)),
            });
            rec(with(base, json!({"s": i(op, "s", 0), "p": i(op, "p", 1), "tok": tok, "ms": i(op, "ms", 100), "r": r})));
        }
        "unnotify" => {
            let tok = i(op, "tok", 1);
            let r = result(match i(op, "s", 0) {
                0 => call!(remove_service_notify(pid, tok as u64)),
                _ => call!(remove_session_notify(sid, pid, tok as u64)),
            });
            rec(with(base, json!({"s": i(op, "s", 0), "p": i(op, "p", 1), "tok": tok, "r": r})));
        }
        "task" => {
            let id = W.with(|w| {
                let mut w = w.borrow_mut();
                w.next_task += 1;
                w.next_task
            });
            let kind = op["kind"].as_str().unwrap_or("done").to_string();
            let steps = i(op, "k", 2);
            let k2 = kind.clone();
            let task = async move {
                let mut g = TaskGuard(n, id, false);
                rec(json!({"e": "task", "n": n, "i": id, "k": "start"}));
                match k2.as_str() {
                    "sleep" => tokio::time::delay_for(ms).await,
                    "forever" => futures::future::pending().await,
                    "panic" => {
                        g.2 = true;
                        rec(json!({"e": "task", "n": n, "i": id, "k": "done"}));
                        panic!("task panics as told")
                    }
                    _ => {
                        for _ in 0..steps {
                            crate::yield_now().await
                        }
                    }
                }
                g.2 = true;
                rec(json!({"e": "task", "n": n, "i": id, "k": "done"}));
            };
            let r = result(call!(future_task(task)));
            rec(with(base, json!({"i": id, "kind": kind, "ms": i(op, "ms", 100), "r": r})));
        }
        "close" => {
            let r = result(call!(close()));
            rec(with(base, json!({ "r": r })));
        }
        "shutdown" => {
            let r = result(call!(shutdown()));
            rec(with(base, json!({ "r": r })));
        }
        "panic" => {
            rec(with(base, json!({"r": "ok", "h": op["h"], "p": op["p"], "s": op["s"], "on": op["on"]})));
            panic!("handler panics as told")
        }
        x => panic!("unknown operation {}", x),
    }
}

/// what the program wants done at this point
fn react(n: usize, h: &str, p: i64, on: &str, s: i64, here: Here) {
    let todo: Vec<Value> = W.with(|w| {
        let mut w = w.borrow_mut();
        let mut out = Vec::new();
        for (r, count) in w.reactions.iter_mut() {
            if i(r, "n", -1) == n as i64
                && r["h"] == h
                && i(r, "p", -1) == p
                && r["on"] == on
            {
                let k = *count;
                *count += 1;
                if i(r, "nth", 0) == k || i(r, "nth", 0) < 0 {
                    out.extend(r["do"].as_array().unwrap().iter().cloned());
                }
            }
        }
        out
    });
    for mut op in todo {
        if i(&op, "s", 0) < 0 {
            op["s"] = json!(s);
        }
        if op["op"] == "panic" {
            op["h"] = json!(h);
            op["p"] = json!(p);
            op["s"] = json!(s);
            op["on"] = json!(on);
        }
        match i(&op, "n", n as i64) as usize {
            m if m == n => exec(n, &op, here),
            m => exec(m, &op, Here::Nowhere),
        }
    }
}

// ---------------------------------------------------------------- handlers

struct Handle(usize);

impl ServiceHandle for Handle {
    fn handle_error(&mut self, control: &mut ServiceContext, error: ServiceError) {
        let n = self.0;
        let base = json!({"e": "err", "n": n});
        let v = match &error {
            ServiceError::DialerError { address, error } => {
                let (w, s) = match error {
                    DialerErrorKind::IoError(_) => ("io", -1),
                    DialerErrorKind::PeerIdNotMatch => ("peerid", -1),
                    DialerErrorKind::RepeatedConnection(s) => ("repeat", s.value() as i64),
                    DialerErrorKind::HandshakeError(HandshakeErrorKind::Timeout(_)) => ("timeout", -1),
                    DialerErrorKind::HandshakeError(_) => ("handshake", -1),
                    DialerErrorKind::TransportError(_) => ("transport", -1),
                };
                with(base, json!({"k": "dial", "addr": plain(address), "peer": peer_index(address), "w": w, "s": s,
                    "c": conn_of(n, address, SessionType::Outbound)}))
            }
            ServiceError::ListenError { address, error } => {
                let (w, s) = match error {
                    ListenErrorKind::IoError(_) => ("io", -1),
                    ListenErrorKind::RepeatedConnection(s) => ("repeat", s.value() as i64),
                    ListenErrorKind::TransportError(_) => ("transport", -1),
                };
                let c = if w == "repeat" { conn_of(n, address, SessionType::Inbound) } else { -1 };
                with(base, json!({"k": "listen", "addr": plain(address), "w": w, "s": s, "c": c}))
            }
            ServiceError::ProtocolSelectError { proto_name, session_context } => with(
                with(base, session(n, session_context)),
                json!({"k": "select", "name": proto_name.clone().unwrap_or_default()}),
            ),
            ServiceError::ProtocolError { id, proto_id, .. } => {
                with(base, json!({"k": "proto", "s": id.value(), "p": proto_id.value()}))
            }
            ServiceError::SessionTimeout { session_context } => {
                with(with(base, session(n, session_context)), json!({"k": "timeout"}))
            }
            ServiceError::MuxerError { session_context, .. } => {
                with(with(base, session(n, session_context)), json!({"k": "muxer"}))
            }
            ServiceError::ProtocolHandleError { proto_id, error } => {
                let (w, s) = match error {
                    ProtocolHandleErrorKind::Block(s) => ("block", s),
                    ProtocolHandleErrorKind::AbnormallyClosed(s) => ("abnormal", s),
                };
                with(base, json!({"k": "handle", "p": proto_id.value(), "w": w, "s": s.map(|s| s.value() as i64).unwrap_or(-1)}))
            }
            ServiceError::SessionBlocked { session_context } => with(
                with(base, session(n, session_context)),
                json!({"k": "blocked", "d": session_context.pending_data_size()}),
            ),
        };
        let k = v["k"].as_str().unwrap().to_string();
        let s = i(&v, "s", -1);
        rec(with(v, places(control.listens())));
        react(n, "hdl", 0, &k, s, Here::Service(control));
    }

    fn handle_event(&mut self, control: &mut ServiceContext, event: ServiceEvent) {
        let n = self.0;
        match event {
            ServiceEvent::SessionOpen { session_context } => {
                let v = session(n, &session_context);
                rec(with(with(json!({"e": "open"}), v), places(control.listens())));
                let s = session_context.id.value();
                W.with(|w| w.borrow_mut().contexts.insert((n, s), session_context));
                react(n, "hdl", 0, "open", s as i64, Here::Service(control));
            }
            ServiceEvent::SessionClose { session_context } => {
                rec(with(with(json!({"e": "close"}), session(n, &session_context)), places(control.listens())));
                react(n, "hdl", 0, "close", session_context.id.value() as i64, Here::Service(control));
            }
            ServiceEvent::ListenStarted { address } => {
                rec(with(json!({"e": "lstart", "n": n, "addr": address.to_string()}), places(control.listens())));
                react(n, "hdl", 0, "lstart", 0, Here::Service(control));
            }
            ServiceEvent::ListenClose { address } => {
                rec(with(json!({"e": "lclose", "n": n, "addr": address.to_string()}), places(control.listens())));
                react(n, "hdl", 0, "lclose", 0, Here::Service(control));
            }
        }
    }

    fn handle_proto(&mut self, control: &mut ServiceContext, event: ProtocolEvent) {
        let n = self.0;
        match event {
            ProtocolEvent::Connected { session_context, proto_id, version } => {
                cb(n, "ev", proto_id, "conn", session_context.id.value(), json!({ "v": version }), Here::Service(control))
            }
            ProtocolEvent::Received { session_context, proto_id, data } => {
                let (m, tr) = decode(&data);
                cb(n, "ev", proto_id, "recv", session_context.id.value(), json!({"m": m, "tr": tr}), Here::Service(control))
            }
            ProtocolEvent::Disconnected { proto_id, session_context } => {
                cb(n, "ev", proto_id, "disc", session_context.id.value(), json!({}), Here::Service(control))
            }
        }
    }
}

/// where the service listens, as far as the callback can see
fn places(listens: &[Multiaddr]) -> Value {
    let mut all: Vec<String> = listens.iter().map(|a| a.to_string()).collect();
    all.sort();
    json!({ "ls": all })
}

fn cb(n: usize, h: &str, p: ProtocolId, k: &str, s: usize, more: Value, here: Here) {
    let seen = match here {
        Here::Nowhere => json!({}),
        Here::Service(c) => places(c.listens()),
        Here::Handler(c) => places(c.listens()),
    };
    rec(with(with(json!({"e": "cb", "n": n, "h": h, "p": p.value(), "k": k, "s": s}), more), seen));
    react(n, h, p.value() as i64, k, s as i64, here);
}

/// what the handler's own polls give: more to do, nothing now, never again, or a panic
struct Script(Vec<u8>, usize);

impl Script {
    fn of(p: &Value) -> Self {
        Script(p["poll"].as_str().unwrap_or("").bytes().collect(), 0)
    }

    fn step(&mut self, n: usize, h: &str, p: ProtocolId, s: usize) -> Poll<Option<()>> {
        let r = match (self.0.get(self.1), self.0.last()) {
            (Some(r), _) => *r,
            (None, None) => return Poll::Ready(None),
            (None, Some(b'N')) => b'N',
            _ => return Poll::Pending,
        };
        self.1 += 1;
        let b = json!({"e": "cb", "n": n, "h": h, "p": p.value(), "k": "poll", "s": s});
        rec(with(b, json!({"r": (r as char).to_string()})));
        match r {
            b'S' => Poll::Ready(Some(())),
            b'N' => Poll::Ready(None),
            b'X' => {
                exec(n, &json!({"op": "panic", "n": n, "h": h, "p": p.value(), "s": s, "on": "poll"}), Here::Nowhere);
                unreachable!()
            }
            _ => Poll::Pending,
        }
    }
}

struct Svc(usize, Script);

impl ServiceProtocol for Svc {
    fn init(&mut self, context: &mut ProtocolContext) {
        cb(self.0, "svc", context.proto_id, "init", 0, json!({}), Here::Service(context));
    }
    fn connected(&mut self, c: ProtocolContextMutRef, version: &str) {
        cb(self.0, "svc", c.proto_id, "conn", c.session.id.value(), json!({ "v": version }), Here::Handler(&c));
    }
    fn disconnected(&mut self, c: ProtocolContextMutRef) {
        cb(self.0, "svc", c.proto_id, "disc", c.session.id.value(), json!({}), Here::Handler(&c));
    }
    fn received(&mut self, c: ProtocolContextMutRef, data: Bytes) {
        let (m, tr) = decode(&data);
        cb(self.0, "svc", c.proto_id, "recv", c.session.id.value(), json!({"m": m, "tr": tr}), Here::Handler(&c));
    }
    fn notify(&mut self, c: &mut ProtocolContext, token: u64) {
        cb(self.0, "svc", c.proto_id, "tick", 0, json!({ "tok": token }), Here::Service(c));
    }
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context, c: &mut ProtocolContext) -> Poll<Option<()>> {
        let n = self.0;
        self.1.step(n, "svc", c.proto_id, 0)
    }
}

struct Ses(usize, Script);

impl SessionProtocol for Ses {
    fn connected(&mut self, c: ProtocolContextMutRef, version: &str) {
        cb(self.0, "ses", c.proto_id, "conn", c.session.id.value(), json!({ "v": version }), Here::Handler(&c));
    }
    fn disconnected(&mut self, c: ProtocolContextMutRef) {
        cb(self.0, "ses", c.proto_id, "disc", c.session.id.value(), json!({}), Here::Handler(&c));
    }
    fn received(&mut self, c: ProtocolContextMutRef, data: Bytes) {
        let (m, tr) = decode(&data);
        cb(self.0, "ses", c.proto_id, "recv", c.session.id.value(), json!({"m": m, "tr": tr}), Here::Handler(&c));
    }
    fn notify(&mut self, c: ProtocolContextMutRef, token: u64) {
        cb(self.0, "ses", c.proto_id, "tick", c.session.id.value(), json!({ "tok": token }), Here::Handler(&c));
    }
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context, c: ProtocolContextMutRef) -> Poll<Option<()>> {
        let n = self.0;
        self.1.step(n, "ses", c.proto_id, c.session.id.value())
    }
}

struct Spawn(usize);

impl ProtocolSpawn for Spawn {
    fn spawn(&self, context: Arc<SessionContext>, _control: &ServiceControl, mut read_part: SubstreamReadPart) {
        let n = self.0;
        let p = read_part.protocol_id();
        let s = context.id.value();
        // one at a time: a stream that was opened again is looked at when the one before is done with
        let (done, turn) = futures::channel::oneshot::channel::<()>();
        let before = W.with(|w| w.borrow_mut().turns.insert((n, s, p.value()), turn));
        let before = before.and_then(|mut b| if let Ok(None) = b.try_recv() { Some(b) } else { None });
        let v = json!({ "v": read_part.version() });
        if before.is_none() {
            cb(n, "spn", p, "conn", s, v.clone(), Here::Nowhere);
        }
        tentacle::runtime::spawn(async move {
            let _done = done;
            if let Some(b) = before {
                let _ = b.await;
                cb(n, "spn", p, "conn", s, v, Here::Nowhere);
            }
            loop {
                crate::Held(n, s, p.value()).await;
                let data = match read_part.next().await {
                    Some(Ok(data)) => data,
                    _ => break,
                };
                let (m, tr) = decode(&data);
                cb(n, "spn", p, "recv", s, json!({"m": m, "tr": tr}), Here::Nowhere);
            }
            cb(n, "spn", p, "disc", s, json!({}), Here::Nowhere);
        });
    }
}

// ---------------------------------------------------------------- service

struct Running<T>(Option<Service<T>>, Box<dyn tentacle::runtime::sim::Gate>);

impl<T: ServiceHandle + Unpin> Future for Running<T> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if !self.1.enter() {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let eager = sim().0.lock().unwrap().eager;
        let r = loop {
            let r = self.0.as_mut().unwrap().poll_next_unpin(cx);
            if !(eager && matches!(r, Poll::Ready(Some(_)))) {
                break r;
            }
        };
        let r = match r {
            Poll::Ready(Some(_)) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Poll::Ready(None) => {
                self.0 = None;
                Poll::Ready(())
            }
            Poll::Pending => Poll::Pending,
        };
        self.1.leave();
        r
    }
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

pub async fn start(n: usize, cfg: &Value) {
    let ids = cfg["protos"].as_array().unwrap().iter().map(|p| i(p, "id", 1)).collect();
    W.with(|w| w.borrow_mut().protos.push(ids));
    let mut b = ServiceBuilder::default()
        .forever(i(cfg, "forever", 1) == 1)
        .timeout(Duration::from_millis(i(cfg, "timeout", 20000) as u64))
        .keep_buffer(i(cfg, "keep", 0) == 1)
        .max_connection_number(i(cfg, "max", 65535) as usize);
    let mut y = YamuxConfig::default();
    y.max_stream_window_size = i(cfg, "window", 256 * 1024) as u32;
    y.enable_keepalive = i(cfg, "keepalive", 0) == 1;
    y.max_stream_count = i(cfg, "streams", 65535) as usize;
    b = b.yamux_config(y);
    if i(cfg, "sendbuf", 0) > 0 {
        b = b.set_send_buffer_size(i(cfg, "sendbuf", 0) as usize);
    }
    if i(cfg, "recvbuf", 0) > 0 {
        b = b.set_recv_buffer_size(i(cfg, "recvbuf", 0) as usize);
    }
    if i(cfg, "key", -1) >= 0 {
        b = b.key_pair(keypair(i(cfg, "key", 0)));
    }
    for p in cfg["protos"].as_array().unwrap() {
        let name = p["name"].as_str().unwrap().to_string();
        let mut m = MetaBuilder::default()
            .id(ProtocolId::new(i(p, "id", 1) as usize))
            .name(move |_| name.clone())
            .support_versions(strings(&p["versions"]));
        let (q, q2) = (p.clone(), p.clone());
        match p["svc"].as_str().unwrap_or("") {
            "cb" => m = m.service_handle(move || ProtocolHandle::Callback(Box::new(Svc(n, Script::of(&q))))),
            "both" => m = m.service_handle(move || ProtocolHandle::Both(Box::new(Svc(n, Script::of(&q))))),
            "ev" => m = m.service_handle(|| ProtocolHandle::Event),
            _ => {}
        }
        match p["ses"].as_str().unwrap_or("") {
            "cb" => m = m.session_handle(move || ProtocolHandle::Callback(Box::new(Ses(n, Script::of(&q2))))),
            "both" => m = m.session_handle(move || ProtocolHandle::Both(Box::new(Ses(n, Script::of(&q2))))),
            "ev" => m = m.session_handle(|| ProtocolHandle::Event),
            _ => {}
        }
        if i(p, "spn", 0) == 1 {
            m = m.protocol_spawn(Spawn(n));
        }
        if i(p, "bs", 0) == 1 {
            m = m.before_send(|d| {
                let mut b = BytesMut::with_capacity(d.len() + 1);
                b.put_u8(b'S');
                b.extend_from_slice(&d);
                b.freeze()
            });
        }
        if i(p, "frame", 0) > 0 {
            let max = i(p, "frame", 0) as usize;
            m = m.codec(move || {
                Box::new(tokio_util::codec::LengthDelimitedCodec::builder().max_frame_length(max).new_codec())
            });
        }
        if i(p, "fail", 0) == 1 {
            // messages of one size cannot be read
            m = m.before_receive(|| {
                Some(Box::new(|d: BytesMut| match d.len() {
                    13 | 14 => Err(std::io::ErrorKind::InvalidData.into()),
                    _ => Ok(d.freeze()),
                }))
            });
        } else if i(p, "br", 0) == 1 {
            m = m.before_receive(|| {
                Some(Box::new(|d: BytesMut| {
                    let mut b = BytesMut::with_capacity(d.len() + 1);
                    b.put_u8(b'R');
                    b.extend_from_slice(&d);
                    Ok(b.freeze())
                }))
            });
        }
        match p["select"].as_str() {
            // the lowest common version
            Some("low") => {
                m = m.select_version(|| {
                    Some(Box::new(|a: &[String], b: &[String]| {
                        a.iter().find(|x| b.contains(x)).cloned()
                    }))
                })
            }
            Some("none") => m = m.select_version(|| Some(Box::new(|_: &[String], _: &[String]| None))),
            _ => {}
        }
        b = b.insert_protocol(m.build());
    }
    let mut svc = b.build(Handle(n));
    W.with(|w| w.borrow_mut().controls.push(svc.control().clone()));
    crate::sim::NODE.with(|c| c.set(n));
    // before the service runs
    for op in cfg["pre"].as_array().unwrap_or(&Vec::new()) {
        let at = crate::recorded();
        match op["op"].as_str().unwrap() {
            "listen" => {
                let a = dial_addr(n, op, i(op, "v", 1) as u8);
                let r = svc.listen(a.clone()).await;
                crate::rec_at(at, json!({"e": "pre", "n": n, "op": "listen", "addr": a.to_string(), "tr": transport(op), "port": i(op, "port", 1000), "r": if r.is_ok() { "ok" } else { "err" }}));
            }
            "dial" => {
                let a = dial_addr(i(op, "to", 0) as usize, op, i(op, "v", 1) as u8);
                crate::sim::NODE.with(|c| c.set(n));
                let r = svc.dial(a.clone(), target_protocol(&op["protos"])).await.is_ok();
                crate::rec_at(at, json!({"e": "pre", "n": n, "op": "dial", "addr": plain(&a), "peer": i(op, "peer", -1),
                    "want": want(n, op.get("protos")), "to": i(op, "to", 0), "port": i(op, "port", 1000),
                    "tr": transport(op), "sa": sock_of(&a).map(|s| s.to_string()).unwrap_or_default(), "r": if r { "ok" } else { "err" }}));
            }
            x => panic!("unknown operation {}", x),
        }
    }
    let gate = tentacle::runtime::sim::Simulator::gate(&sim());
    crate::sim::NODE.with(|c| c.set(usize::MAX));
    tokio::spawn(async move {
        let r = std::panic::AssertUnwindSafe(Running(Some(svc), gate)).catch_unwind().await;
        rec(json!({"e": "end", "n": n, "r": if r.is_ok() { "ok" } else { "panic" }}));
    });
}

/// the part of the configuration the specification needs
pub fn summary(cfg: &Value) -> Value {
    let protos: Vec<Value> = cfg["protos"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| {
            let svc = p["svc"].as_str().unwrap_or("");
            let ses = p["ses"].as_str().unwrap_or("");
            let spn = i(p, "spn", 0) == 1;
            let mut hs = Vec::new();
            let cb = |x| x == "cb" || x == "both";
            let ev = |x| x == "ev" || x == "both";
            if cb(svc) {
                hs.push("svc")
            }
            if cb(ses) {
                hs.push("ses")
            }
            if ev(svc) || ev(ses) {
                hs.push("ev")
            }
            if spn {
                hs = vec!["spn"]
            }
            json!({"id": i(p, "id", 1), "name": p["name"], "versions": p["versions"], "hs": hs,
                "svc": cb(svc), "ses": cb(ses), "poll": p["poll"].as_str().unwrap_or("") != "",
                "bs": i(p, "bs", 0) == 1, "br": i(p, "br", 0) == 1 && i(p, "fail", 0) == 0,
                "fail": i(p, "fail", 0) == 1, "frame": i(p, "frame", 8 << 20), "select": p["select"].as_str().unwrap_or("")})
        })
        .collect();
    json!({"key": i(cfg, "key", -1), "max": i(cfg, "max", 65535), "timeout": i(cfg, "timeout", 20000),
        "forever": i(cfg, "forever", 1) == 1, "sendbuf": i(cfg, "sendbuf", 24 << 20), "protos": protos})
}
