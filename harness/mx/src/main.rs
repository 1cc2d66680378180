//! Executes calls on addresses and peer identities and records the results.
//! Nothing is judged here: the records are evaluated by TLC.
use serde_json::{json, Value};
use std::borrow::Cow;
use std::convert::TryFrom;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::net::{IpAddr, SocketAddr};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tentacle::bytes::{Bytes, BytesMut};
use tentacle::multiaddr::{Multiaddr, Protocol};
use tentacle::secio::{PeerId, PublicKey, SecioKeyPair};
use tentacle::utils::{dns::DNSResolver, extract_peer_id, is_reachable, multiaddr_to_socketaddr, socketaddr_to_multiaddr};

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

fn ip(b: &[u8]) -> IpAddr {
    if b.len() == 4 {
        let mut a = [0; 4];
        a.copy_from_slice(b);
        a.into()
    } else {
        let mut a = [0; 16];
        a.copy_from_slice(b);
        a.into()
    }
}

fn ip_bytes(i: IpAddr) -> Vec<u8> {
    match i {
        IpAddr::V4(a) => a.octets().to_vec(),
        IpAddr::V6(a) => a.octets().to_vec(),
    }
}

fn port(v: &Value) -> u16 {
    let b = bytes(v);
    u16::from(b[0]) * 256 + u16::from(b[1])
}

fn comp(v: &Value) -> Protocol<'static> {
    let b = bytes(&v["v"]);
    let text = |b: Vec<u8>| Cow::Owned(String::from_utf8(b).unwrap());
    match v["p"].as_str().unwrap() {
        "dns4" => Protocol::DNS4(text(b)),
        "dns6" => Protocol::DNS6(text(b)),
        "tls" => Protocol::TLS(text(b)),
        "ip4" | "ip6" => ip(&b).into(),
        "tcp" => Protocol::TCP(u16::from(b[0]) * 256 + u16::from(b[1])),
        "p2p" => Protocol::P2P(Cow::Owned(b)),
        "ws" => Protocol::Ws,
        "wss" => Protocol::Wss,
        x => panic!("component {}", x),
    }
}

fn show(p: &Protocol) -> Value {
    let (n, v) = match p {
        Protocol::DNS4(s) => ("dns4", s.as_bytes().to_vec()),
        Protocol::DNS6(s) => ("dns6", s.as_bytes().to_vec()),
        Protocol::TLS(s) => ("tls", s.as_bytes().to_vec()),
        Protocol::IP4(a) => ("ip4", a.octets().to_vec()),
        Protocol::IP6(a) => ("ip6", a.octets().to_vec()),
        Protocol::P2P(b) => ("p2p", b.to_vec()),
        Protocol::TCP(n) => ("tcp", n.to_be_bytes().to_vec()),
        Protocol::Ws => ("ws", vec![]),
        Protocol::Wss => ("wss", vec![]),
    };
    json!({"p": n, "v": v})
}

fn comps(v: &Value) -> Vec<Protocol<'static>> {
    v.as_array().unwrap().iter().map(comp).collect()
}

fn list(a: &Multiaddr) -> Value {
    Value::Array(a.iter().map(|p| show(&p)).collect())
}

/// Everything that can be read off an address, and all the ways back.
fn look(mut ev: Value, a: &Multiaddr) -> Value {
    let text = a.to_string();
    let b = a.to_vec();
    ev["comps"] = list(a);
    ev["bytes"] = json!(b);
    ev["len"] = json!(a.len());
    ev["empty"] = json!(a.is_empty());
    ev["text"] = json!(text.as_bytes());
    let same = |x: Option<Multiaddr>| x.as_ref() == Some(a);
    ev["rebytes"] = json!(
        same(Multiaddr::try_from(b.clone()).ok())
            && same(Multiaddr::try_from(Bytes::from(b.clone())).ok())
            && same(Multiaddr::try_from(BytesMut::from(&b[..])).ok())
            && a.as_ref() == &b[..]
            && same(serde_cbor::to_vec(a).ok().and_then(|v| serde_cbor::from_slice(&v).ok()))
    );
    ev["retext"] = json!(
        same(text.parse().ok())
            && same(Multiaddr::try_from(text.clone()).ok())
            && same(Multiaddr::try_from(&text[..]).ok())
    );
    ev["reiter"] = json!(same(Some(a.iter().collect())) && same(Some(a.into_iter().map(|p| p.acquire()).collect())));
    ev["reserde"] = json!(same(serde_json::to_string(a).ok().and_then(|v| serde_json::from_str(&v).ok())));
    ev
}

fn pid_way(ev: &mut Value, p: Result<PeerId, ()>) {
    ev["ok"] = json!(p.is_ok());
    if let Ok(p) = p {
        ev["out"] = json!(p.as_bytes());
        ev["digest"] = json!(p.digest());
        let t = p.to_base58();
        ev["text"] = json!(t.as_bytes());
        let addr: Multiaddr = Protocol::P2P(Cow::Owned(p.clone().into_bytes())).into();
        ev["retext"] = json!(
            t.parse::<PeerId>().as_ref() == Ok(&p)
                && PeerId::from_bytes(p.as_bytes().to_vec()).as_ref() == Ok(&p)
                && extract_peer_id(&addr).as_ref() == Some(&p)
                && extract_peer_id(&addr.to_string().parse().unwrap()).as_ref() == Some(&p)
        );
    }
}

fn step(op: &Value, cur: &mut Multiaddr, rt: &mut tokio::runtime::Runtime, keys: &[PublicKey]) -> Value {
    let mut ev = op.clone();
    match op["e"].as_str().unwrap() {
        "new" => {
            let c = comps(&op["cs"]);
            *cur = match op["via"].as_str().unwrap() {
                "iter" => c.into_iter().collect(),
                "from" if c.len() == 1 => Multiaddr::from(c.into_iter().next().unwrap()),
                "borrow" => {
                    let a: Multiaddr = c.into_iter().collect();
                    let b = a.to_vec();
                    Multiaddr::try_from(b).unwrap().iter().collect()
                }
                _ => {
                    let mut a: Multiaddr = std::iter::empty::<Protocol>().collect();
                    for p in c {
                        a.push(p)
                    }
                    a
                }
            };
            look(ev, cur)
        }
        "push" => {
            cur.push(comp(&op["c"]));
            look(ev, cur)
        }
        "pop" => {
            ev["got"] = Value::Array(cur.pop().iter().map(show).collect());
            look(ev, cur)
        }
        "replace" => {
            let c = op["c"].as_array().unwrap().get(0).map(comp);
            let old = cur.clone();
            let at = op["at"].as_u64().unwrap() as usize;
            let n = old.iter().nth(at).map(|p| p.acquire());
            let r = old.replace(at, |p| {
                assert_eq!(Some(p), n.as_ref());
                c
            });
            ev["some"] = json!(r.is_some());
            if let Some(a) = r {
                *cur = a;
            }
            look(ev, cur)
        }
        "bytes" => {
            let b = bytes(&op["b"]);
            let r = Multiaddr::try_from(b.clone());
            ev["ok"] = json!(r.is_ok());
            if let Ok(a) = &r {
                ev["comps"] = list(a);
                ev["bytes"] = json!(a.iter().collect::<Multiaddr>().to_vec());
                let _ = a.to_string();
                let mut x = a.clone();
                while x.pop().is_some() {}
            }
            ev
        }
        "text" => {
            let b = bytes(&op["b"]);
            let r = String::from_utf8(b).unwrap().parse::<Multiaddr>();
            ev["ok"] = json!(r.is_ok());
            if let Ok(a) = &r {
                ev["comps"] = list(a);
                ev["bytes"] = json!(a.to_vec());
            }
            ev
        }
        "pid" => {
            pid_way(&mut ev, PeerId::from_bytes(bytes(&op["b"])));
            ev
        }
        "pidtext" => {
            pid_way(&mut ev, String::from_utf8(bytes(&op["b"])).unwrap().parse());
            ev
        }
        "key" => {
            let pair = SecioKeyPair::secp256k1_raw_key(bytes(&op["secret"])).unwrap();
            let key = pair.public_key();
            ev["got"] = json!(key.inner_ref());
            let id = pair.peer_id();
            ev["id"] = json!(id.as_bytes());
            let again = PublicKey::secp256k1_raw_key(key.inner_ref()).unwrap();
            let long = PublicKey::secp256k1_raw_key(bytes(&op["long"])).unwrap();
            let wire = PublicKey::decode(&key.clone().encode()).unwrap();
            let all = [again.peer_id(), long.peer_id(), wire.peer_id(), PeerId::from_public_key(&key), PeerId::from(key.clone())];
            ev["again"] = json!(all.iter().find(|x| **x != id).unwrap_or(&id).as_bytes());
            ev["match"] = json!(id.is_public_key(&key) && id.is_public_key(&again));
            ev["others"] = json!(keys.iter().map(|k| id.is_public_key(k)).collect::<Vec<_>>());
            ev["self"] = json!(keys.iter().position(|k| *k == key).unwrap() + 1);
            ev
        }
        "sock" => {
            let s = SocketAddr::new(ip(&bytes(&op["ip"])), port(&op["port"]));
            let a = socketaddr_to_multiaddr(s);
            ev["comps"] = list(&a);
            let r = multiaddr_to_socketaddr(&a);
            ev["ok"] = json!(r.is_some());
            if let Some(s) = r {
                ev["ip2"] = json!(ip_bytes(s.ip()));
                ev["port2"] = json!(s.port().to_be_bytes());
            }
            ev
        }
        "tosock" => {
            let a: Multiaddr = comps(&op["cs"]).into_iter().collect();
            let r = multiaddr_to_socketaddr(&a);
            ev["ok"] = json!(r.is_some());
            if let Some(s) = r {
                ev["ip"] = json!(ip_bytes(s.ip()));
                ev["port"] = json!(s.port().to_be_bytes());
            }
            ev
        }
        "topeer" => {
            let a: Multiaddr = comps(&op["cs"]).into_iter().collect();
            let r = extract_peer_id(&a);
            ev["ok"] = json!(r.is_some());
            if let Some(p) = r {
                ev["id"] = json!(p.as_bytes());
            }
            ev
        }
        "reach" => {
            ev["r"] = json!(is_reachable(ip(&bytes(&op["ip"]))));
            ev
        }
        "dns" => {
            let a: Multiaddr = comps(&op["cs"]).into_iter().collect();
            let r = DNSResolver::new(a);
            ev["some"] = json!(r.is_some());
            if let Some(f) = r {
                let r = rt.block_on(f);
                ev["ok"] = json!(r.is_ok());
                if let Ok(a) = r {
                    ev["comps"] = list(&a);
                }
            }
            ev
        }
        x => panic!("operation {}", x),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let inp = std::fs::File::open(&args[2]).expect("input");
    let mut out = BufWriter::new(std::fs::File::create(&args[3]).expect("output"));
    std::panic::set_hook(Box::new(|_| {}));
    let mut rt = tokio::runtime::Builder::new().threaded_scheduler().core_threads(1).build().unwrap();
    for line in BufReader::new(inp).lines() {
        let v: Value = serde_json::from_str(&line.unwrap()).expect("json");
        let mut cur: Multiaddr = std::iter::empty::<Protocol>().collect();
        let ops = v["ops"].as_array().unwrap();
        let keys: Vec<PublicKey> = ops
            .iter()
            .filter(|o| o["e"] == "key")
            .map(|o| SecioKeyPair::secp256k1_raw_key(bytes(&o["secret"])).unwrap().public_key())
            .collect();
        let mut evs = vec![];
        for op in ops {
            match catch_unwind(AssertUnwindSafe(|| step(op, &mut cur, &mut rt, &keys))) {
                Ok(e) => evs.push(e),
                Err(_) => {
                    evs.push(json!({"e": "panic", "op": op}));
                    break;
                }
            }
        }
        serde_json::to_writer(&mut out, &json!({"id": format!("{}/0", v["id"].as_str().unwrap()), "leaf": v["leaf"], "ev": evs})).unwrap();
        out.write_all(b"\n#done\n").unwrap();
        out.flush().unwrap();
    }
}
