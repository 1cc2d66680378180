//! A peer that speaks the multiplexing and negotiation but not the service's rules.
use crate::{rec, sim};
use bytes::Bytes;
use futures::{SinkExt, StreamExt};
use serde_json::{json, Value};
use std::net::SocketAddr;
use tentacle::yamux::{session::SessionType, Config, Session, StreamHandle};
use tokio_util::codec::{Framed, LengthDelimitedCodec};

fn string(s: &str) -> Vec<u8> {
    let mut v = (s.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(s.as_bytes());
    v
}

fn table(items: &[Vec<u8>]) -> Vec<u8> {
    let head = 4 + 4 * items.len();
    let size = head + items.iter().map(Vec::len).sum::<usize>();
    let mut v = (size as u32).to_le_bytes().to_vec();
    let mut at = head;
    for i in items {
        v.extend_from_slice(&(at as u32).to_le_bytes());
        at += i.len();
    }
    items.iter().for_each(|i| v.extend_from_slice(i));
    v
}

fn encode(name: &str, versions: &[String]) -> Bytes {
    let vs: Vec<_> = versions.iter().map(|v| string(v)).collect();
    table(&[string(name), table(&vs)]).into()
}

fn word(b: &[u8], at: usize) -> Option<usize> {
    let w = b.get(at..at + 4)?;
    Some(u32::from_le_bytes([w[0], w[1], w[2], w[3]]) as usize)
}

fn fields(b: &[u8]) -> Option<Vec<&[u8]>> {
    let size = word(b, 0)?;
    if size == 4 {
        return Some(Vec::new());
    }
    let n = word(b, 4)? / 4 - 1;
    let mut ends: Vec<usize> = (0..n).map(|i| word(b, 4 + 4 * i)).collect::<Option<_>>()?;
    ends.push(size);
    (0..n).map(|i| b.get(ends[i]..ends[i + 1])).collect()
}

fn text(b: &[u8]) -> Option<String> {
    String::from_utf8(b.get(4..)?.to_vec()).ok()
}

fn decode(b: &[u8]) -> Option<(String, Vec<String>)> {
    let f = fields(b)?;
    let vs = fields(f.get(1)?)?.into_iter().map(text).collect::<Option<_>>()?;
    Some((text(f[0])?, vs))
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

fn bytes(v: &Value) -> Bytes {
    let b: Vec<u8> = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    b.into()
}

type Line = Framed<StreamHandle, LengthDelimitedCodec>;

async fn ask(mut line: Line, c: usize, i: usize, a: Value) {
    if a.get("raw").is_some() {
        let _ = line.send(bytes(&a["raw"])).await;
    } else {
        let name = a["name"].as_str().unwrap();
        let vs = strings(&a["versions"]);
        rec(json!({"e": "fask", "c": c, "i": i, "name": name, "vs": vs}));
        if line.send(encode(name, &vs)).await.is_ok() {
            if let Some(Ok(r)) = line.next().await {
                let (rn, rv) = decode(&r).unwrap_or(("?".to_string(), vec!["?".to_string()]));
                rec(json!({"e": "frep", "c": c, "i": i, "rn": rn, "rv": rv}));
            }
        }
    }
    while let Some(Ok(_)) = line.next().await {}
}

async fn answer(mut line: Line, c: usize, answers: Value) {
    if let Some(Ok(r)) = line.next().await {
        let (name, vs) = decode(&r).unwrap_or(("?".to_string(), vec!["?".to_string()]));
        let a = answers.get(&name).cloned().unwrap_or(Value::Null);
        let kind = a["kind"].as_str().unwrap_or("honest");
        let (rn, rv) = match kind {
            "as" => (a["name"].as_str().unwrap_or(&name).to_string(), strings(&a["versions"])),
            _ => (name.clone(), vs.last().cloned().into_iter().collect()),
        };
        rec(json!({"e": "fans", "c": c, "name": name, "vs": vs, "kind": kind, "rn": rn, "rv": rv}));
        match kind {
            "raw" => drop(line.send(bytes(&a["raw"])).await),
            "silent" => (),
            "end" => return,
            _ => drop(line.send(encode(&rn, &rv)).await),
        }
    }
    while let Some(Ok(_)) = line.next().await {}
}

pub fn start(addr: SocketAddr, nodes: usize, op: &Value) {
    let (c, end) = match sim().raw_connect(nodes, addr) {
        Ok(x) => x,
        Err(_) => return,
    };
    let mut session = Session::new(end, Config::default(), SessionType::Client);
    let mut control = session.control();
    let asks = op["asks"].as_array().cloned().unwrap_or_default();
    let answers = op["answers"].clone();
    tokio::spawn(async move {
        while let Some(Ok(s)) = session.next().await {
            tokio::spawn(answer(Framed::new(s, LengthDelimitedCodec::new()), c, answers.clone()));
        }
    });
    tokio::spawn(async move {
        for (i, a) in asks.into_iter().enumerate() {
            if let Ok(s) = control.open_stream().await {
                tokio::spawn(ask(Framed::new(s, LengthDelimitedCodec::new()), c, i, a));
            }
        }
        // the session lives as long as somebody can use it
        futures::future::pending::<()>().await;
        drop(control);
    });
}
