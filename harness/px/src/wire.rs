//! The messages of the three protocols as their .mol files describe them,
//! written and read without the code under test.
use crate::i;
use serde_json::{json, Value};
use std::convert::TryFrom;
use tentacle::{
    multiaddr::{Multiaddr, Protocol},
    secio::{PeerId, SecioKeyPair},
};

const KEYS: i64 = 8;

pub fn keypair(k: i64) -> SecioKeyPair {
    SecioKeyPair::secp256k1_raw_key([k as u8 + 1; 32]).unwrap()
}

pub fn peer_index(id: &PeerId) -> i64 {
    (0..KEYS).find(|k| &keypair(*k).peer_id() == id).unwrap_or(-2)
}

/// "a17" stands for one of a row of addresses, "@k" for the identity k
pub fn address(text: &str) -> Multiaddr {
    let mut it = text.split('@');
    let first = it.next().unwrap();
    let mut a: Multiaddr = match first.strip_prefix('a') {
        Some(n) => {
            let n: u32 = n.parse().unwrap();
            format!("/ip4/20.{}.{}.{}/tcp/4000", n >> 16 & 255, n >> 8 & 255, n & 255).parse().unwrap()
        }
        None => first.parse().unwrap(),
    };
    if let Some(k) = it.next() {
        a.push(Protocol::P2P(keypair(k.parse().unwrap()).peer_id().into_bytes().into()));
    }
    a
}

pub fn plain(a: &Multiaddr) -> Multiaddr {
    a.iter().filter(|p| !matches!(p, Protocol::P2P(_))).collect()
}

pub fn identity(a: &Multiaddr) -> String {
    a.iter()
        .find_map(|p| match p {
            Protocol::P2P(b) => Some(format!("@{}", PeerId::from_bytes(b.into_owned()).map(|p| peer_index(&p)).unwrap_or(-3))),
            _ => None,
        })
        .unwrap_or_default()
}

pub fn text(a: &Multiaddr) -> String {
    let p = plain(a).to_string();
    let row = p.strip_prefix("/ip4/20.").and_then(|r| r.strip_suffix("/tcp/4000")).map(|r| {
        let b: Vec<u32> = r.split('.').map(|x| x.parse().unwrap()).collect();
        format!("a{}", b[0] << 16 | b[1] << 8 | b[2])
    });
    row.unwrap_or(p) + &identity(a)
}

fn texts(v: &Value) -> Vec<Multiaddr> {
    v.as_array().unwrap().iter().map(|a| address(a.as_str().unwrap())).collect()
}

// ---------------------------------------------------------------- writing

fn le(x: usize) -> Vec<u8> {
    (x as u32).to_le_bytes().to_vec()
}

/// tables and vectors of things of various length look alike
fn table(fields: Vec<Vec<u8>>) -> Vec<u8> {
    let mut at = 4 * (fields.len() + 1);
    let total: usize = at + fields.iter().map(|f| f.len()).sum::<usize>();
    let mut b = le(total);
    for f in &fields {
        b.extend(le(at));
        at += f.len();
    }
    fields.into_iter().for_each(|f| b.extend(f));
    b
}

fn bytes(x: &[u8]) -> Vec<u8> {
    let mut b = le(x.len());
    b.extend(x);
    b
}

fn choice(k: usize, x: Vec<u8>) -> Vec<u8> {
    let mut b = le(k);
    b.extend(x);
    table(vec![b])
}

fn framed(x: Vec<u8>) -> Vec<u8> {
    let mut b = (x.len() as u32).to_be_bytes().to_vec();
    b.extend(x);
    b
}

pub fn encode(m: &Value) -> Vec<u8> {
    let num = |k: &str| m[k].as_str().unwrap().parse::<u32>().unwrap();
    match m["k"].as_str().unwrap() {
        "ping" => choice(0, table(vec![num("x").to_le_bytes().to_vec()])),
        "pong" => choice(1, table(vec![num("x").to_le_bytes().to_vec()])),
        "ident" => table(vec![
            table(texts(&m["listens"]).iter().map(|a| table(vec![bytes(&a.to_vec())])).collect()),
            table(vec![bytes(&address(m["observed"].as_str().unwrap()).to_vec())]),
            bytes(m["id"].as_str().unwrap().as_bytes()),
        ]),
        "get" => framed(choice(
            0,
            table(vec![
                le(i(m, "version", 0) as usize),
                le(i(m, "count", 0) as usize),
                match i(m, "port", -1) {
                    -1 => vec![],
                    p => (p as u16).to_le_bytes().to_vec(),
                },
            ]),
        )),
        "nodes" => framed(choice(
            1,
            table(vec![
                vec![m["ann"].as_bool().unwrap() as u8],
                table(
                    m["items"]
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|it| table(vec![table(texts(it).iter().map(|a| bytes(&a.to_vec())).collect())]))
                        .collect(),
                ),
            ]),
        )),
        x => panic!("unknown message {}", x),
    }
}

/// what no reader can make sense of
pub fn garbage(kind: &str, how: &str) -> Vec<u8> {
    let good = match kind {
        "ping" => encode(&json!({"k": "ping", "x": "7"})),
        "id" => encode(&json!({"k": "ident", "listens": ["a1"], "observed": "a2", "id": "x"})),
        _ => encode(&json!({"k": "get", "version": 0, "count": 1, "port": 7})),
    };
    match how {
        "short" => good[..3].to_vec(),
        "cut" => good[..good.len() - 1].to_vec(),
        "tail" if kind == "disc" => {
            let mut b = good[4..].to_vec();
            b.push(0);
            framed(b)
        }
        "tail" => [&good[..], &[0]].concat(),
        "odd" => vec![5; 7],
        "choice" if kind == "ping" => choice(9, table(vec![le(7)])),
        "choice" if kind == "disc" => framed(choice(9, table(vec![le(7)]))),
        "address" if kind == "id" => table(vec![table(vec![table(vec![bytes(&[255, 255, 1])])]), table(vec![bytes(&[])]), bytes(&[])]),
        "address" if kind == "disc" => framed(choice(1, table(vec![vec![1], table(vec![table(vec![table(vec![bytes(&[255, 255, 1])])])])]))),
        "flag" if kind == "disc" => framed(choice(1, table(vec![vec![2], table(vec![])]))),
        _ => vec![255; 20],
    }
}

// ---------------------------------------------------------------- reading

fn word(b: &[u8]) -> Option<usize> {
    Some(u32::from_le_bytes([*b.get(0)?, *b.get(1)?, *b.get(2)?, *b.get(3)?]) as usize)
}

fn fields(b: &[u8]) -> Option<Vec<&[u8]>> {
    if word(b)? != b.len() {
        return None;
    }
    if b.len() == 4 {
        return Some(vec![]);
    }
    let first = word(&b[4..])?;
    if first % 4 != 0 || first < 8 || first > b.len() {
        return None;
    }
    let mut at: Vec<usize> = (1..first / 4).map(|k| word(&b[4 * k..]).unwrap()).collect();
    at.push(b.len());
    at.windows(2).map(|p| if p[0] <= p[1] { b.get(p[0]..p[1]) } else { None }).collect()
}

fn one<T>(v: Vec<T>) -> Option<T> {
    let mut v = v;
    if v.len() == 1 {
        v.pop()
    } else {
        None
    }
}

fn run_of(b: &[u8]) -> Option<&[u8]> {
    if word(b)? + 4 == b.len() {
        Some(&b[4..])
    } else {
        None
    }
}

fn addr(b: &[u8]) -> Option<Value> {
    Some(json!(text(&Multiaddr::try_from(run_of(b)?.to_vec()).ok()?)))
}

fn number(b: &[u8]) -> Option<Value> {
    if b.len() == 4 {
        Some(json!(word(b)?.to_string()))
    } else {
        None
    }
}

fn read(kind: &str, b: &[u8]) -> Option<Value> {
    match kind {
        "ping" => {
            let p = one(fields(b)?)?;
            let x = number(one(fields(&p[4..])?)?)?;
            match word(p)? {
                0 => Some(json!({"k": "ping", "x": x})),
                1 => Some(json!({"k": "pong", "x": x})),
                _ => None,
            }
        }
        "id" => {
            let f = fields(b)?;
            if f.len() != 3 {
                return None;
            }
            let ls = fields(f[0])?.into_iter().map(|a| addr(one(fields(a)?)?)).collect::<Option<Vec<_>>>()?;
            Some(json!({"k": "ident", "listens": ls, "observed": addr(one(fields(f[1])?)?)?, "id": String::from_utf8_lossy(run_of(f[2])?)}))
        }
        _ => {
            if b.len() < 4 || u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize + 4 != b.len() {
                return None;
            }
            let p = one(fields(&b[4..])?)?;
            let f = fields(&p[4..])?;
            match (word(p)?, f.len()) {
                (0, 3) => Some(json!({"k": "get", "version": word(f[0])?, "count": word(f[1])?,
                    "port": match f[2].len() { 0 => -1, 2 => f[2][0] as i64 + 256 * f[2][1] as i64, _ => return None }})),
                (1, 2) => {
                    let items = fields(f[1])?
                        .into_iter()
                        .map(|n| fields(one(fields(n)?)?)?.into_iter().map(addr).collect::<Option<Vec<_>>>())
                        .collect::<Option<Vec<_>>>()?;
                    match f[0] {
                        [0] => Some(json!({"k": "nodes", "ann": false, "items": items})),
                        [1] => Some(json!({"k": "nodes", "ann": true, "items": items})),
                        _ => None,
                    }
                }
                _ => None,
            }
        }
    }
}

pub fn decode(kind: &str, b: &[u8]) -> Value {
    read(kind, b).unwrap_or(json!({"k": "raw"}))
}
