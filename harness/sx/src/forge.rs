//! Handshake messages of somebody who does not run the library.
use ring::{agreement, digest, hmac, rand::SystemRandom};
use std::cmp::Ordering;
use tentacle_secio::crypto::{cipher::CipherType, new_stream, CryptoMode};

pub fn secret(key: usize) -> [u8; 32] {
    [key as u8 + 1; 32]
}

/// form: c compressed, u uncompressed, h hybrid
pub fn public(key: usize, form: &str) -> Vec<u8> {
    let s = secp256k1::Secp256k1::new();
    let sk = secp256k1::SecretKey::from_slice(&secret(key)).unwrap();
    let pk = secp256k1::PublicKey::from_secret_key(&s, &sk);
    match form {
        "u" => pk.serialize_uncompressed().to_vec(),
        "h" => {
            let mut v = pk.serialize_uncompressed().to_vec();
            v[0] = 6 + (v[64] & 1);
            v
        }
        _ => pk.serialize().to_vec(),
    }
}

fn vector(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(b);
    v
}

fn table(fields: &[Vec<u8>]) -> Vec<u8> {
    let head = 4 * (fields.len() + 1);
    let total = head + fields.iter().map(|f| f.len()).sum::<usize>();
    let mut v = (total as u32).to_le_bytes().to_vec();
    let mut at = head;
    for f in fields {
        v.extend_from_slice(&(at as u32).to_le_bytes());
        at += f.len();
    }
    for f in fields {
        v.extend_from_slice(f);
    }
    v
}

pub fn field(msg: &[u8], i: usize) -> Option<Vec<u8>> {
    let u = |at: usize| -> Option<usize> {
        let b = msg.get(at..at + 4)?;
        Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize)
    };
    let at = u(4 * (i + 1))?;
    let n = u(at)?;
    msg.get(at + 4..at + 4 + n).map(|b| b.to_vec())
}

#[derive(Clone)]
pub struct Persona {
    pub key: usize,
    pub form: String,
    pub nonce: Vec<u8>,
    pub ag: String,
    pub ci: String,
    pub di: String,
}

impl Persona {
    pub fn proposal(&self) -> Vec<u8> {
        let mut key = 0u32.to_le_bytes().to_vec();
        key.extend(vector(&public(self.key, &self.form)));
        table(&[
            vector(&self.nonce),
            vector(&key),
            vector(self.ag.as_bytes()),
            vector(self.ci.as_bytes()),
            vector(self.di.as_bytes()),
        ])
    }
}

fn algorithm(name: &str) -> &'static agreement::Algorithm {
    match name {
        "P-256" => &agreement::ECDH_P256,
        "P-384" => &agreement::ECDH_P384,
        _ => &agreement::X25519,
    }
}

pub fn ephemeral(name: &str) -> (agreement::EphemeralPrivateKey, Vec<u8>) {
    let k = agreement::EphemeralPrivateKey::generate(algorithm(name), &SystemRandom::new()).unwrap();
    let p = k.compute_public_key().unwrap().as_ref().to_vec();
    (k, p)
}

fn sha256(parts: &[&[u8]]) -> Vec<u8> {
    let mut c = digest::Context::new(&digest::SHA256);
    for p in parts {
        c.update(p);
    }
    c.finish().as_ref().to_vec()
}

pub fn exchange(sign: usize, first: &[u8], second: &[u8], signed: &[u8], sent: &[u8]) -> Vec<u8> {
    let s = secp256k1::Secp256k1::new();
    let sk = secp256k1::SecretKey::from_slice(&secret(sign)).unwrap();
    let m = secp256k1::Message::from_slice(&sha256(&[first, second, signed])).unwrap();
    let sig = s.sign(&m, &sk).serialize_der().to_vec();
    table(&[vector(sent), vector(&sig)])
}

fn stretch(key: &hmac::Key, out: &mut [u8]) {
    const SEED: &[u8] = b"key expansion";
    let mut a = hmac::sign(key, SEED).as_ref().to_vec();
    let mut j = 0;
    while j < out.len() {
        let mut c = hmac::Context::with_key(key);
        c.update(&a);
        c.update(SEED);
        let b = c.sign();
        let n = b.as_ref().len().min(out.len() - j);
        out[j..j + n].copy_from_slice(&b.as_ref()[..n]);
        j += n;
        a = hmac::sign(key, &a).as_ref().to_vec();
    }
}

/// the echo of `data`, encrypted with what the two ephemeral keys give
pub fn echo(
    p: &Persona,
    eph: agreement::EphemeralPrivateKey,
    remote_key: &[u8],
    remote_nonce: &[u8],
    remote_epub: &[u8],
    data: &[u8],
    swap: bool,
) -> Option<Vec<u8>> {
    let material = agreement::agree_ephemeral(
        eph,
        &agreement::UnparsedPublicKey::new(algorithm(&p.ag), remote_epub),
        (),
        |k| Ok(k.to_vec()),
    )
    .ok()?;
    let cipher = match p.ci.as_str() {
        "AES-128-GCM" => CipherType::Aes128Gcm,
        "AES-256-GCM" => CipherType::Aes256Gcm,
        _ => CipherType::ChaCha20Poly1305,
    };
    let alg = if p.di == "SHA512" { hmac::HMAC_SHA512 } else { hmac::HMAC_SHA256 };
    let size = 12 + cipher.key_size() + 20;
    let mut longer = vec![0u8; 2 * size];
    stretch(&hmac::Key::new(alg, &material), &mut longer);
    let oh1 = sha256(&[remote_key, &p.nonce]);
    let oh2 = sha256(&[&public(p.key, &p.form), remote_nonce]);
    let second = (oh1.cmp(&oh2) == Ordering::Less) != swap;
    let half = if second { &longer[size..] } else { &longer[..size] };
    new_stream(cipher, &half[12..12 + cipher.key_size()], CryptoMode::Encrypt)
        .encrypt(data)
        .ok()
}
