//! Decodes byte strings with the real frame codec, cut in given ways.
use bytes::BytesMut;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use tokio_util::codec::{Decoder, Encoder};
use tokio_yamux::frame::FrameCodec;

pub fn run(p: &Value) -> Vec<Value> {
    let bytes: Vec<u8> = p["bytes"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
    let cuts: Vec<usize> = p["cuts"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as usize).collect();
    let w = p["w"].as_u64().unwrap() as u32;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut codec = FrameCodec::default().max_frame_size(w);
        let mut buf = BytesMut::new();
        let mut pos = 0;
        let mut out: Vec<Value> = Vec::new();
        let mut re: Vec<u8> = Vec::new();
        let mut ends = cuts.clone();
        ends.push(bytes.len());
        'o: for c in ends {
            buf.extend_from_slice(&bytes[pos..c]);
            pos = c;
            loop {
                match codec.decode(&mut buf) {
                    Ok(Some(f)) => {
                        let t = match f.ty() {
                            tokio_yamux::frame::Type::Data => "data",
                            tokio_yamux::frame::Type::WindowUpdate => "wu",
                            tokio_yamux::frame::Type::Ping => "ping",
                            tokio_yamux::frame::Type::GoAway => "ga",
                        };
                        let fl = f.flags().value();
                        let (s, n) = (f.stream_id(), f.length());
                        let mut b = BytesMut::new();
                        let mut enc = FrameCodec::default();
                        let (_, body) = {
                            // re-encode the decoded frame
                            enc.encode(f, &mut b).unwrap();
                            ((), b[12..].to_vec())
                        };
                        re.extend_from_slice(&b);
                        out.push(json!({"t":t,"s":&s.to_be_bytes()[..],"fl":fl,"n":&n.to_be_bytes()[..],"d":body}));
                    }
                    Ok(None) => break,
                    Err(_) => {
                        out.push(json!({"t":"bad","s":[0,0,0,0],"fl":0,"n":[0,0,0,0],"d":[]}));
                        break 'o;
                    }
                }
            }
        }
        (out, re)
    }));
    match r {
        Ok((out, re)) => vec![json!({"id":p["id"],"w":w,"bytes":bytes,"cuts":cuts,"out":out,"re":re})],
        Err(_) => vec![json!({"id":p["id"],"w":w,"bytes":bytes,"cuts":cuts,"out":[{"t":"panic","s":[0,0,0,0],"fl":0,"n":[0,0,0,0],"d":[]}],"re":[]})],
    }
}
