//! The other source of updates: account subscriptions over gRPC. One thread per connection.
use crate::node::*;
use base64::Engine;
use bytes::Bytes;
use serde_json::Value;
use solana_program::pubkey::Pubkey;
use std::net::TcpStream;
use std::sync::mpsc;
use std::time::Duration;
use vrfmon::layout::VRF;

// ---------------------------------------------------------------- protobuf
fn varint(out: &mut Vec<u8>, mut v: u64) {
    while v >= 0x80 {
        out.push(v as u8 | 0x80);
        v >>= 7;
    }
    out.push(v as u8);
}
fn number(out: &mut Vec<u8>, field: u64, v: u64) {
    varint(out, field << 3);
    varint(out, v);
}
fn bytes(out: &mut Vec<u8>, field: u64, v: &[u8]) {
    varint(out, field << 3 | 2);
    varint(out, v.len() as u64);
    out.extend_from_slice(v);
}
enum Field<'a> {
    Num(u64),
    Bytes(&'a [u8]),
}
fn read_varint(b: &[u8], o: &mut usize) -> Option<u64> {
    let (mut v, mut s) = (0u64, 0);
    loop {
        let x = *b.get(*o)?;
        *o += 1;
        v |= ((x & 0x7f) as u64).checked_shl(s)?;
        s += 7;
        if x < 0x80 {
            return Some(v);
        }
    }
}
fn fields(b: &[u8]) -> Option<Vec<(u64, Field<'_>)>> {
    let (mut o, mut out) = (0, vec![]);
    while o < b.len() {
        let t = read_varint(b, &mut o)?;
        let f = match t & 7 {
            0 => Field::Num(read_varint(b, &mut o)?),
            1 => {
                o += 8;
                Field::Num(0)
            }
            5 => {
                o += 4;
                Field::Num(0)
            }
            2 => {
                let n = read_varint(b, &mut o)? as usize;
                let s = b.get(o..o.checked_add(n)?)?;
                o += n;
                Field::Bytes(s)
            }
            _ => return None,
        };
        out.push((t >> 3, f));
    }
    Some(out)
}
fn subs<'a>(b: &'a [u8], field: u64) -> Vec<&'a [u8]> {
    fields(b).unwrap_or_default().into_iter().filter_map(|(n, f)| if let (true, Field::Bytes(x)) = (n == field, f) { Some(x) } else { None }).collect()
}
fn num(b: &[u8], field: u64) -> u64 {
    fields(b).unwrap_or_default().into_iter().find_map(|(n, f)| if let (true, Field::Num(x)) = (n == field, f) { Some(x) } else { None }).unwrap_or(0)
}

/// What is subscribed to: the name of the subscription and its filters.
fn subscription(req: &[u8]) -> Option<(String, Vec<Filter>)> {
    let entry = *subs(req, 1).first()?;
    let name = String::from_utf8_lossy(subs(entry, 1).first().copied().unwrap_or_default()).to_string();
    let what = *subs(entry, 2).first()?;
    let owners = subs(what, 3);
    if !subs(what, 2).is_empty() || !owners.iter().any(|o| *o == VRF.to_string().as_bytes()) {
        return Some((name, vec![Filter::Never]));
    }
    let mut out = vec![];
    for f in subs(what, 4) {
        let mem = subs(f, 1);
        if let Some(m) = mem.first() {
            let off = num(m, 1) as usize;
            let raw = subs(m, 2).first().map(|x| x.to_vec());
            let b58 = subs(m, 3).first().and_then(|x| bs58::decode(x).into_vec().ok());
            let b64 = subs(m, 4).first().and_then(|x| base64::engine::general_purpose::STANDARD.decode(x).ok());
            out.push(raw.or(b58).or(b64).map_or(Filter::Never, |b| Filter::Mem(off, b)));
        } else if fields(f)?.iter().any(|x| x.0 == 2) {
            out.push(Filter::Size(num(f, 2) as usize));
        } else {
            out.push(Filter::Never);
        }
    }
    Some((name, out))
}

/// A notification of the WebSocket form as an update. What has no such form becomes a malformed update.
fn update(name: &str, text: &str) -> Vec<u8> {
    let v: Value = serde_json::from_str(text).unwrap_or(Value::Null);
    let r = &v["params"]["result"];
    if !r.is_object() {
        // no update at all, an update about nothing, or bytes that are none
        let mut out = vec![];
        match text.len() % 4 {
            0 => {}
            1 => bytes(&mut out, 1, name.as_bytes()),
            2 => {
                bytes(&mut out, 1, name.as_bytes());
                let mut a = vec![];
                number(&mut a, 2, 7);
                bytes(&mut out, 2, &a);
            }
            _ => out = vec![0xff; 9],
        }
        return out;
    }
    let acc = &r["value"]["account"];
    let key = r["value"]["pubkey"].as_str().unwrap_or("");
    let key = bs58::decode(key).into_vec().unwrap_or_else(|_| key.as_bytes().to_vec());
    let data = match &acc["data"] {
        Value::Array(a) => {
            let t = a.first().and_then(|x| x.as_str()).unwrap_or("");
            base64::engine::general_purpose::STANDARD.decode(t).unwrap_or_else(|_| t.as_bytes().to_vec())
        }
        x => x.to_string().into_bytes(),
    };
    let owner = acc["owner"].as_str().and_then(|x| x.parse::<Pubkey>().ok()).map(|x| x.to_bytes().to_vec()).unwrap_or_default();
    let mut info = vec![];
    bytes(&mut info, 1, &key);
    number(&mut info, 2, acc["lamports"].as_u64().unwrap_or(0));
    bytes(&mut info, 3, &owner);
    number(&mut info, 5, u64::MAX);
    bytes(&mut info, 6, &data);
    number(&mut info, 7, 1);
    let mut a = vec![];
    bytes(&mut a, 1, &info);
    number(&mut a, 2, r["context"]["slot"].as_u64().unwrap_or(0));
    let mut out = vec![];
    bytes(&mut out, 1, name.as_bytes());
    bytes(&mut out, 2, &a);
    out
}
fn frame(msg: &[u8]) -> Bytes {
    let mut b = vec![0];
    b.extend_from_slice(&(msg.len() as u32).to_be_bytes());
    b.extend_from_slice(msg);
    b.into()
}

// -------------------------------------------------------------- connection
pub fn token_of(epoch: u32) -> String {
    format!("{}-e{epoch}", token())
}

pub fn conn(c: TcpStream, node: Shared) {
    let Ok(rt) = tokio::runtime::Builder::new_current_thread().enable_all().build() else { return };
    rt.block_on(async move {
        if c.set_nonblocking(true).is_err() {
            return;
        }
        let Ok(io) = tokio::net::TcpStream::from_std(c) else { return };
        let Ok(mut h2) = h2::server::handshake(io).await else { return };
        let (stop, mut stopped) = tokio::sync::mpsc::unbounded_channel::<()>();
        loop {
            tokio::select! {
                r = h2.accept() => match r {
                    Some(Ok((req, resp))) => {
                        let (n, s) = (node.clone(), stop.clone());
                        tokio::spawn(async move { stream(req, resp, n, s).await });
                    }
                    _ => return,
                },
                // the connection is cut
                _ = stopped.recv() => return,
            }
        }
    });
}

async fn stream(req: http::Request<h2::RecvStream>, mut resp: h2::server::SendResponse<Bytes>, node: Shared, stop: tokio::sync::mpsc::UnboundedSender<()>) {
    let key = req.headers().get("x-token").and_then(|x| x.to_str().ok()).unwrap_or("").to_string();
    let Some(epoch) = key.strip_prefix(&format!("{}-e", token())).and_then(|x| x.parse::<u32>().ok()) else {
        note_alien();
        let _ = stop.send(());
        return;
    };
    let ok = req.uri().path() == "/geyser.Geyser/Subscribe";
    let status = |resp: &mut h2::server::SendResponse<Bytes>, code: &str| {
        let r = http::Response::builder().status(200).header("content-type", "application/grpc").header("grpc-status", code).body(()).unwrap();
        let _ = resp.send_response(r, true);
    };
    if !ok {
        return status(&mut resp, "12");
    }
    // the first message
    let mut body = req.into_body();
    let mut buf = vec![];
    let first = loop {
        if buf.len() >= 5 {
            let n = u32::from_be_bytes(buf[1..5].try_into().unwrap()) as usize;
            if buf.len() >= 5 + n {
                break buf[5..5 + n].to_vec();
            }
        }
        match body.data().await {
            Some(Ok(d)) => {
                buf.extend_from_slice(&d);
                let _ = body.flow_control().release_capacity(d.len());
            }
            _ => return,
        }
    };
    let (refuse, bad) = {
        let mut n = node.lock().unwrap();
        let m = n.mix.clone();
        let r = n.rng.chance((m.ws_refuse * 1000.0) as u64, 1000) || m.down;
        let b = n.rng.chance((m.ws_bad_reply * 1000.0) as u64, 1000);
        if r {
            n.mon.count("fault: stream refused");
        } else if b {
            n.mon.count("fault: bad reply to a stream");
        }
        (if r { Some(n.rng.below(3)) } else { None }, if b { Some(n.rng.below(4)) } else { None })
    };
    match refuse {
        Some(0) => return status(&mut resp, "14"),
        Some(1) => {
            let _ = resp.send_response(http::Response::builder().status(503).body(()).unwrap(), true);
            return;
        }
        Some(_) => {
            let _ = stop.send(());
            return;
        }
        None => {}
    }
    let Ok(mut out) = resp.send_response(http::Response::builder().status(200).header("content-type", "application/grpc").body(()).unwrap(), false) else { return };
    match bad {
        Some(0) => {
            let mut t = http::HeaderMap::new();
            t.insert("grpc-status", "13".parse().unwrap());
            let _ = out.send_trailers(t);
            return;
        }
        Some(1) => {
            let _ = out.send_data(Bytes::from_static(b"\x07nonsense that is no message at all"), true);
            return;
        }
        Some(2) => {
            let _ = out.send_data(Bytes::new(), true);
            return;
        }
        Some(_) => {
            let _ = stop.send(());
            return;
        }
        None => {}
    }
    let _link = crate::node::Link::new(&node, epoch);
    let (name, filters) = subscription(&first).unwrap_or((String::new(), vec![Filter::Never]));
    let (tx, rx) = mpsc::channel();
    {
        let mut n = node.lock().unwrap();
        n.nsub += 1;
        let id = n.nsub;
        let mute = n.mix.ws_mute;
        n.subs.push(Sub { epoch, out: tx, filters, n: id, mute });
        n.mon.count("streams accepted");
    }
    loop {
        // what the client says later (pings) is read and ignored
        while let Ok(Some(d)) = tokio::time::timeout(Duration::from_micros(1), body.data()).await {
            match d {
                Ok(d) => {
                    let _ = body.flow_control().release_capacity(d.len());
                }
                Err(_) => return,
            }
        }
        match rx.try_recv() {
            Ok(WsOut::Text(s, d)) => {
                if d > 0 {
                    tokio::time::sleep(Duration::from_millis(d)).await;
                }
                if out.send_data(frame(&update(&name, &s)), false).is_err() {
                    return;
                }
                node.lock().unwrap().mon.count("updates sent over a stream");
            }
            Ok(WsOut::Cut) => {
                let how = node.lock().unwrap().rng.below(3);
                match how {
                    0 => {
                        let mut t = http::HeaderMap::new();
                        t.insert("grpc-status", "13".parse().unwrap());
                        let _ = out.send_trailers(t);
                    }
                    1 => {
                        let mut t = http::HeaderMap::new();
                        t.insert("grpc-status", "0".parse().unwrap());
                        let _ = out.send_trailers(t);
                    }
                    _ => {
                        let _ = stop.send(());
                    }
                }
                return;
            }
            Err(mpsc::TryRecvError::Empty) => tokio::time::sleep(Duration::from_millis(2)).await,
            Err(_) => return,
        }
    }
}
