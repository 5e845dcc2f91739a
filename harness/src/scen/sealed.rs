//! Sealed messages on their way through relays and storage that alter them (C13).
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use hyperborealib::prelude::*;
use rand_chacha::rand_core::{RngCore, SeedableRng};
use serde_json::{json, Value as Json};

use super::refer::{self, Pk};
use super::server::{connect, server_unit, ServerCfg};
use super::*;
use crate::exec::{log, stat, violation};
use crate::net::{net, NetCfg, SimHttpClient};

type Conn = ConnectedClientMiddleware<SimHttpClient>;

const PEOPLE: std::ops::Range<usize> = 1..4;
const MALLORY: usize = 9;

struct Letter {
    from: usize,
    to: usize,
    data: Vec<u8>,
    msg: Message,
}

#[derive(Default)]
struct Book {
    letters: Vec<Letter>,
    /// what each key signed as a message
    signed: BTreeMap<Pk, BTreeSet<Vec<u8>>>,
    /// proof seeds and tokens seen on the wire: signed too, by whoever
    other: BTreeSet<Vec<u8>>,
    /// messages, proofs and senders for the relay to splice
    pool: Vec<Json>,
    proofs: Vec<(Json, u64, Json)>,
    senders: Vec<Json>,
}

type B = Sh<Book>;

fn b64e(b: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE.encode(b)
}

fn data() -> Vec<u8> {
    let n = match w(12) {
        0 => 0,
        1 => 1,
        2 => pick(&[15usize, 16, 17, 31, 32, 33]),
        3 => pick(&[4095usize, 4096, 4097, 8192]),
        4 => pick(&[32767usize, 32768, 65535, 65536, 65537, 70_000, 131_072]),
        5 if wp(0.1) => pick(&[262_144usize, 300_000, 1 << 20]),
        _ => w(600) as usize,
    };
    let kind = w(6);
    let mut r = rand_chacha::ChaCha8Rng::seed_from_u64(w(u32::MAX) as u64);
    let mut v = vec![0u8; n];
    match kind {
        0 => {}
        1 => r.fill_bytes(&mut v),
        2 => v.iter_mut().enumerate().for_each(|(i, b)| *b = i as u8),
        3 => v.iter_mut().enumerate().for_each(|(i, b)| *b = b"lorem ipsum dolor sit amet "[i % 27]),
        4 => {
            r.fill_bytes(&mut v);
            v.iter_mut().for_each(|b| *b = b"{}[]\":,01 \n\\"[*b as usize % 12]);
        }
        _ => v.iter_mut().for_each(|b| *b = (r.next_u32() % 3 * 127) as u8),
    }
    v
}

fn encoding() -> MessageEncoding {
    MessageEncoding::new(
        Encoding::Base64,
        pick(&[Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305]),
        pick(&[Compression::None, Compression::Brotli, Compression::Deflate]),
    )
}

fn level() -> CompressionLevel {
    pick(&[CompressionLevel::Fast, CompressionLevel::Balanced, CompressionLevel::Quality])
}

const ENCODINGS: [&str; 15] = [
    "base64", "base64/aes256-gcm", "base64/chacha20-poly1305", "base64/brotli", "base64/deflate", "base64/aes256-gcm/brotli", "base64/aes256-gcm/deflate",
    "base64/chacha20-poly1305/brotli", "base64/chacha20-poly1305/deflate", "base64/plain", "base64/none/none", "base64/plain/plain/plain", "", "rot13", "base64/",
];

/// A position; often near an end.
fn somewhere(n: usize) -> usize {
    match w(3) {
        0 => w(n.min(16) as u32) as usize,
        1 => n - 1 - w(n.min(16) as u32) as usize,
        _ => w(n as u32) as usize,
    }
}

fn garble(s: &str) -> String {
    let mut raw = refer::b64(s).unwrap_or_default();
    match w(9) {
        0 => {
            // a bit of the bytes behind the text
            if !raw.is_empty() {
                let i = somewhere(raw.len());
                raw[i] ^= 1 << w(8);
            }
            b64e(&raw)
        }
        1 => {
            if !raw.is_empty() {
                raw.truncate(somewhere(raw.len()));
            }
            b64e(&raw)
        }
        2 => {
            raw.extend([0u8, 3, 255].iter().cycle().take(1 + w(40) as usize));
            b64e(&raw)
        }
        3 => {
            let mut c: Vec<char> = s.chars().collect();
            if !c.is_empty() {
                let i = w(c.len() as u32) as usize;
                c[i] = pick(&['A', '_', '=', ' ', '+', '/', 'é', '\0']);
            }
            c.into_iter().collect()
        }
        4 => s.trim_end_matches('=').to_string(),
        5 => format!("{s}{}", pick(&["=", "A", "\n", "AAAA"])),
        6 => String::new(),
        7 => b64e(&vec![w(256) as u8; w(200) as usize]),
        _ => {
            // two blocks exchanged
            if raw.len() >= 32 {
                let (a, b) = raw.split_at_mut(16);
                a.swap_with_slice(&mut b[..16]);
            }
            b64e(&raw)
        }
    }
}

/// Alter a message; the book lends material.
fn tamper(g: &Book, m: &mut Json) {
    stat("fault.message_tampered");
    let other = if g.pool.is_empty() { m.clone() } else { pick(&g.pool) };
    match w(14) {
        0 | 1 => m["content"] = garble(m["content"].as_str().unwrap_or("")).into(),
        2 => m["sign"] = garble(m["sign"].as_str().unwrap_or("")).into(),
        3 => m["content"] = other["content"].clone(),
        4 => m["sign"] = other["sign"].clone(),
        5 => m["encoding"] = pick(&ENCODINGS).into(),
        6 => *m = other,
        7 => {
            let (a, b) = (m["content"].clone(), m["sign"].clone());
            m["content"] = b;
            m["sign"] = a;
        }
        8 => m["sign"] = m["content"].clone(),
        9 => m["content"] = m["sign"].clone(),
        10 => {
            // plain text of the attacker's choice under the old signature
            m["content"] = b64e(b"pay mallory").into();
            m["encoding"] = pick(&["base64", "base64/plain"]).into();
        }
        11 => {
            // a signature the victim made for something else
            if !g.proofs.is_empty() {
                let (_, seed, sign) = pick(&g.proofs);
                *m = json!({"content": b64e(&seed.to_be_bytes()), "sign": sign, "encoding": "base64"});
            }
        }
        12 => {
            let k = pick(&["content", "sign", "encoding"]);
            m[k] = pick(&[Json::Null, json!(3), json!([]), json!("x"), json!({"a": 1})]);
        }
        _ => {
            // signed again by somebody else
            let what = b"pay mallory";
            *m = json!({"content": b64e(what), "sign": b64e(&key(MALLORY).create_signature(what)), "encoding": "base64"});
        }
    }
}

/// Alter the envelope of a message on its way to the server.
fn readdress(g: &Book, r: &mut Json) {
    stat("fault.envelope_tampered");
    match w(4) {
        0 => r["receiver_public"] = key(pick(&[1usize, 2, 3])).public_key().to_base64().into(),
        1 if !g.senders.is_empty() => r["sender"] = pick(&g.senders),
        2 => r["sender"]["client"]["public_key"] = key(pick(&[1usize, 2, 3, MALLORY])).public_key().to_base64().into(),
        _ => tamper(g, &mut r["message"]),
    }
}

pub fn root(_prop: &'static str) -> Fut {
    Box::pin(run())
}

async fn run() {
    let book: B = sh(Book::default());
    book.lock().unwrap().signed.entry(key(MALLORY).public_key().to_bytes()).or_default().insert(b"pay mallory".to_vec());
    let sn = exec::add_node("server");
    draw_faults(sn, true);
    calm(sn);
    let unit = server_unit(ServerCfg { node: sn, dir: "/srv/0".into(), addr: "s1:1".into(), key: key(20) });
    if unit.get(CALM_LIMIT).await.is_none() {
        violation("C13", "no-start", "the server did not start");
        return;
    }
    let p_relay = [0.0, 0.1, 0.4][w(3) as usize];
    {
        let b = book.clone();
        net().on_request = Some(Arc::new(move |c| {
            let mut j = serde_json::from_str::<Json>(&c.body).ok()?;
            let mut g = b.lock().unwrap();
            if let Some(s) = j["proof"]["seed"].as_u64() {
                g.other.insert(s.to_be_bytes().to_vec());
                if g.proofs.len() < 30 {
                    g.proofs.push((j["public_key"].clone(), s, j["proof"]["sign"].clone()));
                }
            }
            if c.path == "/api/v1/send" {
                if let Some(t) = refer::b64(j["request"]["sender"]["client"]["certificate"]["token"].as_str().unwrap_or("")) {
                    g.other.insert(t);
                }
                if g.senders.len() < 30 {
                    let s = j["request"]["sender"].clone();
                    g.senders.push(s);
                }
                if wp(p_relay) {
                    readdress(&g, &mut j["request"]);
                    c.body = j.to_string();
                }
            }
            None
        }));
        let b = book.clone();
        net().on_response = Some(Arc::new(move |c, r| {
            if c.path != "/api/v1/poll" || !wp(p_relay) {
                return;
            }
            let Ok(mut j) = serde_json::from_str::<Json>(&r.1) else { return };
            let g = b.lock().unwrap();
            if let Some(v) = j["response"]["messages"].as_array_mut() {
                for m in v {
                    if wp(0.5) {
                        if wp(0.3) && !g.senders.is_empty() {
                            m["sender"] = pick(&g.senders);
                        } else {
                            tamper(&g, &mut m["message"]);
                        }
                    }
                }
            }
            r.1 = j.to_string();
        }));
    }
    let quiet = NetCfg { max_delay: [MS, 20 * MS][w(2) as usize], ..Default::default() };
    net().cfg = quiet.clone();
    let mut people: BTreeMap<usize, (NodeId, Conn)> = BTreeMap::new();
    for k in PEOPLE.chain([MALLORY]) {
        let node = exec::add_node("client");
        match connect(node, key(k), ClientInfo::thin(), "s1:1").await {
            Ok(c) => {
                people.insert(k, (node, c));
            }
            Err(e) => {
                violation("C13", "no-start", format!("a client did not connect: {e}"));
                return;
            }
        }
    }
    let disk = wp(0.4);
    for _ in 0..1 + w(3) {
        // letters
        net().cfg = NetCfg { p_lost_reply: [0.0, 0.1][w(2) as usize], p_cut: [0.0, 0.1][w(2) as usize], p_dup: [0.0, 0.1][w(2) as usize], ..quiet.clone() };
        if disk {
            sim().nodes[sn].faults = true;
            sim().nodes[sn].crashable = true;
        }
        let mut rxs = Vec::new();
        for k in PEOPLE {
            let (node, c) = people[&k].clone();
            let (b, n, mal) = (book.clone(), w(4), people[&MALLORY].clone());
            let (_, rx) = exec::call(0, async move {
                for _ in 0..n {
                    post(&b, k, node, &c, &mal).await;
                }
            });
            rxs.push(rx);
        }
        join_all(rxs).await;
        net().cfg = quiet.clone();
        calm(sn);
        if unit.get(CALM_LIMIT).await.is_none() {
            violation("C13", "no-restart", "the server does not come back");
            return;
        }
        if wp(0.3) {
            corrupt(&book);
        }
        for k in PEOPLE {
            let (node, c) = people[&k].clone();
            for ch in ["main", "x"] {
                for _ in 0..2 {
                    let c2 = c.clone();
                    let lim = if wp(0.7) { None } else { Some(1 + w(3) as u64) };
                    match op_within(node, CALM_LIMIT, async move { c2.poll(ch, lim).await.map_err(|e| e.to_string()) }).await {
                        Some(Res::Ok((v, _))) => {
                            for m in v {
                                open(&book, k, node, m).await;
                            }
                        }
                        Some(Res::Panicked) => violation("C13", "panics", "a poll panicked"),
                        None => violation("C13", "does-not-finish", "a poll does not come back"),
                        _ => {}
                    }
                }
            }
        }
    }
}

/// Seal a message and send it.
async fn post(b: &B, from: usize, node: NodeId, c: &Conn, mal: &(NodeId, Conn)) {
    let to = pick(&[1usize, 2, 3]);
    let (bytes, enc, lvl) = (data(), encoding(), level());
    let rpk = key(to).public_key();
    let d = bytes.clone();
    let sealed = op_within(node, CALM_LIMIT, async move { Message::create(&key(from), &rpk, d, enc, lvl).map_err(|e| e.to_string()) }).await;
    let msg = match sealed {
        Some(Res::Ok(m)) => m,
        Some(Res::Err(e)) => {
            violation("C13", "cannot-seal", format!("{} bytes cannot be sealed as {enc}: {e}", bytes.len()));
            return;
        }
        _ => {
            violation("C13", "panics", format!("sealing {} bytes as {enc} panicked", bytes.len()));
            return;
        }
    };
    stat("op.seal");
    if enc.encryption != Encryption::None && enc.compression == Compression::None && bytes.len() >= 16 {
        let raw = refer::b64(&msg.content).unwrap_or_default();
        if raw.windows(bytes.len()).any(|x| x == bytes) {
            violation("C13", "not-encrypted", format!("a message sealed as {enc} holds its text in the clear"));
        }
    }
    {
        let mut g = b.lock().unwrap();
        g.signed.entry(key(from).public_key().to_bytes()).or_default().insert(bytes.clone());
        if g.pool.len() < 30 && bytes.len() < 5000 {
            g.pool.push(msg.to_json().unwrap());
        }
        g.letters.push(Letter { from, to, data: bytes.clone(), msg: msg.clone() });
    }
    let ch = pick(&["main", "x"]);
    let kind = w(8);
    log(|| format!("client {from} seals {} bytes for {to} as {enc} {lvl:?}", bytes.len()));
    // Mallory forwards it as its own, or sends its own messages
    let (node, c, msg) = match kind {
        0 => (mal.0, mal.1.clone(), msg),
        1 => {
            let d = pick(&[b"mallory's own".to_vec(), bytes.clone()]);
            b.lock().unwrap().signed.entry(key(MALLORY).public_key().to_bytes()).or_default().insert(d.clone());
            let m = Message::create(&key(MALLORY), &key(to).public_key(), d, enc, lvl);
            (mal.0, mal.1.clone(), m.unwrap_or(msg))
        }
        _ => (node, c.clone(), msg),
    };
    let rpk = key(to).public_key();
    let (m2, c2) = (msg, c);
    let r = op_within(node, CALM_LIMIT, async move { c2.send("http://s1:1", rpk, ch, m2).await.map_err(|e| e.to_string()) }).await;
    if let Some(Res::Panicked) = r {
        violation("C13", "panics", "a send panicked");
    }
}

/// Stored messages get damaged or changed.
fn corrupt(b: &B) {
    let files = sim().vfs.h_tree("/srv/0/inbox");
    if files.is_empty() {
        return;
    }
    for _ in 0..1 + w(3) {
        let (path, mut d) = pick(&files);
        stat("fault.storage_corrupted");
        match w(5) {
            0 => d.truncate(w(d.len() as u32 + 1) as usize),
            1 => {
                if !d.is_empty() {
                    let i = w(d.len() as u32) as usize;
                    d[i] ^= 1 << w(8);
                }
            }
            2 => d = pick(&files).1,
            _ => {
                if let Ok(mut j) = serde_json::from_slice::<Json>(&d) {
                    let g = b.lock().unwrap();
                    let m = if j.get("message").is_some() { &mut j["message"] } else { &mut j };
                    tamper(&g, m);
                    d = j.to_string().into_bytes();
                }
            }
        }
        sim().vfs.h_write(&path, &d);
    }
}

async fn read(node: NodeId, m: Message, by: usize, sender: PublicKey) -> Result<Vec<u8>, String> {
    let what = format!("{}", m.encoding);
    match op_within(node, CALM_LIMIT, async move { m.read(&key(by), &sender).map_err(|e| e.to_string()) }).await {
        Some(Res::Ok(v)) => Ok(v),
        Some(Res::Err(e)) => Err(e),
        Some(Res::Panicked) => {
            violation("C13", "panics", format!("reading a message as {what} panicked"));
            Err("panic".into())
        }
        _ => Err("no answer".into()),
    }
}

fn judge(g: &Book, named: &Pk, got: &Result<Vec<u8>, String>, what: &str) {
    if let Ok(v) = got {
        stat("sealed.read_ok");
        if !g.signed.get(named).map(|s| s.contains(v)).unwrap_or(false) && !g.other.contains(v) {
            violation("C13", "altered", format!("{what}: reading returned {} bytes the named sender never signed", v.len()));
        }
    } else {
        stat("sealed.read_err");
    }
}

/// A polled message is read by its receiver, and by others, as it is and altered further.
async fn open(b: &B, by: usize, node: NodeId, m: MessageInfo) {
    let named = m.sender.client.public_key.clone();
    let npk = named.to_bytes();
    let got = read(node, m.message.clone(), by, named.clone()).await;
    let (genuine, small) = {
        let g = b.lock().unwrap();
        judge(&g, &npk, &got, "a polled message");
        let x = g.letters.iter().find(|l| l.msg == m.message && key(l.from).public_key() == named);
        if let Some(l) = x {
            if l.to == by {
                stat("sealed.genuine");
                if got.as_ref() != Ok(&l.data) {
                    violation("C13", "not-as-sealed", format!("a message of {} bytes sealed as {} reads back as {:?}", l.data.len(), l.msg.encoding, got.as_ref().map(|v| v.len())));
                }
            } else if l.msg.encoding.encryption != Encryption::None && got.is_ok() {
                violation("C13", "open-to-others", format!("a message sealed for {} as {} can be read by {by}", l.to, l.msg.encoding));
            }
        }
        (x.map(|l| (l.from, l.to, l.data.clone())), m.message.content.len() < 10_000)
    };
    if let Some((_, to, _)) = &genuine {
        // other readers
        for o in PEOPLE.chain([MALLORY]) {
            if o != *to && wp(0.3) {
                let r = read(node, m.message.clone(), o, named.clone()).await;
                judge(&b.lock().unwrap(), &npk, &r, "a message read with another key");
                if m.message.encoding.encryption != Encryption::None && r.is_ok() {
                    violation("C13", "open-to-others", format!("a message sealed for {to} as {} can be read by {o}", m.message.encoding));
                }
            }
        }
    }
    // more alterations than relays make
    let n = if small { w(6) } else { w(3) };
    for _ in 0..n {
        let Ok(mut j) = m.message.to_json() else { continue };
        let mut who = named.clone();
        {
            let g = b.lock().unwrap();
            if wp(0.15) {
                who = key(pick(&[1usize, 2, 3, MALLORY])).public_key();
            } else {
                tamper(&g, &mut j);
            }
        }
        let r = op_within(node, CALM_LIMIT, async move { Message::from_json(&j).map_err(|e| e.to_string()) }).await;
        match r {
            Some(Res::Ok(m)) => {
                let r = read(node, m, by, who.clone()).await;
                judge(&b.lock().unwrap(), &who.to_bytes(), &r, "an altered message");
            }
            Some(Res::Panicked) => violation("C13", "panics", "parsing a message panicked"),
            _ => {}
        }
    }
}
