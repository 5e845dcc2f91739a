//! Peers that send anything at all to servers and to clients (C15).
use std::sync::Arc;

use hyperborealib::http::client::HttpClient;
use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

use super::refer;
use super::server::{connect, server_unit, Running, ServerCfg};
use super::*;
use crate::exec::{log, stat, violation};
use crate::net::{net, NetCfg, SimHttpClient};

type Conn = ConnectedClientMiddleware<SimHttpClient>;

const POSTS: [&str; 6] = ["connect", "disconnect", "announce", "lookup", "send", "poll"];
const M: usize = 9;

fn b64e(b: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE.encode(b)
}

fn bytes(n: usize) -> Vec<u8> {
    let (a, b) = (w(256) as u8, w(256) as u8);
    (0..n).map(|i| (i as u8).wrapping_mul(a).wrapping_add(b)).collect()
}

/// Bytes that look like something the protocol carries, or nearly.
fn blob() -> Vec<u8> {
    let p = key(w(12) as usize).public_key();
    match w(9) {
        0 => bytes(pick(&[0usize, 1, 2, 7, 8, 9, 31, 32, 33, 34, 40, 41, 42, 63, 64, 65, 66, 96, 128, 256])),
        1 => p.to_bytes().to_vec(),
        2 => {
            let mut v = p.to_bytes().to_vec();
            v[0] = pick(&[0u8, 1, 2, 3, 4, 5, 6, 255]);
            v.resize(pick(&[1usize, 32, 33, 65]), 1);
            v
        }
        3 => {
            use k256::elliptic_curve::sec1::ToEncodedPoint;
            k256::PublicKey::from_sec1_bytes(&p.to_bytes()).unwrap().to_encoded_point(false).as_bytes().to_vec()
        }
        4 => {
            // a token, whole or cut, or longer
            let mut v = [0u8; 8].iter().chain(p.to_bytes().iter()).copied().collect::<Vec<u8>>();
            v.resize(w(70) as usize, 7);
            v
        }
        5 => {
            // a length and what may or may not follow
            let n = pick(&[0u64, 1, 8, 63, 64, 65, 1 << 32, u64::MAX - 8, u64::MAX - 7, u64::MAX, 1 << 63]);
            let mut v = n.to_be_bytes().to_vec();
            v.extend(bytes(w(80) as usize));
            v.truncate(w(90) as usize);
            v
        }
        6 => vec![pick(&[0u8, 255]); pick(&[32usize, 33, 64])],
        7 => key(w(12) as usize).create_signature(bytes(w(9) as usize)),
        _ => key(w(12) as usize).create_encapsulated_signature(bytes(w(9) as usize)),
    }
}

fn weird(old: &Json) -> Json {
    if let (Some(s), true) = (old.as_str(), wp(0.5)) {
        // the same, damaged
        if let (Some(mut v), true) = (refer::b64(s), wp(0.6)) {
            match w(4) {
                0 => v.truncate(w(v.len() as u32 + 1) as usize),
                1 => v.extend(bytes(1 + w(40) as usize)),
                2 => {
                    if !v.is_empty() {
                        let i = w(v.len() as u32) as usize;
                        v[i] ^= 1 << w(8);
                    }
                }
                _ => v.reverse(),
            }
            return b64e(&v).into();
        }
        let mut c: Vec<char> = s.chars().collect();
        let i = w(c.len() as u32 + 1) as usize;
        match w(5) {
            3 => return s.repeat(1 + w(4) as usize).into(),
            4 => return vec![s; 2 + w(4) as usize].join(pick(&["/", ":", "://", "."])).into(),
            0 => c.truncate(i),
            1 => c.insert(i, pick(&['\0', '=', '/', 'é', '\u{1F600}', '"', '\\', ' '])),
            _ => c.extend("==".chars()),
        }
        return c.into_iter().collect::<String>().into();
    }
    if let (Some(n), true) = (old.as_u64(), wp(0.5)) {
        return pick(&[json!(n.wrapping_add(1)), json!(n.wrapping_sub(1)), json!(0), json!(u64::MAX), json!(i64::MIN), json!(n as f64)]);
    }
    match w(18) {
        16 => {
            let v: Vec<&str> = (0..w(7)).map(|_| pick(&["base64", "aes256-gcm", "chacha20-poly1305", "brotli", "deflate", "plain", "none", "", "x"])).collect();
            json!(v.join("/"))
        }
        17 => {
            // an encoding with more or fewer parts than it should have
            let all = ["base64", "aes256-gcm", "brotli", "plain", "none"];
            json!(all[..w(6) as usize].join(pick(&["/", "//", ":"])))
        }
        0 => Json::Null,
        1 => json!(true),
        2 => json!(0),
        3 => json!(-1),
        4 => json!(u64::MAX),
        5 => json!(1e308),
        6 => json!(""),
        7 => json!("x".repeat(pick(&[1usize, 255, 256, 4096, 100_000]))),
        8 => json!([]),
        9 => json!({}),
        10 => {
            let mut j = json!(1);
            for _ in 0..pick(&[1, 20, 100, 200]) {
                j = json!([j]);
            }
            j
        }
        11 if wp(0.3) => json!(name()),
        11 => json!(pick(&["..", "/", "a/b", "\0", "%00", "..\\..", "hint", "local", "remote", "base64", "base64/brotli", "thin", "client", "server", "é", "hyp://", "://", "http://"])),
        12 => json!([old.clone(), old.clone(), old.clone()]),
        13 => json!({"key": old.clone()}),
        _ => b64e(&blob()).into(),
    }
}

/// Change something somewhere below this value.
fn mutate(j: &mut Json, lend: &Json) {
    let stop = wp(0.2);
    match j {
        Json::Object(m) if !m.is_empty() && !stop => {
            let k = pick(&m.keys().cloned().collect::<Vec<_>>());
            if wp(0.07) {
                m.remove(&k);
            } else {
                mutate(m.get_mut(&k).unwrap(), lend);
            }
        }
        Json::Array(v) if !v.is_empty() && !stop => {
            let i = w(v.len() as u32) as usize;
            match w(12) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let x = v[i].clone();
                    for _ in 0..1 + w(20) {
                        v.push(x.clone());
                    }
                }
                _ => mutate(&mut v[i], lend),
            }
        }
        _ => {
            *j = if wp(0.08) { lend.clone() } else { weird(j) };
        }
    }
}

fn spoil(s: &mut String) {
    stat("fault.bytes_changed");
    let mut v = s.clone().into_bytes();
    for _ in 0..1 + w(3) {
        let n = v.len() as u32;
        match w(6) {
            0 => v.truncate(w(n + 1) as usize),
            1 if n > 0 => v[w(n) as usize] ^= 1 << w(7),
            2 if n > 0 => v[w(n) as usize] = pick(b"\0{}[]\",:\\0e9-"),
            3 => {
                let i = w(n + 1) as usize;
                let ins = pick(&["null", "{", "[[[[[[[[", "\"", "\\ud800", "1e999", ",", "\u{0}"]);
                v.splice(i..i, ins.bytes());
            }
            4 if n > 0 => {
                let (a, b) = (w(n) as usize, w(n) as usize);
                let part: Vec<u8> = v[a.min(b)..a.max(b)].to_vec();
                v.extend(part);
            }
            _ => {
                let d = pick(&[10usize, 127, 128, 129, 5000]);
                v = "[".repeat(d).into_bytes();
                v.extend("]".repeat(d).into_bytes());
            }
        }
    }
    *s = String::from_utf8_lossy(&v).into_owned();
}

/// Names of all lengths, with characters of all lengths.
fn name() -> String {
    match w(4) {
        0 => pick(&["", ".", "..", "a/b", "/", "\0", "index", ".tmp", "main "]).to_string(),
        1 => pick(&["n", "é", "€", "\u{1F600}", "/", "%"]).repeat(w(300) as usize),
        _ => (0..w(12)).map(|_| pick(&['a', 'b', 'é', '€', '\u{1F600}', '/', '\\', '.', ' ', '\n'])).collect(),
    }
}

/// Somebody else's request, properly made.
fn fair(path: &str) -> Json {
    let k = pick(&[M, M, M, 8, 7]);
    let sk = key(k);
    let srv = key(20).public_key();
    let who = || key(pick(&[1usize, 2, 3, M, M, 8, 7])).public_key();
    let me = |s: &PublicKey| Client::new(sk.public_key(), super::wire::cert(&sk, s, exec::EPOCH_S + w(100) as u64), ClientInfo::thin());
    let msg = || {
        let enc = MessageEncoding::new(Encoding::Base64, pick(&[Encryption::None, Encryption::Aes256Gcm, Encryption::ChaCha20Poly1305]), pick(&[Compression::None, Compression::Brotli, Compression::Deflate]));
        Message::create(&sk, &who(), bytes(w(100) as usize), enc, CompressionLevel::Fast).unwrap()
    };
    let ch = if wp(0.7) { "main".to_string() } else { name() };
    let lim = pick(&[None, Some(0), Some(1), Some(u64::MAX), Some(u64::MAX / 2), Some(1 << 40), Some(i64::MAX as u64 + 1)]);
    let srv_at = |a: &str| Server::new(key(21).public_key(), a);
    match path {
        "connect" => ConnectRequest::new(&sk, srv.clone(), ClientInfo::thin()).to_json(),
        "disconnect" => DisconnectRequest::new(&sk).to_json(),
        "announce" if wp(0.5) => AnnounceRequest::server(&sk, Server::new(sk.public_key(), if wp(0.3) { name() } else { pick(&["evil:1", "", "a b", "x/../y", "[::1]:9", "\u{0}"]).to_string() })).to_json(),
        "announce" => AnnounceRequest::client(&sk, me(&key(21).public_key()), srv_at(pick(&["evil:1", "", "%%", "http://x"]))).to_json(),
        "lookup" => LookupRequest::new(&sk, who(), pick(&[None, Some(ClientType::Thin), Some(ClientType::File)])).to_json(),
        "send" => SendRequest::new(&sk, Sender::new(me(&key(21).public_key()), srv_at("evil:1")), who(), ch, msg()).to_json(),
        _ => PollRequest::new(&sk, ch, lim).to_json(),
    }
    .unwrap()
}

pub fn root(_prop: &'static str) -> Fut {
    Box::pin(run())
}

/// Report what panicked on nodes that only run the repository's code.
fn watch(from: &mut usize) {
    let ps = &sim().panics;
    for (n, m) in &ps[*from..] {
        let who = &sim().nodes[*n].name;
        violation("C15", format!("{who}-panics"), format!("a {who} panicked: {}", short_panic(m)));
    }
    *from = ps.len();
}

fn short_panic(m: &str) -> String {
    m.chars().take(300).collect()
}

async fn run() {
    sim().p_switch = [0.3, 0.1][w(2) as usize];
    coarse_clock();
    let mut seen = 0;
    let mut units: Vec<Unit<Running>> = Vec::new();
    for (i, addr) in ["s1:1", "evil:1"].iter().enumerate() {
        let node = exec::add_node(if i == 0 { "server" } else { "hostile-server" });
        let u = server_unit(ServerCfg { node, dir: format!("/srv/{i}"), addr: addr.to_string(), key: key(20 + i) });
        if u.get(CALM_LIMIT).await.is_none() {
            violation("C15", "no-start", "a server did not start");
            return;
        }
        units.push(u);
    }
    let mnode = exec::add_node("hostile-client");
    let p_bytes = [0.0, 0.1, 0.3][w(3) as usize];
    let p_ans = [0.3, 0.7, 1.0][w(3) as usize];
    {
        net().on_request = Some(Arc::new(move |c| {
            if c.from == mnode && c.method == "POST" && wp(p_bytes) {
                spoil(&mut c.body);
            }
            None
        }));
        net().on_response = Some(Arc::new(move |c, r| {
            let p = if c.path.ends_with("/info") || c.path.ends_with("/connect") { 0.2 } else { p_ans };
            if c.host != "evil:1" || c.from == mnode || !wp(p) {
                return;
            }
            stat("fault.answer_changed");
            if wp(p_bytes) {
                spoil(&mut r.1);
            } else if let Ok(mut j) = serde_json::from_str::<Json>(&r.1) {
                let lend = j.clone();
                enrich(&c.path, &mut j);
                for _ in 0..w(3) {
                    let t = if wp(0.8) && j.get("response").is_some() { &mut j["response"] } else { &mut j };
                    mutate(t, &lend);
                }
                r.1 = j.to_string();
            }
            if wp(0.05) {
                r.0 = pick(&[0u16, 100, 204, 301, 404, 500, 999, u16::MAX]);
            }
        }));
    }
    net().cfg = NetCfg { max_delay: [MS, 20 * MS][w(2) as usize], ..Default::default() };
    // honest clients of the honest server
    let mut honest: Vec<(NodeId, Conn)> = Vec::new();
    for k in 1..3 {
        let node = exec::add_node("client");
        match connect(node, key(k), ClientInfo::thin(), "s1:1").await {
            Ok(c) => honest.push((node, c)),
            Err(e) => {
                violation("C15", "not-served", format!("an honest client cannot connect: {e}"));
                return;
            }
        }
    }
    let mut sent = 0;
    for _ in 0..1 + w(3) {
        let mut rxs = Vec::new();
        let part = w(3);
        if part != 1 {
            let n = 4 + w(20);
            for _ in 0..1 + w(2) {
                let (_, rx) = exec::call(0, async move {
                    for _ in 0..n {
                        attack(mnode).await;
                    }
                });
                rxs.push(rx);
            }
        }
        if part != 0 {
            let n = 2 + w(8);
            let u = units[0].clone();
            let (_, rx) = exec::call(0, async move {
                let node = exec::add_node("victim");
                victim(node, n).await;
                if wp(0.3) {
                    tour(&u).await;
                }
            });
            rxs.push(rx);
        }
        // an honest exchange goes on meanwhile
        if wp(0.5) {
            let (node, c) = honest[0].clone();
            let pk = key(2).public_key();
            let _ = op_within(node, CALM_LIMIT, async move { c.send("http://s1:1", pk, "main", Message::new("meanwhile", "s", MessageEncoding::default())).await.map_err(|e| e.to_string()) }).await;
        }
        join_all(rxs).await;
        watch(&mut seen);
        if wp(0.15) {
            exec::crash(units[0].node);
            exec::sleep(SEC).await;
            exec::restart(units[0].node);
            if units[0].get(CALM_LIMIT).await.is_none() {
                violation("C15", "not-served", "after hostile traffic the server does not start again");
                return;
            }
        }
        sent += 1;
        probe(&honest, sent).await;
        watch(&mut seen);
    }
}

/// One hostile request to the honest server.
async fn attack(node: NodeId) {
    let path = pick(&POSTS);
    let mut j = fair(path);
    let lend = j.clone();
    if wp(0.9) {
        for _ in 0..1 + w(2) {
            let t = if wp(0.7) && j.get("request").is_some() { &mut j["request"] } else { &mut j };
            mutate(t, &lend);
        }
    }
    stat("op.attack");
    let at = if wp(0.05) { pick(&POSTS) } else { path };
    let url = format!("http://s1:1/api/v1/{at}");
    let (id, rx) = exec::call(node, async move {
        if wp(0.05) {
            let _ = SimHttpClient::new(node).get("http://s1:1/api/v1/clients").await;
        }
        SimHttpClient::new(node).post(url, j).await.map(|r| r.status).map_err(|e| e.to_string())
    });
    let late = sh(false);
    let l = late.clone();
    exec::at(sim().now + CALM_LIMIT, move || {
        if exec::cancel(id) {
            *l.lock().unwrap() = true;
        }
    });
    let r = rx.await;
    if *late.lock().unwrap() {
        violation("C15", "server-hangs", format!("no answer to a request to {at}"));
    }
    log(|| format!("attack on {at}: {r:?}"));
}

/// Give the hostile server something to say.
fn enrich(path: &str, j: &mut Json) {
    let client = |k: usize, s: usize| Client::new(key(k).public_key(), super::wire::cert(&key(k), &key(s).public_key(), exec::EPOCH_S), ClientInfo::thin());
    let server = || Server::new(key(pick(&[20usize, 21, 22])).public_key(), pick(&["s1:1", "evil:1", "gone:1", "", "a b", "x/y?z#", "\u{0}", "[", "http://evil:1"])).to_json().unwrap();
    match path {
        "/api/v1/lookup" => {
            let c = client(1 + w(2) as usize, 20 + w(2) as usize).to_json().unwrap();
            j["status"] = 100.into();
            j["response"] = match w(3) {
                0 => json!({"disposition": "local", "client": c, "available": wp(0.5)}),
                1 => json!({"disposition": "remote", "client": c, "available": wp(0.5), "server": server()}),
                _ => json!({"disposition": "hint", "servers": (0..w(6)).map(|_| server()).collect::<Vec<_>>()}),
            };
        }
        "/api/v1/poll" => {
            let list: Vec<Json> = (0..w(4))
                .map(|_| {
                    let c = client(1, 20).to_json().unwrap();
                    let enc = MessageEncoding::new(Encoding::Base64, pick(&[Encryption::None, Encryption::Aes256Gcm]), pick(&[Compression::None, Compression::Brotli, Compression::Deflate]));
                    let mut m = Message::create(&key(1), &key(3).public_key(), bytes(w(60) as usize), enc, CompressionLevel::Fast).unwrap().to_json().unwrap();
                    if wp(0.5) {
                        let l = m.clone();
                        mutate(&mut m, &l);
                    }
                    if wp(0.2) && m.is_object() {
                        m["content"] = b64e(&blob()).into();
                    }
                    json!({"sender": {"client": c, "server": server()}, "channel": "main", "message": m, "received_at": pick(&[0u64, 1, u64::MAX])})
                })
                .collect();
            j["response"] = json!({"messages": list, "remaining": pick(&[0u64, 1, u64::MAX])});
        }
        "/api/v1/clients" => j["clients"] = (0..w(4)).map(|_| client(1 + w(3) as usize, 21).to_json().unwrap()).collect(),
        "/api/v1/servers" => j["servers"] = (0..w(4)).map(|_| server()).collect(),
        _ => {}
    }
}

/// A client that uses the hostile server.
async fn victim(node: NodeId, n: u32) {
    let mut conn: Option<Conn> = None;
    let k = 3;
    for _ in 0..n {
        stat("op.victim");
        let kind = w(14);
        let keep = conn.clone();
        let other = key(1 + w(2) as usize).public_key();
        let uri = pick(&["http://evil:1".to_string(), format!("hyp://{}", other.to_base64()), format!("hyperborea://thin:{}", other.to_base64())]);
        let b = blob();
        let fut = async move {
            let bare = ClientMiddleware::new(SimHttpClient::new(node), ClientDriver::new(ClientInfo::thin(), key(k)));
            let e = |e: MiddlewareError| e.to_string();
            Ok::<Option<Conn>, String>(match (kind, keep) {
                (0, c) => {
                    bare.get_info("evil:1").await.map_err(e)?;
                    c
                }
                (1, c) => {
                    bare.get_clients("evil:1").await.map_err(e)?;
                    c
                }
                (2, c) => {
                    bare.get_servers("evil:1").await.map_err(e)?;
                    c
                }
                (3, c) => {
                    // signatures and tokens taken from a peer
                    let p = key(w(12) as usize).public_key();
                    let _ = p.decode_encapsulated_signature(&b);
                    let _ = p.verify_signature(b"x", &b);
                    let _ = ConnectionToken::from_bytes(&b);
                    let _ = PublicKey::from_bytes(&b);
                    let _ = PublicKey::from_base64(b64e(&b));
                    c
                }
                (_, None) => Some(bare.connect("evil:1").await.map_err(e)?),
                (4, Some(c)) => {
                    c.announce(uri).await.map_err(e)?;
                    Some(c)
                }
                (5, Some(c)) => {
                    c.send(uri, other, "main", Message::new("hi", "s", MessageEncoding::default())).await.map_err(e)?;
                    Some(c)
                }
                (6..=8 | 12 | 13, Some(c)) => {
                    let (v, _) = c.poll("main", None).await.map_err(e)?;
                    for m in v {
                        stat("hostile.read");
                        let _ = m.message.read(&key(k), &m.sender.client.public_key);
                        let _ = m.message.read(&key(k), &key(1).public_key());
                        let _ = m.sender.client.certificate.validate(&m.sender.client.public_key, &m.sender.server.public_key);
                    }
                    Some(c)
                }
                (9 | 10, Some(c)) => {
                    c.lookup(other, pick(&[None, Some(ClientType::Thin)])).await.map_err(e)?;
                    Some(c)
                }
                (_, Some(c)) => {
                    c.disconnect().await.map_err(e)?;
                    None
                }
            })
        };
        match op_within(node, CALM_LIMIT, fut).await {
            Some(Res::Ok(c)) => {
                stat("hostile.victim_ok");
                if kind > 3 || conn.is_none() {
                    conn = c;
                }
            }
            None => violation("C15", "client-hangs", format!("a client's operation (kind {kind}) against a hostile server does not come back")),
            _ => {}
        }
    }
}

/// The honest server asks the hostile one for its servers.
async fn tour(u: &Unit<Running>) {
    let Some(r) = u.get(CALM_LIMIT).await else { return };
    let node = u.node;
    stat("op.tour");
    let d = r.driver.clone();
    let out = op_within(node, 2 * CALM_LIMIT, async move {
        let _ = d.router().index_server(Server::new(key(21).public_key(), "evil:1")).await;
        d.traversal().traverse(SimHttpClient::new(node), &*d).await;
        Ok(())
    })
    .await;
    if out.is_none() {
        violation("C15", "server-hangs", "a traversal over a hostile server's list does not come back");
    }
}

/// Honest peers are still served.
async fn probe(honest: &[(NodeId, Conn)], n: u32) {
    stat("op.probe");
    let fail = |what: &str, e: String| violation("C15", "not-served", format!("after hostile traffic {what}: {e}"));
    let say = |r: Option<Res<()>>| match r {
        Some(Res::Ok(())) => None,
        Some(Res::Err(e)) => Some(e),
        None => Some("no answer".into()),
        _ => Some("panicked".into()),
    };
    let text = format!("probe {n}");
    let (node, c) = honest[0].clone();
    let (pk, t) = (key(2).public_key(), text.clone());
    let r = op_within(node, CALM_LIMIT, async move { c.send("http://s1:1", pk, "main", Message::new(t, "s", MessageEncoding::default())).await.map_err(|e| e.to_string()) }).await;
    if let Some(e) = say(r) {
        fail("an honest client cannot send", e);
    }
    let (node, c) = honest[1].clone();
    let r = op_within(node, CALM_LIMIT, async move {
        let (v, _) = c.poll("main", None).await.map_err(|e| e.to_string())?;
        if v.iter().any(|m| m.message.content == text) {
            Ok(())
        } else {
            Err("the message is not there".into())
        }
    })
    .await;
    if let Some(e) = say(r) {
        fail("an honest client cannot poll", e);
    }
    let (node, c) = honest[0].clone();
    let r = op_within(node, CALM_LIMIT, async move {
        match c.lookup(key(2).public_key(), None).await.map_err(|e| e.to_string())? {
            Some(_) => Ok(()),
            None => Err("not found".into()),
        }
    })
    .await;
    if let Some(e) = say(r) {
        fail("an honest client cannot look another up", e);
    }
    let node = exec::add_node("client");
    match connect(node, key(4), ClientInfo::thin(), "s1:1").await {
        Ok(c) => {
            let r = op_within(node, CALM_LIMIT, async move {
                let bare = ClientMiddleware::new(SimHttpClient::new(node), ClientDriver::new(ClientInfo::thin(), key(5)));
                bare.get_info("s1:1").await.map_err(|e| format!("info: {e}"))?;
                let l = bare.get_clients("s1:1").await.map_err(|e| format!("clients: {e}"))?;
                if !l.iter().any(|c| c.public_key == key(4).public_key()) {
                    return Err("clients: not listed".into());
                }
                bare.get_servers("s1:1").await.map_err(|e| format!("servers: {e}"))?;
                c.disconnect().await.map_err(|e| format!("disconnect: {e}"))?;
                Ok(())
            })
            .await;
            if let Some(e) = say(r) {
                fail("an honest client cannot use the server", e);
            }
        }
        Err(e) => fail("an honest client cannot connect", e),
    }
}
