//! Honest clients and an adversary at two servers' endpoints (C09, C17).
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use hyperborealib::http::client::HttpClient;
use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

use super::refer::{self, Ask, Pk, RClient, RServer};
use super::server::{connect, server_unit, Running, ServerCfg};
use super::*;
use crate::exec::{log, stat, violation};
use crate::net::{self, net, NetCfg, SimHttpClient};

const ADDRS: [&str; 2] = ["s1:1", "s2:1"];
const CHANNELS: [&str; 2] = ["main", "x"];

#[derive(Default)]
struct Mon {
    /// what was delivered to each server and what it may have done
    locals: [Vec<RClient>; 2],
    remotes: [Vec<(RClient, RServer)>; 2],
    /// what any request gave, proven or not
    given: [Vec<RClient>; 2],
    servers: [Vec<RServer>; 2],
    gone: [BTreeSet<Pk>; 2],
    sends: [BTreeMap<(Pk, String), Vec<String>>; 2],
    acked: [Vec<(Pk, Ak)>; 2],
    polled: [BTreeMap<(Pk, String), Vec<String>>; 2],
    /// polls whose answer is not known to have arrived
    open_polls: BTreeMap<u64, (usize, Pk, String)>,
    pending: BTreeMap<u64, (usize, bool, Option<Pk>, Option<Ask>)>,
    /// captured requests (host, path, body) and proofs
    pool: Vec<(usize, String, Json)>,
    proofs: Vec<(Json, Json)>,
    certs: Vec<(Pk, Json)>,
}

enum Ak {
    Local,
    Remote,
    Sent(Pk, String, String),
}

type M = Sh<Mon>;

fn kname(p: &Pk) -> String {
    (0..32).find(|i| key(*i).public_key().to_bytes() == *p).map(|i| format!("key {i}")).unwrap_or("a stranger".into())
}

fn spk(i: usize) -> Pk {
    key(20 + i).public_key().to_bytes()
}

fn host_of(h: &str) -> Option<usize> {
    ADDRS.iter().position(|a| *a == h)
}

fn on_request(m: &M, c: &net::Call) {
    let Some(h) = host_of(&c.host) else { return };
    let Ok(j) = serde_json::from_str::<Json>(&c.body) else { return };
    if c.method != "POST" {
        return;
    }
    let mut g = m.lock().unwrap();
    let r = refer::request(&c.path, &j, &spk(h));
    stat(if r.is_some() { "delivered.valid" } else { "delivered.invalid" });
    let valid = r.is_some();
    // records as given, whether the request proves anything or not
    if c.path == "/api/v1/connect" {
        let q = &j["request"];
        if let (Some(p), Some(ce), Some((ty, addr))) = (refer::pk(&j["public_key"]), refer::cert(&q["certificate"]), refer::info(&q["client"])) {
            g.given[h].push(RClient { pk: p, cert: ce, ty, addr });
        }
    }
    if c.path == "/api/v1/announce" {
        if let Some(x) = refer::client(&j["request"]["client"]) {
            g.given[h].push(x);
        }
    }
    log(|| format!("#{} to {} {} valid {} by {}", c.seq, c.host, c.path, valid, r.as_ref().map(|r| kname(&r.0)).unwrap_or_default()));
    if let Some((id, a)) = &r {
        match a {
            Ask::Connect(c) => g.locals[h].push(c.clone()),
            Ask::AnnounceClient(c, s) => g.remotes[h].push((c.clone(), s.clone())),
            Ask::AnnounceServer(s) => g.servers[h].push(s.clone()),
            Ask::Disconnect => {
                g.gone[h].insert(*id);
            }
            Ask::Send(r, ch, x) => g.sends[h].entry((*r, ch.clone())).or_default().push(x.clone()),
            Ask::Poll(ch) => {
                g.open_polls.insert(c.seq, (h, *id, ch.clone()));
            }
            Ask::Lookup => {}
        }
    }
    let (id, a) = match r {
        Some((i, a)) => (Some(i), Some(a)),
        None => (None, None),
    };
    g.pending.insert(c.seq, (h, valid, id, a));
    if g.pool.len() < 60 {
        g.pool.push((h, c.path.clone(), j));
    }
}

fn on_response(m: &M, c: &net::Call, r: &net::Reply) {
    let Some(h) = host_of(&c.host) else { return };
    let Ok(j) = serde_json::from_str::<Json>(&r.1) else { return };
    if c.method == "GET" {
        if c.path == "/api/v1/clients" {
            for x in j["clients"].as_array().into_iter().flatten() {
                served(m, h, x, None);
            }
        }
        if c.path == "/api/v1/servers" {
            for x in j["servers"].as_array().into_iter().flatten() {
                let g = m.lock().unwrap();
                if !refer::server(x).map(|s| g.servers[h].contains(&s)).unwrap_or(false) {
                    violation("C09", "alien-server", format!("server {h} lists a server nobody announced to it with a valid request"));
                }
            }
        }
        if let (Some(p), Some(k)) = (j.get("proof"), j.get("server").and_then(|s| s.get("public_key"))) {
            m.lock().unwrap().proofs.push((k.clone(), p.clone()));
        }
        return;
    }
    let Some((_, valid, id, ask)) = m.lock().unwrap().pending.remove(&c.seq) else { return };
    let ok = refer::success(&j);
    log(|| format!("#{} answered {} success {ok}", c.seq, r.0));
    if !ok {
        // refused or failed: nothing was handed out
        m.lock().unwrap().open_polls.remove(&c.seq);
        let readable = j["standard"] == 1 && j["reason"].is_string() && matches!(j["status"].as_u64(), Some(200 | 300 | 301 | 310 | 311 | 320 | 321 | 322));
        if !readable {
            violation("C09", "unreadable-refusal", format!("server {h} refused a request to {} with an answer that is no error of the protocol: {}", c.path, short(&r.1)));
        }
        return;
    }
    if !valid {
        violation("C09", format!("accepted-invalid-{}", c.path.rsplit('/').next().unwrap_or("")), format!("server {h} accepted a request to {} that proves nothing: {}", c.path, short(&c.body)));
        return;
    }
    if let Some(p) = j.get("proof").and_then(|p| p.get("sign")) {
        // the server signed a seed of the client's choice
        if let Some(s) = serde_json::from_str::<Json>(&c.body).ok().and_then(|b| b["proof"]["seed"].as_u64()) {
            m.lock().unwrap().proofs.push((j["public_key"].clone(), json!({"seed": s, "sign": p})));
        }
    }
    let id = id.unwrap();
    match ask.unwrap() {
        Ask::Connect(_) => m.lock().unwrap().acked[h].push((id, Ak::Local)),
        Ask::AnnounceClient(c, _) => m.lock().unwrap().acked[h].push((c.pk, Ak::Remote)),
        Ask::Send(r, ch, x) => m.lock().unwrap().acked[h].push((id, Ak::Sent(r, ch, x))),
        Ask::Lookup => {
            let b = &j["response"];
            match b["disposition"].as_str() {
                Some("local") => served(m, h, &b["client"], None),
                Some("remote") => served(m, h, &b["client"], Some(&b["server"])),
                _ => {}
            }
        }
        Ask::Poll(ch) => {
            let mut g = m.lock().unwrap();
            g.open_polls.remove(&c.seq);
            for x in j["response"]["messages"].as_array().into_iter().flatten() {
                let t = x["message"]["content"].as_str().unwrap_or("").to_string();
                let known = g.sends[h].get(&(id, ch.clone())).map(|v| v.contains(&t)).unwrap_or(false);
                if !known {
                    violation("C09", "revealed", format!("a poll proven by {} for {ch:?} got a message that no valid request put there", kname(&id)));
                }
                g.polled[h].entry((id, ch.clone())).or_default().push(t);
            }
        }
        _ => {}
    }
}

/// A client record handed out by server h.
fn served(m: &M, h: usize, c: &Json, server: Option<&Json>) {
    stat("served.records");
    let Some(r) = refer::client(c) else {
        violation("C17", "unreadable-record", format!("server {h} handed out a record that cannot be read: {}", short(&c.to_string())));
        return;
    };
    let s = match server {
        None => RServer { pk: spk(h), addr: String::new() },
        Some(s) => match refer::server(s) {
            Some(s) => s,
            None => {
                violation("C17", "unreadable-record", format!("server {h} handed out a record without a readable server"));
                return;
            }
        },
    };
    let what = if server.is_some() { "remote" } else { "local" };
    if !refer::cert_ok(&r.cert, &r.pk, &s.pk) {
        violation("C17", format!("invalid-certificate-{what}"), format!("server {h} handed out a {what} record of {} whose certificate does not hold for {}", kname(&r.pk), kname(&s.pk)));
    }
    let g = m.lock().unwrap();
    let known = match server {
        None => g.locals[h].contains(&r),
        Some(_) => g.remotes[h].contains(&(r.clone(), s)),
    };
    if !g.given[h].contains(&r) {
        violation("C17", format!("not-as-supplied-{what}"), format!("server {h} handed out a {what} record of {} that no request supplied", kname(&r.pk)));
    }
    if !known {
        violation("C09", format!("alien-record-{what}"), format!("server {h} holds a {what} record of {} that no valid request supplied", kname(&r.pk)));
    }
}

// ------------------------------------------------------------------ the adversary

fn sign_of(k: &SecretKey, b: &[u8]) -> String {
    b64e(&k.create_signature(b))
}

fn b64e(b: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE.encode(b)
}

fn b64d(s: &str) -> Vec<u8> {
    refer::b64(s).unwrap_or_default()
}

fn seed_num() -> u64 {
    match w(4) {
        0 => pick(&[0, 1, (1 << 63) - 1, 1 << 62, u32::MAX as u64]),
        1 => pick(&[1 << 63, u64::MAX, (1 << 63) + 1]),
        _ => (1 << 63) | ((w(u32::MAX) as u64) << 20) | 5,
    }
}

fn long_key(k: usize) -> String {
    // the same point, written out in full
    let p = k256::PublicKey::from_sec1_bytes(&key(k).public_key().to_bytes()).unwrap();
    use k256::elliptic_curve::sec1::ToEncodedPoint;
    b64e(p.to_encoded_point(false).as_bytes())
}

fn who() -> usize {
    [1, 2, 3, 10, 11, 20, 21][w(7) as usize]
}

fn honest() -> usize {
    1 + w(3) as usize
}

fn bad() -> usize {
    10 + w(2) as usize
}

fn date() -> u64 {
    exec::EPOCH_S + [5, 1, 100, 4_000_000][w(4) as usize]
}

fn cert_json(signer: usize, date: u64, srv: &PublicKey) -> Json {
    let mut t = date.to_be_bytes().to_vec();
    t.extend(srv.to_bytes());
    json!({"token": b64e(&t), "sign": sign_of(&key(signer), &t)})
}

fn some_cert(m: &M, k: usize, h: usize) -> Json {
    let srv = key(20 + h).public_key();
    match w(7) {
        0 => cert_json(bad(), date(), &srv),
        1 => cert_json(bad(), date(), &key(20 + 1 - h).public_key()),
        2 if k >= 10 => cert_json(k, date(), &srv),
        3 if k >= 10 => cert_json(k, date(), &key(21 - h).public_key()),
        4 => {
            // another certificate's signature under a fresh token
            let mut c = cert_json(bad(), date(), &srv);
            let g = m.lock().unwrap();
            if !g.certs.is_empty() {
                c["sign"] = pick(&g.certs).1["sign"].clone();
            }
            c
        }
        _ => {
            let g = m.lock().unwrap();
            if g.certs.is_empty() {
                return cert_json(bad(), date(), &srv);
            }
            let mut c = pick(&g.certs).1;
            drop(g);
            match w(5) {
                0 => {
                    let mut t = b64d(c["token"].as_str().unwrap());
                    if t.len() == 41 {
                        t[7] = t[7].wrapping_add(1 + w(9) as u8);
                        c["token"] = b64e(&t).into();
                    }
                }
                1 => {
                    let mut t = b64d(c["token"].as_str().unwrap());
                    if t.len() == 41 {
                        t.truncate(8);
                        t.extend(key(20 + w(2) as usize).public_key().to_bytes());
                        c["token"] = b64e(&t).into();
                    }
                }
                _ => {}
            }
            c
        }
    }
}

fn info_json() -> Json {
    json!({"type": pick(&["thin", "thick", "server", "file"]), "address": if wp(0.5) { Json::Null } else { format!("evil{}:1", w(9)).into() }})
}

fn client_json(m: &M, k: usize, h: usize) -> Json {
    // records seen elsewhere come with their certificates
    json!({"public_key": key(k).public_key().to_base64(), "certificate": some_cert(m, k, h), "client": info_json()})
}

fn body(m: &M, path: &str, k: usize, h: usize) -> Json {
    match path {
        "/api/v1/connect" => json!({"certificate": some_cert(m, k, h), "client": info_json()}),
        "/api/v1/announce" => {
            let about = who();
            if wp(0.2) {
                return json!({"announce": "server", "server": {"public_key": key(about).public_key().to_base64(), "address": format!("evil{}:1", w(9))}});
            }
            let at = w(2) as usize;
            let srv = if wp(0.8) { 20 + at } else { who() };
            json!({"announce": "client", "client": client_json(m, about, at), "server": {"public_key": key(srv).public_key().to_base64(), "address": format!("evil{}:1", w(9))}})
        }
        "/api/v1/lookup" => json!({"public_key": key(who()).public_key().to_base64(), "type": Json::Null}),
        "/api/v1/send" => {
            let n = stamp();
            json!({
                "sender": {"client": client_json(m, k, h), "server": {"public_key": key(20 + h).public_key().to_base64(), "address": "evil:1"}},
                "receiver": {"public_key": key(who()).public_key().to_base64()},
                "channel": pick(&CHANNELS),
                "message": {"content": format!("evil{n}"), "sign": "x", "encoding": "base64"}
            })
        }
        "/api/v1/poll" => json!({"channel": pick(&CHANNELS), "limit": if wp(0.3) { Json::Null } else { w(3).into() }}),
        _ => json!({}),
    }
}

const PATHS: [&str; 6] = ["/api/v1/connect", "/api/v1/announce", "/api/v1/disconnect", "/api/v1/poll", "/api/v1/send", "/api/v1/lookup"];

/// Change one thing about a request.
fn mutate(m: &M, h: usize, path: &str, j: &mut Json) {
    stat("fault.forged_mutation");
    match w(12) {
        0 => j["public_key"] = key(who()).public_key().to_base64().into(),
        1 => j["proof"]["seed"] = seed_num().into(),
        2 => {
            let s = j["proof"]["seed"].as_u64().unwrap_or(0);
            j["proof"]["seed"] = (s ^ (1 << w(64))).into();
        }
        3 => {
            let mut s = b64d(j["proof"]["sign"].as_str().unwrap_or(""));
            if !s.is_empty() {
                let i = w(s.len() as u32) as usize;
                s[i] ^= 1 << w(8);
            }
            j["proof"]["sign"] = b64e(&s).into();
        }
        4 => j["proof"]["sign"] = b64e(&vec![0u8; [0, 1, 63, 64, 65][w(5) as usize]]).into(),
        5 => {
            let g = m.lock().unwrap();
            if !g.proofs.is_empty() {
                let (k, p) = pick(&g.proofs);
                if wp(0.5) {
                    j["public_key"] = k;
                }
                j["proof"] = p;
            }
        }
        6 => {
            let k = bad();
            let s = seed_num();
            j["proof"] = json!({"seed": s, "sign": sign_of(&key(k), &s.to_be_bytes())});
            if wp(0.5) {
                j["public_key"] = key(k).public_key().to_base64().into();
            }
        }
        7 => {
            let k = who();
            let b = body(m, path, k, h);
            j["request"] = b;
        }
        8 => {
            // swap one part of the request with that of another
            let g = m.lock().unwrap();
            let same: Vec<Json> = g.pool.iter().filter(|p| p.1 == path).map(|p| p.2.clone()).collect();
            drop(g);
            if let (Some(o), false) = (j["request"].as_object().cloned(), same.is_empty()) {
                let from = pick(&same);
                let names: Vec<String> = o.keys().cloned().collect();
                if !names.is_empty() {
                    let n = pick(&names);
                    if let Some(v) = from["request"].get(&n) {
                        j["request"][n] = v.clone();
                    }
                }
            }
        }
        9 => {
            let k = who();
            j["public_key"] = long_key(k).into();
        }
        10 => {
            if path == "/api/v1/connect" || path == "/api/v1/announce" {
                let k = who();
                let c = some_cert(m, k, h);
                if path == "/api/v1/connect" {
                    j["request"]["certificate"] = c;
                } else if j["request"].get("client").is_some() {
                    match w(3) {
                        0 => j["request"]["client"]["certificate"] = c,
                        1 => j["request"]["client"]["public_key"] = key(k).public_key().to_base64().into(),
                        _ => j["request"]["server"]["public_key"] = key(20 + w(2) as usize).public_key().to_base64().into(),
                    }
                }
            }
        }
        _ => {
            // high-s twin of the signature
            if let Ok(s) = k256::ecdsa::Signature::from_slice(&b64d(j["proof"]["sign"].as_str().unwrap_or(""))) {
                let n = -*s.s();
                if let Ok(t) = k256::ecdsa::Signature::from_scalars(s.r().to_bytes(), n.to_bytes()) {
                    j["proof"]["sign"] = b64e(&t.to_vec()).into();
                }
            }
        }
    }
}

fn forge(m: &M) -> (usize, String, Json) {
    let h = w(2) as usize;
    let pool = m.lock().unwrap().pool.clone();
    if !pool.is_empty() && wp(0.55) {
        let (h0, path, mut j) = pick(&pool);
        let h = if wp(0.5) { h0 } else { h };
        match w(5) {
            0 => {}
            1 => {
                // a proof from one request, the rest from another
                let o = pick(&pool).2;
                j["proof"] = o["proof"].clone();
                if wp(0.6) {
                    j["public_key"] = o["public_key"].clone();
                }
            }
            _ => {
                for _ in 0..1 + w(2) {
                    mutate(m, h, &path, &mut j);
                }
            }
        }
        let path = if wp(0.1) { pick(&PATHS).to_string() } else { path };
        return (h, path, j);
    }
    let path = pick(&PATHS);
    let k = if wp(0.5) { bad() } else { honest() };
    let signer = if wp(0.5) { k.max(10) } else { bad() };
    let seed = seed_num();
    let mut j = json!({
        "standard": 1,
        "public_key": key(k).public_key().to_base64(),
        "proof": {"seed": seed, "sign": sign_of(&key(if signer >= 12 { bad() } else { signer }), &seed.to_be_bytes())},
        "request": body(m, path, k, h)
    });
    if wp(0.2) {
        mutate(m, h, path, &mut j);
    }
    (h, path.to_string(), j)
}

// ------------------------------------------------------------------ the run

pub fn root(prop: &'static str) -> Fut {
    Box::pin(run(prop))
}

async fn run(prop: &'static str) {
    let m: M = sh(Mon::default());
    let nodes = [exec::add_node("s1"), exec::add_node("s2")];
    let mut units: Vec<Unit<Running>> = Vec::new();
    let faulty = wp(if prop == "C17" { 0.5 } else { 0.25 });
    let mut fcfg = (false, false);
    if faulty {
        draw_faults(nodes[0], true);
        fcfg = (sim().nodes[nodes[0]].faults, sim().nodes[nodes[0]].crashable);
        calm(nodes[0]);
    } else {
        sim().p_switch = [0.3, 0.1, 0.6][w(3) as usize];
        coarse_clock();
        sim().step_ns = [5_000, 200_000][w(2) as usize];
    }
    for i in 0..2 {
        let dir = format!("/srv/{i}");
        let u = server_unit(ServerCfg { node: nodes[i], dir, addr: ADDRS[i].into(), key: key(20 + i) });
        if u.get(CALM_LIMIT).await.is_none() {
            violation(prop, "no-start", "a server did not start");
            return;
        }
        units.push(u);
        clock_jumps(nodes[i], 0.2);
    }
    let transit = [0.0, 0.1, 0.3][w(3) as usize];
    {
        let mm = m.clone();
        net().on_request = Some(Arc::new(move |c| {
            if c.from < 100 && c.method == "POST" && transit > 0.0 && wp(transit) && c.from != 0 {
                if let (Some(h), Ok(mut j)) = (host_of(&c.host), serde_json::from_str::<Json>(&c.body)) {
                    stat("fault.changed_in_transit");
                    mutate(&mm, h, &c.path, &mut j);
                    c.body = j.to_string();
                }
            }
            on_request(&mm, c);
            None
        }));
        let mm = m.clone();
        net().on_response = Some(Arc::new(move |c, r| on_response(&mm, c, r)));
    }
    net().cfg = NetCfg { max_delay: [MS, 20 * MS][w(2) as usize], ..Default::default() };
    if faulty {
        net().cfg.p_lost_reply = [0.0, 0.05][w(2) as usize];
        net().cfg.p_cut = [0.0, 0.1][w(2) as usize];
        sim().nodes[nodes[0]].faults = fcfg.0;
        sim().nodes[nodes[0]].crashable = fcfg.1;
    }
    let mut rxs = Vec::new();
    // honest clients
    let nh = 1 + w(3) as usize;
    for k in 1..=nh {
        let n = 2 + w(6);
        let cn = exec::add_node("client");
        let (mm, units) = (m.clone(), units.clone());
        let (_, rx) = exec::call(0, async move {
            let mut on: Option<(usize, hyperborealib::rest_api::prelude::ConnectedClientMiddleware<SimHttpClient>)> = None;
            for _ in 0..n {
                units[0].get(CALM_LIMIT).await;
                match on.take() {
                    None => {
                        let h = w(2) as usize;
                        let info = if wp(0.5) { ClientInfo::thin() } else { ClientInfo::thick(format!("c{k}:1")) };
                        stat("op.connect");
                        if let Ok(c) = connect(cn, key(k), info, ADDRS[h]).await {
                            stat("op.connect_ok");
                            let j = c.connection_certificate().to_json().unwrap();
                            mm.lock().unwrap().certs.push((key(k).public_key().to_bytes(), j));
                            on = Some((h, c));
                        }
                    }
                    Some((h, c)) => {
                        let kind = w(8);
                        let to = honest();
                        let there = w(2) as usize;
                        let ch = pick(&CHANNELS);
                        let id = stamp();
                        let lim = if wp(0.5) { None } else { Some(w(3) as u64) };
                        let r = op_within(cn, CALM_LIMIT, async move {
                            let bad = |e: MiddlewareError| e.to_string();
                            match kind {
                                0 => return c.disconnect().await.map(|_| None).map_err(bad),
                                1 | 2 => drop(c.announce(format!("http://{}", ADDRS[there])).await),
                                3 | 4 => drop(c.send(format!("http://{}", ADDRS[there]), key(to).public_key(), ch, Message::new(format!("m{id}"), "s", MessageEncoding::default())).await),
                                5 | 6 => drop(c.poll(ch, lim).await),
                                _ => drop(c.lookup(key(to).public_key(), None).await),
                            }
                            Ok(Some(c))
                        })
                        .await;
                        if let Some(Res::Ok(Some(c))) = r {
                            on = Some((h, c));
                        }
                    }
                }
                if wp(0.5) {
                    exec::sleep(w(20) as u64 * MS).await;
                }
            }
        });
        rxs.push(rx);
    }
    // adversaries
    for _ in 0..1 + w(2) {
        let n = 4 + w(16);
        let mm = m.clone();
        let (_, rx) = exec::call(0, async move {
            for _ in 0..n {
                exec::sleep(w(10) as u64 * 2 * MS).await;
                if wp(0.2) {
                    let h = w(2) as usize;
                    let p = pick(&["clients", "servers", "info"]);
                    let (_, rx) = exec::call(0, async move { drop(SimHttpClient::new(0).get(format!("http://{}/api/v1/{p}", ADDRS[h])).await) });
                    rx.await;
                    continue;
                }
                let (h, path, j) = forge(&mm);
                stat("op.forged");
                let (id, rx) = exec::call(0, async move { drop(SimHttpClient::new(0).post(format!("http://{}{path}", ADDRS[h]), j).await) });
                let t = sim().now + CALM_LIMIT;
                exec::at(t, move || {
                    exec::cancel(id);
                });
                rx.await;
            }
        });
        rxs.push(rx);
    }
    join_all(rxs).await;
    log(|| "CALM".into());
    calm(nodes[0]);
    net().cfg = NetCfg { max_delay: MS, ..Default::default() };
    net().on_request = None;
    if faulty && wp(0.5) {
        exec::crash(nodes[0]);
    }
    wait_alive(nodes[0]).await;
    for (h, u) in units.iter().enumerate() {
        let Some(r) = u.get(CALM_LIMIT).await else {
            violation(prop, "no-restart", "a server could not be restarted");
            return;
        };
        exec::sleep(SEC).await;
        for p in ["clients", "servers"] {
            let (_, rx) = exec::call(0, async move { drop(SimHttpClient::new(0).get(format!("http://{}/api/v1/{p}", ADDRS[h])).await) });
            rx.await;
        }
        finish(&m, h, nodes[h], r, !faulty).await;
    }
}

/// The final state is made of valid requests only, and nothing valid was undone.
async fn finish(m: &M, h: usize, node: NodeId, r: Arc<Running>, exact: bool) {
    let d = r.driver.clone();
    let lists = op_within(node, CALM_LIMIT, async move {
        let e = |e: <hyperborealib::drivers::server::router::global_table::GlobalTableRouter as Router>::Error| e.to_string();
        let t = d.router();
        Ok((t.local_clients().await.map_err(e)?, t.remote_clients().await.map_err(e)?, t.servers().await.map_err(e)?))
    })
    .await;
    let Some(Res::Ok((locals, remotes, servers))) = lists else { return };
    for c in &locals {
        served(m, h, &c.to_json().unwrap(), None);
    }
    for (c, s) in &remotes {
        served(m, h, &c.to_json().unwrap(), Some(&s.to_json().unwrap()));
    }
    for s in &servers {
        let x = refer::server(&s.to_json().unwrap());
        if !m.lock().unwrap().servers[h].iter().any(|y| Some(y) == x.as_ref()) {
            violation("C09", "alien-server", format!("server {h} holds a server nobody announced to it with a valid request"));
        }
    }
    if exact {
        let g = m.lock().unwrap();
        for (p, a) in &g.acked[h] {
            if g.gone[h].contains(p) {
                continue;
            }
            let there = match a {
                Ak::Local => locals.iter().any(|c| c.public_key.to_bytes() == *p),
                Ak::Remote => remotes.iter().any(|c| c.0.public_key.to_bytes() == *p),
                _ => true,
            };
            if !there {
                violation("C09", "removed-without-right", format!("server {h} lost a record of {} although nobody proved to be it disconnected", kname(p)));
            }
        }
    }
    // what is in the inboxes
    let boxes: BTreeSet<(Pk, String)> = (1..4)
        .chain(10..12)
        .chain(20..22)
        .flat_map(|k| CHANNELS.map(|c| (key(k).public_key().to_bytes(), c.to_string())))
        .collect();
    for (p, ch) in boxes {
        let d = r.driver.clone();
        let (pk, c2) = (PublicKey::from_bytes(p).unwrap(), ch.clone());
        let x = op_within(node, CALM_LIMIT, async move { d.messages_inbox().poll_messages(pk, c2, None).await.map_err(|e| e.to_string()) }).await;
        let Some(Res::Ok((v, _))) = x else { continue };
        let mut have: BTreeMap<String, i64> = BTreeMap::new();
        let g = m.lock().unwrap();
        let sent = g.sends[h].get(&(p, ch.clone())).cloned().unwrap_or_default();
        for i in &v {
            if !sent.contains(&i.message.content) {
                violation("C09", "alien-message", format!("the inbox of {} on server {h} holds a message no valid request put there", kname(&p)));
            }
            *have.entry(i.message.content.clone()).or_default() += 1;
        }
        for t in g.polled[h].get(&(p, ch.clone())).into_iter().flatten() {
            *have.entry(t.clone()).or_default() += 1;
        }
        let open = g.open_polls.values().any(|o| o.0 == h && o.1 == p && o.2 == ch);
        if exact && !open {
            for (_, a) in &g.acked[h] {
                if let Ak::Sent(rp, c, t) = a {
                    if *rp == p && *c == ch {
                        let n = have.entry(t.clone()).or_default();
                        *n -= 1;
                        if *n < 0 {
                            violation("C09", "drained-without-right", format!("a message left the inbox of {} on server {h} although no proven poll took it", kname(&p)));
                        }
                    }
                }
            }
        }
    }
}
