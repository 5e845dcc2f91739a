//! Clients facing impostors and a man in the middle who rewrites answers (C10).
use std::collections::BTreeMap;
use std::sync::Arc;

use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

use super::refer::{self, Pk};
use super::server::{server_unit, Running, ServerCfg};
use super::*;
use crate::exec::{log, stat, violation};
use crate::net::{self, net, Fake, NetCfg, SimHttpClient, Site};

const ADDRS: [&str; 3] = ["s1:1", "s2:1", "evil:1"];
const EVIL: usize = 10;

/// An answer as the client got it.
#[derive(Clone)]
struct Got {
    method: &'static str,
    host: String,
    path: String,
    http: u16,
    seed: u64,
    body: Option<Json>,
}

#[derive(Default)]
struct Mon {
    got: BTreeMap<NodeId, Vec<Got>>,
    pool: Vec<(String, Json)>,
    /// Proof seeds of the clients' requests, and the calls that made them.
    seeds: BTreeMap<u64, u64>,
    calls: BTreeMap<NodeId, u64>,
    n_calls: u64,
}

type M = Sh<Mon>;

fn b64e(b: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::URL_SAFE.encode(b)
}

fn sign(k: usize, seed: u64) -> Json {
    b64e(&key(k).create_signature(seed.to_be_bytes())).into()
}

fn pks(k: usize) -> Json {
    key(k).public_key().to_base64().into()
}

fn any_server() -> usize {
    pick(&[20, 21, EVIL, 11])
}

fn good_body(path: &str, req: &Json) -> Json {
    match path {
        "/api/v1/poll" => json!({"messages": [], "remaining": w(3)}),
        "/api/v1/lookup" => {
            let who = req["request"]["public_key"].clone();
            let srv = 20 + w(2) as usize;
            let k = (1..4).find(|k| pks(*k) == who).unwrap_or(1);
            let c = Client::new(key(k).public_key(), super::wire::cert(&key(k), &key(srv).public_key(), exec::EPOCH_S), ClientInfo::thin());
            match w(3) {
                0 => json!({"disposition": "local", "client": c.to_json().unwrap(), "available": true}),
                1 => json!({"disposition": "remote", "client": c.to_json().unwrap(), "available": true, "server": {"public_key": pks(srv), "address": "elsewhere:1"}}),
                _ => json!({"disposition": "hint", "servers": [{"public_key": pks(21), "address": pick(&ADDRS)}]}),
            }
        }
        _ => json!({}),
    }
}

fn info(k: usize) -> Json {
    let s = (1 << 63) | w(u32::MAX) as u64;
    json!({"standard": 1, "server": {"public_key": pks(k)}, "proof": {"seed": s, "sign": sign(k, s)}})
}

fn seed_of(req: &str) -> u64 {
    serde_json::from_str::<Json>(req).ok().and_then(|j| j["proof"]["seed"].as_u64()).unwrap_or(0)
}

/// What an impostor answers.
fn impostor(c: &net::Call) -> Fake {
    let req = serde_json::from_str::<Json>(&c.body).unwrap_or(Json::Null);
    if c.path == "/api/v1/info" {
        let mut j = info(EVIL);
        match w(4) {
            0 => j["server"]["public_key"] = pks(20),
            1 => j["proof"]["seed"] = 5.into(),
            _ => {}
        }
        return Fake::Reply(200, j.to_string());
    }
    let s = seed_of(&c.body);
    let k = EVIL;
    let mut j = json!({"standard": 1, "status": 100, "public_key": pks(k), "proof": {"sign": sign(k, s)}, "response": good_body(&c.path, &req)});
    match w(6) {
        0 => j["public_key"] = pks(20),
        1 => j["status"] = 200.into(),
        2 => j["proof"]["sign"] = sign(k, s ^ 1),
        3 => j = json!({"standard": 1, "status": pick(&[200, 301, 311, 322]), "reason": "no"}),
        _ => {}
    }
    Fake::Reply(200, j.to_string())
}

fn rewrite(m: &M, c: &net::Call, j: &mut Json) {
    stat("fault.answer_rewritten");
    let req = serde_json::from_str::<Json>(&c.body).unwrap_or(Json::Null);
    let g = m.lock().unwrap();
    if c.path == "/api/v1/info" {
        match w(8) {
            0 => *j = info(any_server()),
            1 => j["server"]["public_key"] = pks(any_server()),
            2 => {
                let s = pick(&[0u64, 1, (1 << 63) - 1, 1 << 63, u64::MAX]);
                let k = any_server();
                *j = json!({"standard": 1, "server": {"public_key": pks(k)}, "proof": {"seed": s, "sign": sign(k, s)}});
            }
            3 => j["proof"]["seed"] = (j["proof"]["seed"].as_u64().unwrap_or(0) ^ (1 << w(64))).into(),
            4 => j["proof"]["sign"] = b64e(&[7; 64]).into(),
            5 => {
                let v: Vec<&(String, Json)> = g.pool.iter().filter(|p| p.0 == c.path).collect();
                if !v.is_empty() {
                    let o = pick(&v).1.clone();
                    match w(3) {
                        0 => *j = o,
                        1 => j["proof"] = o["proof"].clone(),
                        _ => j["server"] = o["server"].clone(),
                    }
                }
            }
            6 => *j = pick(&[Json::Null, json!([]), json!("x"), json!({"standard": 1}), json!({"standard": 2})]),
            _ => {
                let k = EVIL;
                let s = j["proof"]["seed"].as_u64().unwrap_or(0);
                j["proof"]["sign"] = sign(k, s);
            }
        }
        return;
    }
    let s = seed_of(&c.body);
    match w(13) {
        0 => {
            let v: Vec<&(String, Json)> = g.pool.iter().filter(|p| p.0 == c.path).collect();
            if !v.is_empty() {
                *j = pick(&v).1.clone();
            }
        }
        1 => {
            if !g.pool.is_empty() {
                *j = pick(&g.pool).1.clone();
            }
        }
        2 | 3 => {
            // somebody else signs this very seed
            let k = any_server();
            *j = json!({"standard": 1, "status": 100, "public_key": pks(k), "proof": {"sign": sign(k, s)}, "response": if j.get("response").is_some() { j["response"].clone() } else { good_body(&c.path, &req) }});
        }
        4 => j["proof"] = json!({"sign": sign(EVIL, s)}),
        5 => j["public_key"] = pks(any_server()),
        6 => {
            let mut b = refer::b64(j["proof"]["sign"].as_str().unwrap_or("")).unwrap_or_default();
            if !b.is_empty() {
                let i = w(b.len() as u32) as usize;
                b[i] ^= 1 << w(8);
                j["proof"]["sign"] = b64e(&b).into();
            }
        }
        7 => {
            j["status"] = pick(&[100, 200, 300, 301, 310, 311, 320, 321, 322, 101, 150, 0]).into();
            if wp(0.5) {
                j["reason"] = "because".into();
            }
        }
        8 => {
            // an error dressed up
            let k = any_server();
            *j = json!({"standard": 1, "status": pick(&[100, 200, 311]), "reason": "no", "public_key": pks(k), "proof": {"sign": sign(if wp(0.5) { k } else { EVIL }, if wp(0.5) { s } else { s.wrapping_add(1) })}, "response": good_body(&c.path, &req)});
        }
        9 => j["proof"] = json!({"sign": b64e(&vec![0u8; pick(&[0usize, 1, 63, 64, 65])])}),
        10 => *j = pick(&[Json::Null, json!([]), json!("x"), json!(3), json!({"standard": 1}), json!({"standard": 2, "status": 100}), json!({"standard": 1, "status": 100})]),
        11 => {
            // the connected server's key with a signature it made on another seed
            let v: Vec<Json> = g.pool.iter().filter(|p| p.1.get("status").is_some()).map(|p| p.1.clone()).collect();
            if !v.is_empty() {
                let o = pick(&v);
                j["proof"] = o["proof"].clone();
                j["public_key"] = o["public_key"].clone();
            }
        }
        _ => {
            if let Ok(x) = k256::ecdsa::Signature::from_slice(&refer::b64(j["proof"]["sign"].as_str().unwrap_or("")).unwrap_or_default()) {
                let n = -*x.s();
                if let Ok(t) = k256::ecdsa::Signature::from_scalars(x.r().to_bytes(), n.to_bytes()) {
                    j["proof"]["sign"] = b64e(&t.to_vec()).into();
                }
            }
        }
    }
}

type Conn = hyperborealib::rest_api::prelude::ConnectedClientMiddleware<SimHttpClient>;

enum Done {
    Info(InfoResponse),
    Conn(Conn, Option<PublicKey>),
    Gone,
    Plain(Conn),
    Poll(Conn, Vec<MessageInfo>, u64),
    Look(Conn, Option<(Client, Server, bool)>, PublicKey),
}

pub fn root(_prop: &'static str) -> Fut {
    Box::pin(run())
}

async fn run() {
    let m: M = sh(Mon::default());
    sim().p_switch = [0.3, 0.1, 0.6][w(3) as usize];
    coarse_clock();
    sim().step_ns = [5_000, 200_000][w(2) as usize];
    let mut units: Vec<Unit<Running>> = Vec::new();
    for i in 0..2 {
        let node = exec::add_node("server");
        let u = server_unit(ServerCfg { node, dir: format!("/srv/{i}"), addr: ADDRS[i].into(), key: key(20 + i) });
        if u.get(CALM_LIMIT).await.is_none() {
            violation("C10", "no-start", "a server did not start");
            return;
        }
        units.push(u);
    }
    let en = exec::add_node("evil");
    net::add_host("evil:1", en, Some(Site::Fake(Arc::new(impostor))));
    let p = [0.15, 0.4, 0.05, 0.0][w(4) as usize];
    {
        let mm = m.clone();
        net().on_request = Some(Arc::new(move |c| {
            // one call may ask several servers, or one server again, the same
            if c.method == "POST" {
                stat("seeds_checked");
                let mut g = mm.lock().unwrap();
                let call = *g.calls.get(&c.from).unwrap_or(&0);
                if *g.seeds.entry(seed_of(&c.body)).or_insert(call) != call {
                    violation("C10", "seed-reused", format!("a {} request carries the proof seed of an earlier call's request, whose answer would pass for its own", c.path));
                }
            }
            None
        }));
    }
    {
        let mm = m.clone();
        net().on_response = Some(Arc::new(move |c, r| {
            let mut j = serde_json::from_str::<Json>(&r.1).ok();
            if let Some(j) = &mut j {
                let genuine = j.clone();
                if wp(p) {
                    rewrite(&mm, c, j);
                    r.1 = j.to_string();
                    r.0 = if wp(0.1) { 500 } else { r.0 };
                }
                let mut g = mm.lock().unwrap();
                if g.pool.len() < 40 && c.method != "GET" || c.path == "/api/v1/info" {
                    g.pool.push((c.path.clone(), genuine));
                }
            }
            mm.lock().unwrap().got.entry(c.from).or_default().push(Got { method: c.method, host: c.host.clone(), path: c.path.clone(), http: r.0, seed: seed_of(&c.body), body: j });
        }));
    }
    net().cfg = NetCfg {
        max_delay: [MS, 20 * MS][w(2) as usize],
        p_refuse: [0.0, 0.03][w(2) as usize],
        p_lost_reply: [0.0, 0.03][w(2) as usize],
        ..Default::default()
    };
    let mut rxs = Vec::new();
    for k in 1..=1 + w(3) as usize {
        let node = exec::add_node("client");
        let mm = m.clone();
        let n = 3 + w(9);
        let (_, rx) = exec::call(0, async move {
            let mut conn: Option<Conn> = None;
            for _ in 0..n {
                conn = step(&mm, node, k, conn).await;
                if wp(0.3) {
                    exec::sleep(w(10) as u64 * MS).await;
                }
            }
        });
        rxs.push(rx);
    }
    join_all(rxs).await;
}

fn code(s: ResponseStatus) -> u64 {
    use ResponseStatus::*;
    match s {
        Success => 100,
        ServerError => 200,
        InvalidRequestStructure => 300,
        RequestValidationFailed => 301,
        ClientLookupTimeout => 310,
        ClientNotFound => 311,
        ClientNotConnected => 320,
        ClientInboxFull => 321,
        MessageTooLarge => 322,
    }
}

/// A call failed: a refusal names the status and the reason of the answer.
fn failure(m: &M, node: NodeId, what: &str, e: &str) {
    let got = m.lock().unwrap().got.get(&node).cloned().unwrap_or_default();
    let refusal = |g: &Got| -> Option<(u64, String)> {
        let j = g.body.as_ref()?;
        let c = j["status"].as_u64().filter(|c| [200, 300, 301, 310, 311, 320, 321, 322].contains(c))?;
        (g.method == "POST" && j["standard"] == 1).then_some((c, j["reason"].as_str()?.to_string()))
    };
    match e.strip_prefix("refused: ") {
        Some(e) => {
            stat("refusals_compared");
            if !got.iter().filter_map(refusal).any(|(c, r)| e == format!("{c} {r}")) {
                violation("C10", "other-refusal", format!("{what} failed with status and reason {e:?}, which no answer said"));
            }
        }
        None => {
            if let Some((c, r)) = got.last().filter(|g| g.http == 200).and_then(refusal) {
                violation("C10", "refusal-hidden", format!("{what} was refused with status {c} and reason {r:?} but failed with {e:?}"));
            }
        }
    }
}

async fn step(m: &M, node: NodeId, k: usize, conn: Option<Conn>) -> Option<Conn> {
    {
        let mut g = m.lock().unwrap();
        g.got.insert(node, Vec::new());
        g.n_calls += 1;
        let n = g.n_calls;
        g.calls.insert(node, n);
    }
    let bad = |e: MiddlewareError| match e {
        MiddlewareError::RequestFailed { status, reason } => format!("refused: {} {reason}", code(status)),
        e => e.to_string(),
    };
    let addr = ADDRS[[0, 1, 2, 0][w(4) as usize]];
    let (name, server) = match &conn {
        None => ("connect", None),
        Some(c) => ("", Some(c.connected_server().clone())),
    };
    let mut what = name.to_string();
    let r = match conn {
        None => {
            let c = ClientMiddleware::new(SimHttpClient::new(node), ClientDriver::new(ClientInfo::thin(), key(k)));
            match w(4) {
                0 => {
                    what = "get_info".into();
                    op_within(node, CALM_LIMIT, async move { c.get_info(addr).await.map(Done::Info).map_err(bad) }).await
                }
                1 | 2 => {
                    what = "connect".into();
                    op_within(node, CALM_LIMIT, async move { c.connect(addr).await.map(|c| Done::Conn(c, None)).map_err(bad) }).await
                }
                _ => {
                    what = "connect_to".into();
                    let expect = key(pick(&[20, 21, EVIL])).public_key();
                    op_within(node, CALM_LIMIT, async move { c.connect_to(addr, expect.clone()).await.map(|c| Done::Conn(c, Some(expect))).map_err(bad) }).await
                }
            }
        }
        Some(c) => {
            let kind = w(10);
            let other = key(1 + w(3) as usize).public_key();
            let ch = pick(&["main", "x"]);
            let lim = if wp(0.5) { None } else { Some(w(3) as u64) };
            let keep = c.clone();
            what = ["announce", "announce", "send", "send", "poll", "poll", "poll", "lookup", "lookup", "disconnect"][kind as usize].into();
            let r = op_within(node, CALM_LIMIT, async move {
                match kind {
                    0 | 1 => c.announce(format!("http://{addr}")).await.map(|_| Done::Plain(c)).map_err(bad),
                    2 | 3 => {
                        let msg = Message::new("hi", "s", MessageEncoding::default());
                        c.send(format!("http://{addr}"), other, ch, msg).await.map(|_| Done::Plain(c)).map_err(bad)
                    }
                    4..=6 => c.poll(ch, lim).await.map(|(v, n)| Done::Poll(c, v, n)).map_err(bad),
                    7 | 8 => c.lookup(other.clone(), None).await.map(|r| Done::Look(c, r, other)).map_err(bad),
                    _ => c.disconnect().await.map(|_| Done::Gone).map_err(bad),
                }
            })
            .await;
            match r {
                Some(Res::Ok(d)) => Some(Res::Ok(d)),
                r => {
                    log(|| format!("{what} failed"));
                    if let Some(Res::Err(e)) = r {
                        failure(m, node, &what, &e);
                    }
                    stat("op.rejected_or_failed");
                    return Some(keep);
                }
            }
        }
    };
    let d = match r {
        Some(Res::Ok(d)) => d,
        Some(Res::Err(e)) => {
            log(|| format!("{what} -> Err {e:?}"));
            failure(m, node, &what, &e);
            stat("op.rejected_or_failed");
            return None;
        }
        _ => return None,
    };
    stat("op.succeeded");
    log(|| format!("{what} by client {k} at {addr} succeeded"));
    let got = m.lock().unwrap().got.get(&node).cloned().unwrap_or_default();
    let last = |path: &str| got.iter().rev().find(|g| g.path == path).cloned();
    // the answer behind this success, and the key it proves
    let proven = |path: &str| -> Option<(Pk, Json)> {
        let g = last(path)?;
        let j = g.body?;
        if !refer::success(&j) {
            return None;
        }
        Some((refer::answer(&j, g.seed)?, j))
    };
    let unproven = |path: &str| {
        violation("C10", format!("unproven-{what}"), format!("{what} reported success on an answer without a valid proof: {}", last(path).and_then(|g| g.body).map(|b| short(&b.to_string())).unwrap_or_default()));
    };
    let wrong = |got: &Pk, want: &PublicKey| {
        if *got != want.to_bytes() {
            violation("C10", format!("wrong-signer-{what}"), format!("{what} reported success on an answer signed by another key than the expected server's"));
        }
    };
    match d {
        Done::Info(i) => {
            let ok = last("/api/v1/info").and_then(|g| g.body).and_then(|j| refer::info_answer(&j));
            match ok {
                None => unproven("/api/v1/info"),
                Some(p) => wrong(&p, &i.public_key),
            }
            None
        }
        Done::Conn(c, expect) => {
            let want = match expect {
                Some(e) => e,
                None => match last("/api/v1/info").and_then(|g| g.body).and_then(|j| refer::info_answer(&j)) {
                    None => {
                        unproven("/api/v1/info");
                        return None;
                    }
                    Some(p) => PublicKey::from_bytes(p).unwrap(),
                },
            };
            match proven("/api/v1/connect") {
                None => unproven("/api/v1/connect"),
                Some((p, _)) => wrong(&p, &want),
            }
            if c.connected_server().public_key != want || c.connected_server().address != addr {
                violation("C10", "wrong-server", "the connected client names another server than it connected to");
            }
            Some(c)
        }
        Done::Gone => {
            match proven("/api/v1/disconnect") {
                None => unproven("/api/v1/disconnect"),
                Some((p, _)) => wrong(&p, &server.unwrap().public_key),
            }
            None
        }
        Done::Plain(c) => {
            let path = format!("/api/v1/{what}");
            if proven(&path).is_none() {
                unproven(&path);
            }
            Some(c)
        }
        Done::Poll(c, v, n) => {
            match proven("/api/v1/poll") {
                None => unproven("/api/v1/poll"),
                Some((p, j)) => {
                    wrong(&p, &server.unwrap().public_key);
                    let all: Vec<Json> = j["response"]["messages"].as_array().cloned().unwrap_or_default();
                    let brief = |j: &Json| (j["channel"].clone(), j["received_at"].clone(), j["message"].clone());
                    let same = all.len() == v.len()
                        && j["response"]["remaining"].as_u64() == Some(n)
                        && all.iter().zip(&v).all(|(j, m)| m.to_json().map(|m| brief(&m) == brief(j) && refer::pk(&m["sender"]["client"]["public_key"]) == refer::pk(&j["sender"]["client"]["public_key"])).unwrap_or(false));
                    if !same {
                        violation("C10", "other-content", "a poll returned something else than the proven answer holds");
                    }
                }
            }
            Some(c)
        }
        Done::Look(c, r, _who) => {
            if let Some((cl, sv, avail)) = r {
                // one of the answers, properly signed, gave this record
                let proven: Vec<(&Got, &Json, Pk)> = got
                    .iter()
                    .filter(|g| g.method == "POST")
                    .filter_map(|g| Some((g, g.body.as_ref()?)))
                    .filter(|(_, j)| refer::success(j))
                    .filter_map(|(g, j)| Some((g, j, refer::answer(j, g.seed)?)))
                    .filter(|(_, j, _)| refer::client(&j["response"]["client"]).map(|x| x.pk) == Some(cl.public_key.to_bytes()))
                    .collect();
                if proven.is_empty() {
                    unproven("/api/v1/lookup");
                } else {
                    stat("lookups_compared");
                    let mine = cl.to_json().ok().and_then(|j| refer::client(&j));
                    let same = proven.iter().any(|(g, j, by)| {
                        let r = &j["response"];
                        let srv = match r["disposition"].as_str() {
                            Some("local") => Some((*by, g.host.clone())),
                            _ => refer::server(&r["server"]).map(|s| (s.pk, s.addr)),
                        };
                        refer::client(&r["client"]) == mine && srv == Some((sv.public_key.to_bytes(), sv.address.clone())) && r["available"].as_bool().map(|b| b == avail).unwrap_or(true)
                    });
                    if !same {
                        violation("C10", "other-record", "a lookup returned a record, server or availability that no proven answer holds");
                    }
                }
            }
            Some(c)
        }
    }
}
