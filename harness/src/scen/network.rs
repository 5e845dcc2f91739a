//! Networks of servers: client lookups (C11) and server traversals (C12).
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::Arc;

use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};

use super::refer;
use super::server::{connect, server_unit, Running, ServerCfg};
use super::wire;
use super::*;
use crate::exec::{log, stat, violation};
use crate::net::{self, net, Fake, NetCfg, SimHttpClient, Site};

#[derive(Clone, Copy, PartialEq, Debug)]
pub(super) enum Kind {
    Real,
    Honest,
    Dead,
    Gone,
    Http500,
    Status,
    BadSign,
    Malformed,
    Lying,
    Hang,
    Empty,
}

const FAULTY: [Kind; 9] = [Kind::Dead, Kind::Gone, Kind::Http500, Kind::Status, Kind::BadSign, Kind::Malformed, Kind::Lying, Kind::Hang, Kind::Empty];

#[derive(Clone)]
pub(super) struct Srv {
    pub kind: Kind,
    /// listed servers (index or a stranger's address)
    pub edges: Vec<Server>,
    pub local: Vec<Client>,
    pub remote: Vec<(Client, Server)>,
    pub lie: u32,
}

pub(super) type World = Sh<Vec<Srv>>;

pub(super) fn addr(i: usize) -> String {
    format!("n{i}:1")
}

pub(super) fn idx(a: &str) -> Option<usize> {
    a.strip_prefix('n')?.strip_suffix(":1")?.parse().ok()
}

pub(super) fn sk(i: usize) -> SecretKey {
    key(20 + i)
}

pub(super) fn rec(i: usize) -> Server {
    Server::new(pubkey(20 + i), addr(i))
}

fn tyname(f: Option<u8>) -> Option<ClientType> {
    f.map(|f| [ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File][f as usize])
}

fn a_type() -> ClientInfo {
    match w(4) {
        0 => ClientInfo::thin(),
        1 => ClientInfo::thick("c:1"),
        2 => ClientInfo::server("c:1"),
        _ => ClientInfo::file("c:1"),
    }
}

pub(super) fn honest(k: Kind) -> bool {
    matches!(k, Kind::Real | Kind::Honest)
}

/// The answer an honest server gives, by the model.
pub(super) fn find(s: &Srv, pk: &PublicKey, ty: Option<ClientType>) -> Option<(Client, Option<Server>)> {
    let fit = |c: &Client| &c.public_key == pk && (ty.is_none() || ty == Some(c.info.client_type));
    let l = s.local.iter().find(|c| fit(c));
    let r = s.remote.iter().find(|c| fit(&c.0));
    match (l, r) {
        (Some(l), Some(r)) if r.0.certificate.token.auth_date > l.certificate.token.auth_date => Some((r.0.clone(), Some(r.1.clone()))),
        (Some(l), _) => Some((l.clone(), None)),
        (None, Some(r)) => Some((r.0.clone(), Some(r.1.clone()))),
        _ => None,
    }
}

fn answer(me: usize, s: &Srv, c: &net::Call) -> Fake {
    match s.kind {
        Kind::Gone | Kind::Dead => return Fake::Refuse,
        Kind::Hang => return Fake::Hang,
        Kind::Http500 => return Fake::Reply(500, "Internal Server Error".into()),
        Kind::Empty => return Fake::Reply(200, String::new()),
        Kind::Malformed => {
            let v = [json!(null), json!([]), json!({"standard": 1}), json!({"standard": 2, "status": 100}), json!({"standard": 1, "status": 100, "public_key": "AAAA", "proof": {"sign": "AA"}, "response": {}}), json!({"standard": 1, "servers": 5}), json!({"standard": 1, "servers": [{"public_key": "x", "address": "y"}]})];
            return Fake::Reply(200, v[s.lie as usize % v.len()].to_string());
        }
        Kind::Status => return Fake::Reply(200, json!({"standard": 1, "status": 200, "reason": "broken"}).to_string()),
        _ => {}
    }
    let j: Json = serde_json::from_str(&c.body).unwrap_or(Json::Null);
    if c.path == "/api/v1/servers" {
        return Fake::Reply(200, ServersResponse::new(s.edges.clone()).to_json().unwrap().to_string());
    }
    if c.path == "/api/v1/clients" {
        return Fake::Reply(200, ClientsResponse::new(s.local.clone()).to_json().unwrap().to_string());
    }
    if c.path != "/api/v1/lookup" {
        return Fake::Reply(404, String::new());
    }
    let Ok(q) = LookupRequest::from_json(&j) else { return Fake::Reply(500, "bad".into()) };
    let (pk, ty) = (q.0.request.public_key.clone(), q.0.request.client_type);
    let mut body = match find(s, &pk, ty) {
        Some((c, None)) => LookupResponseBody::local(c, true),
        Some((c, Some(s))) => LookupResponseBody::remote(c, s, true),
        None => LookupResponseBody::hint(s.edges.clone()),
    };
    if s.kind == Kind::Lying {
        let who = (1..4).find(|k| key(*k).public_key() == pk).unwrap_or(1);
        let info = match ty {
            Some(ClientType::Thick) => ClientInfo::thick("x:1"),
            Some(ClientType::Server) => ClientInfo::server("x:1"),
            Some(ClientType::File) => ClientInfo::file("x:1"),
            _ => ClientInfo::thin(),
        };
        let evil = key(10);
        let me_pk = sk(me).public_key();
        let c = |p: &SecretKey, by: &SecretKey, srv: &PublicKey| Client::new(p.public_key(), wire::cert(by, srv, exec::EPOCH_S + 9), info.clone());
        body = match s.lie % 8 {
            // another client altogether
            0 => LookupResponseBody::local(c(&evil, &evil, &me_pk), true),
            // certificate made by somebody else
            1 => LookupResponseBody::local(c(&key(who), &evil, &me_pk), true),
            // a genuine certificate, but for another server
            2 => LookupResponseBody::local(c(&key(who), &key(who), &sk(11).public_key()), true),
            3 => LookupResponseBody::remote(c(&key(who), &key(who), &sk(11).public_key()), Server::new(me_pk, "evil:1"), true),
            4 => LookupResponseBody::remote(c(&key(who), &evil, &me_pk), Server::new(me_pk, "evil:1"), true),
            // another type than asked for
            5 => {
                let mut x = c(&key(who), &key(who), &me_pk);
                x.info = if ty == Some(ClientType::File) { ClientInfo::thin() } else { ClientInfo::file("x:1") };
                LookupResponseBody::local(x, true)
            }
            6 => LookupResponseBody::hint(vec![rec(me), rec(0), rec(me), Server::new(evil.public_key(), addr(me)), Server::new(evil.public_key(), "nowhere:1"), Server::new(evil.public_key(), "bad address /?#")]),
            _ => LookupResponseBody::remote(c(&evil, &evil, &me_pk), Server::new(me_pk, addr(me)), true),
        };
    }
    let mut r = LookupResponse::success(ResponseStatus::Success, &sk(me), q.0.proof_seed, body);
    if s.kind == Kind::BadSign {
        if let Response::Success { proof_sign, public_key, .. } = &mut r.0 {
            match s.lie % 4 {
                0 => proof_sign[5] ^= 1,
                1 => *proof_sign = key(10).create_signature(q.0.proof_seed.to_be_bytes()),
                2 => *proof_sign = vec![],
                _ => *public_key = key(10).public_key(),
            }
        }
    }
    Fake::Reply(200, r.to_json().unwrap().to_string())
}

pub(super) fn random_edges(me: usize, n: usize, shape: u32) -> Vec<Server> {
    let mut v = Vec::new();
    let dense = if shape > 0 { 0.0 } else { if n > 12 { 0.04 } else { [0.15, 0.35, 0.7][w(3) as usize] } };
    for i in 0..n {
        if dense > 0.0 && wp(dense) {
            v.push(rec(i));
        }
    }
    match shape {
        // a long way
        1 => {
            v.extend((me + 1 < n).then(|| rec(me + 1)));
            v.extend((me > 0 && wp(0.5)).then(|| rec(me - 1)));
        }
        // one server knows many
        2 if me == n / 2 => v.extend((0..n).map(rec)),
        2 => v.push(rec(n / 2)),
        // a tree
        3 => v.extend([2 * me + 1, 2 * me + 2].into_iter().filter(|i| *i < n).map(rec)),
        _ => {}
    }
    if shape > 0 && wp(0.1) {
        v.push(rec(w(n as u32) as usize));
    }
    if wp(0.2) {
        v.push(Server::new(key(11).public_key(), "nowhere:1"));
    }
    // order matters to a breadth-first search
    for i in (1..v.len()).rev() {
        let j = w(i as u32 + 1) as usize;
        v.swap(i, j);
    }
    v
}

fn place(world: &mut [Srv], k: usize, now: u64) {
    let n = world.len();
    let mut t = now;
    for _ in 0..w(4) {
        let home = w(n as u32) as usize;
        t += w(3) as u64;
        let c = Client::new(key(k).public_key(), wire::cert(&key(k), &sk(home).public_key(), t), a_type());
        if wp(0.8) {
            world[home].local.retain(|x| x.public_key != c.public_key);
            world[home].local.push(c.clone());
        }
        for _ in 0..w(3) {
            let at = w(n as u32) as usize;
            let old = world[at].remote.iter().position(|x| x.0.public_key == c.public_key);
            match old {
                Some(i) if world[at].remote[i].0.certificate.token.auth_date >= t => {}
                Some(i) => world[at].remote[i] = (c.clone(), rec(home)),
                None => world[at].remote.push((c.clone(), rec(home))),
            }
        }
    }
}

/// Start the real servers and give them what the model says they know.
pub(super) async fn build(world: &World) -> Vec<Option<Unit<Running>>> {
    let n = world.lock().unwrap().len();
    let mut out = Vec::new();
    for i in 0..n {
        let node = exec::add_node("server");
        let s = world.lock().unwrap()[i].clone();
        if s.kind == Kind::Real {
            let u = server_unit(ServerCfg { node, dir: format!("/srv/{i}"), addr: addr(i), key: sk(i) });
            let Some(r) = u.get(CALM_LIMIT).await else {
                out.push(None);
                continue;
            };
            let d = r.driver.clone();
            let _ = op_within(node, CALM_LIMIT, async move {
                for c in s.local {
                    d.router().index_local_client(c).await.map_err(|e| e.to_string())?;
                }
                for (c, v) in s.remote {
                    d.router().index_remote_client(c, v).await.map_err(|e| e.to_string())?;
                }
                for v in s.edges {
                    d.router().index_server(v).await.map_err(|e| e.to_string())?;
                }
                Ok(())
            })
            .await;
            out.push(Some(u));
        } else {
            out.push(None);
            if s.kind == Kind::Gone {
                continue;
            }
            let world = world.clone();
            net::add_host(&addr(i), node, Some(Site::Fake(Arc::new(move |c| {
                let s = world.lock().unwrap()[i].clone();
                answer(i, &s, c)
            }))));
        }
        if wp(0.15) {
            if let Some(h) = net().hosts.get_mut(&addr(i)) {
                h.slow = w(60) as u64 * SEC;
            }
        }
    }
    out
}

fn a_world() -> Vec<Srv> {
    // now and then a large network
    let (n, shape) = if wp(0.1) { (12 + w(90) as usize + if w(12) == 11 { 200 } else { 0 }, w(4)) } else { (2 + w(9) as usize, 0) };
    let mut real = 3;
    let p_bad = if shape > 0 { [0.0, 0.05][w(2) as usize] } else { [0.3, 0.0, 0.6][w(3) as usize] };
    (0..n)
        .map(|me| {
            let kind = if wp(p_bad) {
                pick(&FAULTY)
            } else if real > 0 && wp(0.4) {
                real -= 1;
                Kind::Real
            } else {
                Kind::Honest
            };
            Srv { kind, edges: random_edges(me, n, shape), local: vec![], remote: vec![], lie: w(64) }
        })
        .collect()
}

// ------------------------------------------------------------------ client lookups

pub fn lookup_root(_prop: &'static str) -> Fut {
    Box::pin(lookup())
}

/// lookups: (caller, seed) -> addresses asked, answers
#[derive(Default)]
struct Asked {
    posts: BTreeMap<(NodeId, u64), Vec<String>>,
    /// records in answers delivered to a node
    records: BTreeMap<NodeId, Vec<(refer::RClient, refer::RServer)>>,
}

async fn lookup() {
    sim().p_switch = [0.3, 0.1, 0.6][w(3) as usize];
    coarse_clock();
    sim().step_ns = [5_000, 200_000][w(2) as usize];
    let world: World = sh(a_world());
    {
        let mut g = world.lock().unwrap();
        for k in 1..4 {
            place(&mut g, k, pick(&[exec::EPOCH_S, exec::EPOCH_S, exec::EPOCH_S - 1_000_000_000, exec::EPOCH_S + 1_000_000_000, 0, 1 << 63]));
        }
    }
    let n = world.lock().unwrap().len();
    let asked: Sh<Asked> = sh(Asked::default());
    {
        let a = asked.clone();
        net().on_request = Some(Arc::new(move |c| {
            if c.path == "/api/v1/lookup" {
                let seed = serde_json::from_str::<Json>(&c.body).ok().and_then(|j| j["proof"]["seed"].as_u64()).unwrap_or(0);
                a.lock().unwrap().posts.entry((c.from, seed)).or_default().push(c.host.clone());
            }
            None
        }));
        let a = asked.clone();
        net().on_response = Some(Arc::new(move |c, r| {
            if c.path != "/api/v1/lookup" {
                return;
            }
            let Ok(j) = serde_json::from_str::<Json>(&r.1) else { return };
            let seed = serde_json::from_str::<Json>(&c.body).ok().and_then(|j| j["proof"]["seed"].as_u64()).unwrap_or(0);
            let b = &j["response"];
            let (Some(p), Some(x)) = (refer::answer(&j, seed), refer::client(&b["client"])) else { return };
            let s = match b["disposition"].as_str() {
                Some("remote") => refer::server(&b["server"]),
                _ => Some(refer::RServer { pk: p, addr: c.host.clone() }),
            };
            if let Some(s) = s {
                a.lock().unwrap().records.entry(c.from).or_default().push((x, s));
            }
        }));
    }
    net().cfg = NetCfg { max_delay: [MS, 20 * MS, SEC][w(3) as usize], ..Default::default() };
    let _units = build(&world).await;
    for round in 0..1 + w(3) {
        if round > 0 {
            // servers fail and recover between lookups
            let mut g = world.lock().unwrap();
            for s in g.iter_mut() {
                if s.kind != Kind::Real && s.kind != Kind::Gone && wp(0.3) {
                    s.kind = if wp(0.5) { Kind::Honest } else { pick(&FAULTY) };
                    if s.kind == Kind::Gone {
                        s.kind = Kind::Dead;
                    }
                    s.lie = w(64);
                }
            }
        }
        let mut rxs = Vec::new();
        for _ in 0..1 + w(2) {
            let (world, asked) = (world.clone(), asked.clone());
            let from = 4 + w(3) as usize;
            let start = w(n as u32) as usize;
            let (_, rx) = exec::call(0, async move { one_lookup(world, asked, from, start).await });
            rxs.push(rx);
        }
        join_all(rxs).await;
    }
}

async fn one_lookup(world: World, asked: Sh<Asked>, from: usize, start: usize) {
    let node = exec::add_node("client");
    // connect through a gate of our own: the server may be down or lying by the time of the lookup
    let gate_pk = sk(start);
    let gate = format!("gate{node}:1");
    let gn = exec::add_node("gate");
    let g2 = gate_pk.clone();
    net::add_host(&gate, gn, Some(Site::Fake(Arc::new(move |c| {
        if c.path == "/api/v1/info" {
            let s = (1u64 << 63) | 77;
            use base64::Engine;
            let sg = base64::engine::general_purpose::URL_SAFE.encode(g2.create_signature(s.to_be_bytes()));
            return Fake::Reply(200, json!({"standard": 1, "server": {"public_key": g2.public_key().to_base64()}, "proof": {"seed": s, "sign": sg}}).to_string());
        }
        let j: Json = serde_json::from_str(&c.body).unwrap_or(Json::Null);
        let seed = j["proof"]["seed"].as_u64().unwrap_or(0);
        Fake::Reply(200, ConnectResponse::success(ResponseStatus::Success, &g2, seed).to_json().unwrap().to_string())
    }))));
    // the gate's name becomes an alias of the server
    let c = match connect(node, key(from), ClientInfo::thin(), &gate).await {
        Ok(c) => c,
        Err(e) => {
            log(|| format!("connect failed: {e}"));
            return;
        }
    };
    let there = net().hosts.get(&addr(start)).cloned();
    match there {
        Some(h) => {
            net().hosts.insert(gate.clone(), h);
        }
        None => {
            net().hosts.remove(&gate);
        }
    }
    let k = 1 + w(3) as usize;
    let pk = key(k).public_key();
    let filter = if wp(0.4) { Some(w(4) as u8) } else { None };
    let ty = tyname(filter);
    // what must be found
    let (must, first_answers) = {
        let g = world.lock().unwrap();
        let mut seen = BTreeSet::new();
        let mut q = VecDeque::from([start]);
        let mut must = false;
        while let Some(i) = q.pop_front() {
            if !seen.insert(i) || !honest(g[i].kind) {
                continue;
            }
            if find(&g[i], &pk, ty).is_some() {
                must = true;
                continue;
            }
            for s in &g[i].edges {
                if let Some(j) = idx(&s.address) {
                    q.push_back(j);
                }
            }
        }
        (must, honest(g[start].kind))
    };
    stat(if must { "lookup.must_find" } else { "lookup.may_find" });
    log(|| format!("lookup of key {k} type {filter:?} from server {start}; must find {must}; {:?}", world.lock().unwrap().iter().map(|s| s.kind).collect::<Vec<_>>()));
    let pk2 = pk.clone();
    let before: BTreeSet<u64> = asked.lock().unwrap().posts.keys().filter(|p| p.0 == node).map(|p| p.1).collect();
    let r = op_within(node, 3 * CALM_LIMIT, async move { c.lookup(pk2, ty).await.map_err(|e| e.to_string()) }).await;
    let g = asked.lock().unwrap();
    for ((who, seed), v) in &g.posts {
        if *who != node || before.contains(seed) {
            continue;
        }
        let mut count: BTreeMap<&String, u32> = BTreeMap::new();
        for a in v {
            *count.entry(a).or_default() += 1;
        }
        if let Some((a, c)) = count.iter().find(|(_, c)| **c > 1) {
            violation("C11", "asked-twice", format!("one lookup asked {a} {c} times"));
        }
    }
    match r {
        None => violation("C11", "does-not-finish", "a lookup does not come back"),
        Some(Res::Panicked) => violation("C11", "panics", "a lookup panicked"),
        Some(Res::Lost(_)) => {}
        Some(Res::Err(e)) => {
            log(|| format!("-> Err {e}"));
            if must {
                violation("C11", "not-found", format!("the lookup failed although a reachable live server knows the client: {e}"));
            } else if first_answers {
                violation("C11", "fails", format!("the lookup failed instead of reporting that the client is not found: {e}"));
            }
        }
        Some(Res::Ok(None)) => {
            log(|| "-> not found".into());
            if must {
                violation("C11", "not-found", "the lookup found nothing although a reachable live server knows the client");
            }
        }
        Some(Res::Ok(Some((c, s, _)))) => {
            log(|| format!("-> found at {}", s.address));
            stat("lookup.found");
            if c.public_key != pk {
                violation("C11", "other-client", "the lookup returned another client than asked for");
            }
            if ty.is_some() && ty != Some(c.info.client_type) {
                violation("C11", "other-type", "the lookup returned a client of another type than asked for");
            }
            let (x, y) = (refer::client(&c.to_json().unwrap()).unwrap(), refer::server(&s.to_json().unwrap()).unwrap());
            if !refer::cert_ok(&x.cert, &x.pk, &y.pk) {
                violation("C11", "invalid-certificate", "the lookup returned a record whose certificate does not hold for the returned server");
            }
            if !g.records.get(&node).map(|v| v.contains(&(x, y))).unwrap_or(false) {
                violation("C11", "made-up", "the lookup returned a record no server gave");
            }
        }
    }
}

// ------------------------------------------------------------------ traversals

pub fn traverse_root(_prop: &'static str) -> Fut {
    Box::pin(traverse())
}

async fn traverse() {
    sim().p_switch = [0.3, 0.1, 0.6][w(3) as usize];
    coarse_clock();
    sim().step_ns = [5_000, 200_000][w(2) as usize];
    let world: World = sh(a_world());
    let n = world.lock().unwrap().len();
    {
        let mut g = world.lock().unwrap();
        g[0].kind = Kind::Real;
        for (i, s) in g.iter_mut().enumerate() {
            if s.kind == Kind::Lying {
                // lists with wrong addresses, duplicates and strangers
                match s.lie % 4 {
                    0 => s.edges.extend((0..n).map(|j| Server::new(pubkey(20 + j), addr(i)))),
                    1 => s.edges.extend((0..n).map(|j| Server::new(pubkey(20 + j), "nowhere:1"))),
                    2 => s.edges.extend((0..n).map(|j| Server::new(key(10).public_key(), addr(j)))),
                    _ => s.edges.extend([rec(i), rec(i), rec(0), Server::new(key(11).public_key(), "bad address /?#")]),
                }
            }
        }
    }
    net().cfg = NetCfg { max_delay: [MS, 20 * MS, SEC][w(3) as usize], ..Default::default() };
    let units = build(&world).await;
    let Some(unit) = &units[0] else {
        violation("C12", "no-start", "the server did not start");
        return;
    };
    let asked: Sh<BTreeMap<String, u32>> = sh(BTreeMap::new());
    let a = asked.clone();
    net().on_request = Some(Arc::new(move |c| {
        if c.path == "/api/v1/servers" {
            *a.lock().unwrap().entry(c.host.clone()).or_default() += 1;
        }
        None
    }));
    for round in 0..1 + w(2) {
        if round > 0 {
            let mut g = world.lock().unwrap();
            for s in g.iter_mut() {
                if s.kind != Kind::Real && s.kind != Kind::Gone && wp(0.3) {
                    s.kind = if wp(0.5) { Kind::Honest } else { pick(&[Kind::Dead, Kind::Http500, Kind::Malformed, Kind::Hang]) };
                }
            }
        }
        asked.lock().unwrap().clear();
        let Some(r) = unit.get(CALM_LIMIT).await else { return };
        let node = unit.node;
        let d = r.driver.clone();
        // where it starts
        let known: Vec<Server> = {
            let d = d.clone();
            match op_within(node, CALM_LIMIT, async move { d.router().servers().await.map_err(|e| e.to_string()) }).await {
                Some(Res::Ok(v)) => v,
                _ => return,
            }
        };
        // reference: everything live servers' lists lead to; lists of lying servers may be believed
        let (mut want, mut named): (BTreeSet<[u8; 33]>, BTreeMap<String, BTreeSet<[u8; 33]>>) = Default::default();
        {
            let g = world.lock().unwrap();
            let mut seen = BTreeSet::new();
            let mut q: VecDeque<Server> = known.clone().into();
            while let Some(s) = q.pop_front() {
                named.entry(s.address.clone()).or_default().insert(s.public_key.to_bytes());
                want.insert(s.public_key.to_bytes());
                if !seen.insert(s.address.clone()) {
                    continue;
                }
                if let Some(i) = idx(&s.address) {
                    if matches!(g[i].kind, Kind::Real | Kind::Honest | Kind::Lying | Kind::BadSign) {
                        if i == 0 {
                            // its own list
                            continue;
                        }
                        if g[i].kind == Kind::Real {
                            // one record per key there
                            let mut m: BTreeMap<[u8; 33], Server> = BTreeMap::new();
                            for e in &g[i].edges {
                                m.insert(e.public_key.to_bytes(), e.clone());
                            }
                            q.extend(m.into_values());
                        } else {
                            q.extend(g[i].edges.iter().cloned());
                        }
                    }
                }
            }
        }
        log(|| format!("traversal from {} servers, {} reachable; {:?}", known.len(), want.len(), world.lock().unwrap().iter().map(|s| s.kind).collect::<Vec<_>>()));
        stat("op.traverse");
        let d2 = d.clone();
        let r = op_within(node, 5 * CALM_LIMIT, async move {
            d2.traversal().traverse(SimHttpClient::new(node), &*d2).await;
            Ok(())
        })
        .await;
        match r {
            None => {
                violation("C12", "does-not-finish", "a traversal does not come back");
                return;
            }
            Some(Res::Panicked) => {
                violation("C12", "panics", "a traversal panicked");
                return;
            }
            _ => {}
        }
        for (a, c) in asked.lock().unwrap().iter() {
            let bound = named.get(a).map(|s| s.len() as u32).unwrap_or(1).max(1);
            if *c > bound {
                violation("C12", "asked-again", format!("one traversal asked {a} {c} times, named by {bound} records"));
            }
        }
        let d2 = d.clone();
        let Some(Res::Ok(after)) = op_within(node, CALM_LIMIT, async move { d2.router().servers().await.map_err(|e| e.to_string()) }).await else {
            violation("C12", "no-list", "the routing table cannot be listed after a traversal");
            return;
        };
        let have: BTreeMap<[u8; 33], String> = after.iter().map(|s| (s.public_key.to_bytes(), s.address.clone())).collect();
        for p in &want {
            if *p == sk(0).public_key().to_bytes() {
                continue;
            }
            match have.get(p) {
                None => violation("C12", "missing", format!("after the traversal a reachable server is missing from the table ({} of {})", have.len(), want.len())),
                Some(a) => {
                    if !named.get(a).map(|s| s.contains(p)).unwrap_or(false) {
                        violation("C12", "altered", format!("the table has a server at {a}, which nobody reported"));
                    }
                }
            }
        }
        for p in have.keys() {
            if !want.contains(p) {
                violation("C12", "made-up", "after the traversal the table has a server nobody reported");
            }
        }
    }
}
