//! Clients that move between servers while others write to their hyperborea addresses (C18).
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::sync::Arc;

use hyperborealib::prelude::*;
use serde_json::Value as Json;

use super::network::{self, addr, find, honest, idx, Kind, Srv, World};
use super::refer;
use super::server::{connect, Running};
use super::*;
use crate::exec::{log, stat, violation};
use crate::net::{net, NetCfg, SimHttpClient};

type Conn = ConnectedClientMiddleware<SimHttpClient>;

/// What an operation of a client's node did on the network.
#[derive(Default)]
struct Seen {
    /// last accepted record for the client looked up
    named: BTreeMap<NodeId, Vec<(refer::RClient, refer::RServer)>>,
    sent: BTreeMap<NodeId, Vec<String>>,
}

struct Letter {
    id: u32,
    to: usize,
    channel: String,
    /// server it must be at; None: nowhere
    at: Option<String>,
    /// it may also be nowhere
    maybe: bool,
}

struct Ctx {
    world: World,
    /// the model no longer follows the servers
    vague: Sh<bool>,
    seen: Sh<Seen>,
    letters: Sh<Vec<Letter>>,
    /// latest connection of each receiver: (home, certificate time, type)
    last: Sh<BTreeMap<usize, (usize, Client)>>,
    units: Vec<Option<Unit<Running>>>,
}

const CHANNELS: [&str; 3] = ["main", "", "a/../b"];

pub fn root(_prop: &'static str) -> Fut {
    Box::pin(run())
}

fn reals(w_: &World) -> Vec<usize> {
    w_.lock().unwrap().iter().enumerate().filter(|(_, s)| s.kind == Kind::Real).map(|(i, _)| i).collect()
}

fn info(t: u32) -> ClientInfo {
    match t {
        0 => ClientInfo::thin(),
        1 => ClientInfo::thick("c:1"),
        2 => ClientInfo::server("c:1"),
        _ => ClientInfo::file("c:1"),
    }
}

async fn run() {
    sim().p_switch = [0.3, 0.1, 0.6][w(3) as usize];
    coarse_clock();
    sim().step_ns = [5_000, 200_000][w(2) as usize];
    let n = 2 + w(5) as usize;
    let p_bad = [0.0, 0.3][w(2) as usize];
    let mut srv: Vec<Srv> = (0..n)
        .map(|me| {
            let kind = if me > 0 && wp(p_bad) { pick(&[Kind::Dead, Kind::Gone, Kind::Http500, Kind::BadSign, Kind::Malformed, Kind::Lying, Kind::Honest, Kind::Honest]) } else { Kind::Real };
            Srv { kind, edges: network::random_edges(me, n, 0), local: vec![], remote: vec![], lie: w(64) }
        })
        .collect();
    // a ring half of the time, so that more is reachable
    if wp(0.5) {
        for i in 0..n {
            let r = network::rec((i + 1) % n);
            if !srv[i].edges.contains(&r) {
                srv[i].edges.push(r);
            }
        }
    }
    let world: World = sh(srv);
    let seen: Sh<Seen> = sh(Seen::default());
    {
        let s = seen.clone();
        net().on_request = Some(Arc::new(move |c| {
            if c.path == "/api/v1/send" {
                s.lock().unwrap().sent.entry(c.from).or_default().push(c.host.clone());
            }
            None
        }));
        let s = seen.clone();
        net().on_response = Some(Arc::new(move |c, r| {
            if c.path != "/api/v1/lookup" {
                return;
            }
            let Ok(j) = serde_json::from_str::<Json>(&r.1) else { return };
            let seed = serde_json::from_str::<Json>(&c.body).ok().and_then(|j| j["proof"]["seed"].as_u64()).unwrap_or(0);
            let b = &j["response"];
            let (Some(p), Some(x)) = (refer::answer(&j, seed), refer::client(&b["client"])) else { return };
            let srv = match b["disposition"].as_str() {
                Some("remote") => refer::server(&b["server"]),
                _ => Some(refer::RServer { pk: p, addr: c.host.clone() }),
            };
            if let Some(srv) = srv {
                if refer::cert_ok(&x.cert, &x.pk, &srv.pk) {
                    s.lock().unwrap().named.entry(c.from).or_default().push((x, srv));
                }
            }
        }));
    }
    net().cfg = NetCfg { max_delay: [MS, 20 * MS, SEC][w(3) as usize], ..Default::default() };
    let units = network::build(&world).await;
    let ctx = Arc::new(Ctx { world, vague: sh(false), seen, letters: sh(vec![]), last: Default::default(), units });
    let rs = reals(&ctx.world);
    let nb = 1 + w(2) as usize;
    let mut homes: Vec<Option<Conn>> = (0..nb).map(|_| None).collect();
    let bnodes: Vec<NodeId> = (0..nb).map(|_| exec::add_node("receiver")).collect();
    let faulty_net = wp(0.4);
    let quiet = net().cfg.clone();
    let rounds = 1 + w(5);
    let mut next = 0u32;
    for _ in 0..rounds {
        // receivers move, tell others, leave
        let mut moves = Vec::new();
        let together = wp(0.3);
        for (b, slot) in homes.iter_mut().enumerate() {
            let (ctx2, rs, node, old) = (ctx.clone(), rs.clone(), bnodes[b], slot.take());
            let (_, rx) = exec::call(0, async move { roam(&ctx2, node, b + 1, old, &rs).await });
            if together {
                *ctx.vague.lock().unwrap() = true;
                moves.push((b, rx));
            } else {
                *slot = rx.await.flatten();
            }
        }
        if wp(0.2) {
            // a server crashes and comes back
            let i = pick(&rs);
            if let Some(u) = &ctx.units[i] {
                exec::crash(u.node);
                exec::sleep(w(3) as u64 * SEC).await;
                exec::restart(u.node);
                let _ = u.get(CALM_LIMIT).await;
            }
        }
        if faulty_net {
            net().cfg = NetCfg { p_refuse: [0.0, 0.1][w(2) as usize], p_lost_reply: [0.0, 0.1][w(2) as usize], p_cut: [0.0, 0.1][w(2) as usize], ..quiet.clone() };
        }
        let mut settled = 0;
        if wp(0.15) {
            // a server crashes while others write
            let i = pick(&rs);
            if let Some(u) = &ctx.units[i] {
                let node = u.node;
                *ctx.vague.lock().unwrap() = true;
                exec::at(sim().now + w(2000) as u64 * 50 * US, move || exec::crash(node));
                settled = sim().now + 100 * MS + w(20) as u64 * 100 * MS;
                exec::at(settled, move || exec::restart(node));
                settled += MS;
            }
        }
        let mut rxs = Vec::new();
        for _ in 0..1 + w(3) {
            let ctx2 = ctx.clone();
            let (start, to) = (pick(&rs), 1 + w(3) as usize);
            let k = 1 + w(2);
            let base = next;
            next += k;
            let (_, rx) = exec::call(0, async move {
                let node = exec::add_node("sender");
                let q = net().cfg.clone();
                // connecting is not what is looked at here
                let c = {
                    let mut c = None;
                    for _ in 0..5 {
                        if let Ok(x) = connect(node, key(5 + (base % 4) as usize), ClientInfo::thin(), &addr(start)).await {
                            c = Some(x);
                            break;
                        }
                    }
                    c
                };
                let Some(c) = c else { return };
                for i in 0..k {
                    write(&ctx2, node, &c, start, to, base + i, &q).await;
                }
            });
            rxs.push(rx);
        }
        join_all(rxs).await;
        net().cfg = quiet.clone();
        for (b, rx) in moves {
            homes[b] = rx.await.flatten();
        }
        while sim().now < settled {
            exec::sleep(100 * MS).await;
        }
        // with everything at rest the model can be taken from the servers again
        resync(&ctx).await;
    }
    net().cfg = quiet;
    collect(&ctx, &homes, &bnodes).await;
}

/// Take what the real servers hold as the model.
async fn resync(ctx: &Arc<Ctx>) {
    let mut ok = true;
    for (i, u) in ctx.units.iter().enumerate() {
        let Some(u) = u else { continue };
        let Some(r) = u.get(CALM_LIMIT).await else { ok = false; continue };
        let d = r.driver.clone();
        let got = op_within(u.node, CALM_LIMIT, async move {
            let e = |e: <hyperborealib::drivers::server::router::global_table::GlobalTableRouter as Router>::Error| e.to_string();
            Ok((d.router().local_clients().await.map_err(e)?, d.router().remote_clients().await.map_err(e)?, d.router().servers().await.map_err(e)?))
        })
        .await;
        if let Some(Res::Ok((l, r, s))) = got {
            let mut g = ctx.world.lock().unwrap();
            (g[i].local, g[i].remote, g[i].edges) = (l, r, s);
        } else {
            ok = false;
        }
    }
    *ctx.vague.lock().unwrap() = !ok;
}

/// A receiver moves to another server and lets the others know.
async fn roam(ctx: &Arc<Ctx>, node: NodeId, b: usize, old: Option<Conn>, rs: &[usize]) -> Option<Conn> {
    if old.is_some() && wp(0.3) {
        return old;
    }
    exec::sleep(w(4) as u64 * 700 * MS).await;
    let vague = || *ctx.vague.lock().unwrap() = true;
    if let Some(c) = old {
        if wp(0.4) {
            let at = idx(&c.connected_server().address).unwrap();
            let r = op_within(node, CALM_LIMIT, async move { c.disconnect().await.map(|_| ()).map_err(|e| e.to_string()) }).await;
            log(|| format!("receiver {b} leaves {at}: {}", matches!(r, Some(Res::Ok(())))));
            if !matches!(r, Some(Res::Ok(()))) {
                vague();
            }
            let pk = key(b).public_key();
            let mut g = ctx.world.lock().unwrap();
            g[at].local.retain(|c| c.public_key != pk);
            g[at].remote.retain(|c| c.0.public_key != pk);
            if wp(0.3) {
                ctx.last.lock().unwrap().remove(&b);
                return None;
            }
        }
    }
    let home = pick(rs);
    let t = w(4);
    let c = match connect(node, key(b), info(t), &addr(home)).await {
        Ok(c) => c,
        Err(e) => {
            log(|| format!("receiver {b} cannot connect to {home}: {e}"));
            vague();
            return None;
        }
    };
    let me = c.get_client();
    log(|| format!("receiver {b} connects to {home} as type {t} at {}", me.certificate.token.auth_date));
    stat("op.move");
    {
        let mut g = ctx.world.lock().unwrap();
        let pk = key(b).public_key();
        g[home].local.retain(|c| c.public_key != pk);
        g[home].local.push(me.clone());
        ctx.last.lock().unwrap().insert(b, (home, me.clone()));
    }
    // tell whoever has an older record, and a few more
    let n = ctx.world.lock().unwrap().len();
    let all = wp(0.8);
    for i in 0..n {
        let knows = {
            let g = ctx.world.lock().unwrap();
            let pk = key(b).public_key();
            g[i].local.iter().any(|c| c.public_key == pk) || g[i].remote.iter().any(|c| c.0.public_key == pk)
        };
        if !(knows && all || wp(0.2)) {
            continue;
        }
        let kind = ctx.world.lock().unwrap()[i].kind;
        let took = match kind {
            Kind::Real => {
                let c2 = c.clone();
                stat("op.announce");
                let r = op_within(node, CALM_LIMIT, async move { c2.announce(format!("http://{}", addr(i))).await.map_err(|e| e.to_string()) }).await;
                let ok = matches!(r, Some(Res::Ok(())));
                if !ok {
                    vague();
                }
                ok
            }
            Kind::Honest => true,
            _ => false,
        };
        if took {
            log(|| format!("receiver {b} announces itself to {i}"));
            let mut g = ctx.world.lock().unwrap();
            let pk = key(b).public_key();
            let newer = g[i].remote.iter().any(|c| c.0.public_key == pk && c.0.certificate.token.auth_date > me.certificate.token.auth_date);
            if !newer {
                g[i].remote.retain(|c| c.0.public_key != pk);
                g[i].remote.push((me.clone(), network::rec(home)));
            }
        }
    }
    Some(c)
}

fn uri(k: usize, ty: Option<u8>) -> String {
    let p = key(k).public_key().to_base64();
    let scheme = pick(&["hyp", "hyperborea"]);
    match ty {
        None => format!("{scheme}://{p}"),
        Some(t) => {
            if t != 1 && wp(0.4) {
                format!("{scheme}-{}://{p}", ["client", "", "server", "file"][t as usize])
            } else {
                format!("{scheme}://{}:{p}", ["thin", "thick", "server", "file"][t as usize])
            }
        }
    }
}

enum Must {
    At(String),
    NotFound,
    Unclear,
}

/// Where a message to this address has to go, by the model.
fn must(ctx: &Ctx, start: usize, to: usize, ty: Option<ClientType>) -> Must {
    if *ctx.vague.lock().unwrap() {
        return Must::Unclear;
    }
    let g = ctx.world.lock().unwrap();
    let pk = key(to).public_key();
    let mut seen = BTreeSet::new();
    let mut q = VecDeque::from([start]);
    let mut found = Vec::new();
    let mut lied = false;
    while let Some(i) = q.pop_front() {
        if !seen.insert(i) {
            continue;
        }
        if !honest(g[i].kind) {
            lied |= g[i].kind == Kind::Lying;
            continue;
        }
        if let Some((c, s)) = find(&g[i], &pk, ty) {
            found.push((s.map(|s| s.address).unwrap_or(addr(i)), c));
            continue;
        }
        for s in &g[i].edges {
            if let Some(j) = idx(&s.address) {
                q.push_back(j);
            }
        }
    }
    if lied {
        // its hints may lead elsewhere
        return Must::Unclear;
    }
    if found.is_empty() {
        return Must::NotFound;
    }
    match ctx.last.lock().unwrap().get(&to) {
        Some((home, c)) if found.iter().all(|f| f.0 == addr(*home) && f.1 == *c) => Must::At(addr(*home)),
        _ => Must::Unclear,
    }
}

async fn write(ctx: &Arc<Ctx>, node: NodeId, c: &Conn, start: usize, to: usize, id: u32, q: &NetCfg) {
    let calm = q.p_refuse + q.p_lost_reply + q.p_cut == 0.0;
    let ty = if wp(0.4) { Some(w(4) as u8) } else { None };
    let tyn = ty.map(|t| [ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File][t as usize]);
    let direct = wp(0.1).then(|| pick(&reals(&ctx.world)));
    let target = match direct {
        Some(i) => format!("http://{}", addr(i)),
        None => uri(to, ty),
    };
    let channel = pick(&CHANNELS);
    let expect = must(ctx, start, to, tyn);
    {
        let mut g = ctx.seen.lock().unwrap();
        g.named.remove(&node);
        g.sent.remove(&node);
    }
    let msg = Message::new(format!("letter {id}"), "sign", MessageEncoding::default());
    log(|| format!("letter {id} from a client of {start} to {to} at {target}; expected {}", match &expect { Must::At(a) => a.clone(), Must::NotFound => "not found".into(), Must::Unclear => "?".into() }));
    stat("op.letter");
    let (c2, pk) = (c.clone(), key(to).public_key());
    let r = op_within(node, 3 * CALM_LIMIT, async move { c2.send(target, pk, channel, msg).await.map_err(|e| e.to_string()) }).await;
    let (named, sent) = {
        let g = ctx.seen.lock().unwrap();
        (g.named.get(&node).cloned().unwrap_or_default(), g.sent.get(&node).cloned().unwrap_or_default())
    };
    let pkb = key(to).public_key();
    // the answer the lookup had to accept: the first that fits what was asked for
    let right = match direct {
        Some(i) => Some(addr(i)),
        None => named.iter().find(|(x, _)| x.pk.as_slice() == pkb.to_bytes().as_slice() && fits(x, tyn)).map(|(_, s)| s.addr.clone()),
    };
    for h in &sent {
        if Some(h) != right.as_ref() {
            violation("C18", "other-server", format!("a message went to {h}, the lookup named {right:?}"));
        }
    }
    let (ok, err) = match r {
        Some(Res::Ok(())) => (true, String::new()),
        Some(Res::Err(e)) => (false, e),
        None => {
            violation("C18", "does-not-finish", "a send does not come back");
            (false, "no answer".into())
        }
        Some(Res::Panicked) => {
            violation("C18", "panics", "a send panicked");
            (false, "panic".into())
        }
        Some(Res::Lost(e)) => (false, e.into()),
    };
    log(|| format!("letter {id} -> {}", if ok { "sent".to_string() } else { err.clone() }));
    if ok {
        stat("roam.delivered");
    }
    if ok && sent.is_empty() {
        violation("C18", "nothing-sent", "a send reported success without sending anything");
    }
    if calm && direct.is_none() {
        match &expect {
            Must::At(a) => {
                stat("roam.must_deliver");
                if !ok {
                    violation("C18", "not-delivered", format!("the receiver is connected to {a}, which is up, and announced, but the send failed: {err}"));
                } else if sent.last() != Some(a) {
                    violation("C18", "other-server", format!("the receiver last connected to {a}, the message went to {:?}", sent.last()));
                }
            }
            Must::NotFound if ok => violation("C18", "made-up", "a send to an address nobody can resolve reported success"),
            _ => {}
        }
    }
    ctx.letters.lock().unwrap().push(Letter { id, to, channel: channel.into(), at: sent.last().cloned(), maybe: !ok });
}

fn fits(x: &refer::RClient, ty: Option<ClientType>) -> bool {
    match ty {
        None => true,
        Some(t) => x.ty == t.to_string(),
    }
}

/// Every message is where it was said to be, once, and its receiver can poll it there.
async fn collect(ctx: &Arc<Ctx>, homes: &[Option<Conn>], bnodes: &[NodeId]) {
    // the receivers poll first
    let mut got: BTreeMap<u32, Vec<(String, usize, String)>> = BTreeMap::new();
    for (i, u) in ctx.units.iter().enumerate() {
        let Some(u) = u else { continue };
        let Some(r) = u.get(CALM_LIMIT).await else {
            violation("C18", "no-restart", "a server does not come back");
            return;
        };
        for to in 1..4 {
            for ch in CHANNELS {
                let d = r.driver.clone();
                let home = homes.get(to - 1).and_then(|h| h.clone()).filter(|h| h.connected_server().address == addr(i));
                let res = match home {
                    Some(c) => op_within(bnodes[to - 1], CALM_LIMIT, async move { c.poll(ch, None).await.map_err(|e| e.to_string()) }).await,
                    None => op_within(u.node, CALM_LIMIT, async move { d.messages_inbox().poll_messages(key(to).public_key(), ch.to_string(), None).await.map_err(|e| e.to_string()) }).await,
                };
                let Some(Res::Ok((msgs, _))) = res else {
                    violation("C18", "cannot-poll", format!("messages at {} cannot be polled", addr(i)));
                    continue;
                };
                for m in msgs {
                    match m.message.content.strip_prefix("letter ").and_then(|s| s.parse::<u32>().ok()) {
                        Some(id) => got.entry(id).or_default().push((addr(i), to, ch.to_string())),
                        None => violation("C18", "altered", "a polled message is not one that was sent"),
                    }
                }
            }
        }
    }
    for l in ctx.letters.lock().unwrap().iter() {
        let places = got.get(&l.id).cloned().unwrap_or_default();
        let want = l.at.clone().map(|a| (a, l.to, l.channel.clone()));
        match want {
            None if !places.is_empty() => violation("C18", "unexpected", format!("message {} was not sent anywhere, yet it is in an inbox", l.id)),
            Some(p) if places.iter().any(|x| *x != p) || places.len() > 1 => violation("C18", "elsewhere", format!("message {} belongs to {p:?}, found at {places:?}", l.id)),
            Some(p) if places.is_empty() && !l.maybe => violation("C18", "missing", format!("message {} was reported as sent to {p:?}, but it is not there", l.id)),
            _ => {}
        }
    }
}
