//! Sends and polls on one server's inbox under concurrency, faults, cancellation and crashes (C01-C05).
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use hyperborealib::drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox;
use hyperborealib::drivers::server::messages_inbox::MessagesInbox;
use hyperborealib::prelude::*;

use super::fifo::{self, HOp, Kind, Verdict};
use super::server::{connect, server_unit, ServerCfg};
use super::*;
use crate::exec::{log, stat, violation, US};
use crate::net::{net, NetCfg, SimHttpClient};

type Inbox = StoredQueueMessagesInbox;

pub(super) struct Sent {
    pub id: u32,
    pub inbox: usize,
    pub inv: u64,
    pub ret: u64,
    pub inv_t: u64,
    pub ret_t: u64,
    pub acked: bool,
    /// may still take effect after `ret`
    pub open: bool,
    pub sender: Sender,
    pub message: Message,
}

pub(super) struct Polled {
    pub inbox: usize,
    pub inv: u64,
    pub ret: u64,
    pub limit: Option<u64>,
    pub res: Option<(Vec<MessageInfo>, u64)>,
    /// the answer was lost: it may have taken messages away
    pub lost: bool,
    pub open: bool,
    pub calm: bool,
}

#[derive(Default)]
pub(super) struct Hist {
    pub sends: Vec<Sent>,
    pub polls: Vec<Polled>,
    pub next: u32,
}

#[derive(Clone)]
enum Api {
    Direct(Unit<Inbox>),
    Http(Arc<HttpApi>),
}

struct HttpApi {
    unit: Unit<super::server::Running>,
    /// per receiver: the connected client polling it
    owners: Vec<ConnectedClientMiddleware<SimHttpClient>>,
    /// senders
    senders: Vec<ConnectedClientMiddleware<SimHttpClient>>,
}

struct Ctx {
    node: NodeId,
    api: Api,
    inboxes: Vec<(PublicKey, usize, String)>,
    hist: Sh<Hist>,
    cancels: f64,
    seal: bool,
}

const FOLDER: &str = "/srv/s1/inbox";

pub fn root(prop: &'static str) -> Fut {
    Box::pin(run(prop))
}

fn channel_names(prop: &str, receivers: &[PublicKey]) -> Vec<String> {
    if prop != "C04" {
        let mut v: Vec<String> = ["main", "a", "ab", "chat/room", "B"].iter().map(|s| s.to_string()).collect();
        v[3] = "chat".into();
        let n = 1 + w(3) as usize;
        let k = w(3) as usize;
        return (0..n).map(|i| v[(i + k) % v.len()].clone()).collect();
    }
    // names chosen to collide once mapped to a file system in one way or another
    let n = 2 + w(5) as usize;
    let toks: Vec<String> = vec![
        "a".into(), "b".into(), "/".into(), "..".into(), ".".into(), "index".into(), "%".into(), "%2F".into(),
        "\\".into(), "\0".into(), "é".into(), "~".into(), ".tmp".into(), "A".into(), " ".into(), "_".into(), "-".into(),
        "tmp".into(), "%2f".into(), ":".into(), "*".into(), "+".into(), "=".into(), "\u{301}e".into(), "\n".into(), "0".into(),
    ];
    let mut out: Vec<String> = Vec::new();
    while out.len() < n {
        let c = match w(15) {
            0 => "a".to_string(),
            1 => String::new(),
            2 => "..".into(),
            3 => "index".into(),
            4 => format!("../{}/a", pick(receivers).to_base64()),
            5 => format!("../../../{}", pick(&["etc/passwd".to_string(), "tmp/x".into(), "srv/s1/router/local/x".into()])),
            6 => pick(&["/etc/cron.d".to_string(), "/srv/s1/secret".into(), "/".into(), "a/".into(), "/a".into(), "a//b".into(), "./a".into(), ".".into()]),
            7 => pick(&["x", "é", "%", "/"]).repeat([100, 127, 128, 200, 255, 256, 300, 5000][w(8) as usize]),
            8 | 12..=14 => {
                // derived from an earlier name
                match if out.is_empty() { None } else { Some(pick(&out)) } {
                    None => pick(&["b", "a", "é", "main", "a/b", "Chat %2F", "index"]).into(),
                    Some(o) => match w(16) {
                        0 => format!("{o}/index"),
                        1 => format!("{o}/."),
                        2 => o.replace('/', "%2F"),
                        3 => o.replace('%', "%25"),
                        4 => o.to_uppercase(),
                        5 => format!("{o}\0x"),
                        6 => o.replace('/', "_"),
                        7 => format!("{o} "),
                        8 => o.to_lowercase(),
                        9 => format!(" {o}"),
                        10 => o.trim().to_string(),
                        11 => o.replace('é', "e\u{301}"),
                        12 => o.chars().filter(|c| c.is_alphanumeric()).collect(),
                        13 => format!("{o}{o}"),
                        14 => o.chars().take(o.chars().count().saturating_sub(1)).collect(),
                        _ => o.to_uppercase(),
                    },
                }
            }
            9 => {
                // one byte off a long name
                let o = out.iter().max_by_key(|s| s.len()).cloned().unwrap_or_default();
                format!("{o}y")
            }
            _ => (0..1 + w(5)).map(|_| pick(&toks)).collect(),
        };
        if !out.contains(&c) {
            out.push(c);
        } else if wp(0.5) {
            break;
        }
    }
    out
}

async fn run(prop: &'static str) {
    let node = exec::add_node("server");
    sim().vfs.roots.insert(node, vec![FOLDER.into(), "/srv/s1/router".into()]);
    sim().vfs.h_mkdirs("/srv/s1");
    if prop == "C04" {
        sim().vfs.h_mkdirs("/srv/s1/secret");
        sim().vfs.h_mkdirs("/etc/cron.d");
        sim().vfs.h_write("/etc/passwd", b"root");
        sim().vfs.h_write("/srv/s1/secret/index", &[0; 16]);
    }
    let nrec = 1 + w(3) as usize;
    let receivers: Vec<PublicKey> = (0..nrec).map(|i| key(1 + i).public_key()).collect();
    let names = channel_names(prop, &receivers);
    let mut inboxes = Vec::new();
    for (ri, r) in receivers.iter().enumerate() {
        for n in &names {
            inboxes.push((r.clone(), ri, n.clone()));
        }
    }
    let http = wp(0.2);
    draw_faults(node, true);
    let mut cancels = [0.0, 0.0, 0.15, 0.5][w(4) as usize];
    if prop == "C04" && wp(0.6) {
        // mostly fault-free: naming is the point
        calm(node);
        cancels = 0.0;
    }
    let fcfg = (sim().nodes[node].faults, sim().nodes[node].crashable);
    // set up without faults
    calm(node);
    let api = if http {
        stat("variant.http");
        let unit = server_unit(ServerCfg { node, dir: "/srv/s1".into(), addr: "s1:1".into(), key: key(0) });
        harsh_start(&unit).await;
        if unit.get(CALM_LIMIT).await.is_none() {
            violation("C05", "no-start", "server does not start");
            return;
        }
        let mut owners = Vec::new();
        for i in 0..nrec {
            match connect(0, key(1 + i), ClientInfo::thin(), "s1:1").await {
                Ok(c) => owners.push(c),
                Err(e) => {
                    log(|| format!("setup: connect failed: {e}"));
                    stat("setup.failed");
                    return;
                }
            }
        }
        let mut senders = owners.clone();
        for i in 0..2 {
            if let Ok(c) = connect(0, key(10 + i), ClientInfo::thin(), "s1:1").await {
                senders.push(c);
            }
        }
        let api = Arc::new(HttpApi { unit: unit.clone(), owners, senders });
        net().cfg = NetCfg {
            max_delay: [MS, 20 * MS, SEC][w(3) as usize],
            p_refuse: [0.0, 0.05][w(2) as usize],
            p_lost_reply: [0.0, 0.05][w(2) as usize],
            p_cut: cancels,
            p_dup: 0.0,
        };
        // keep the server running whatever happens
        let u = unit.clone();
        exec::spawn(0, async move {
            loop {
                u.get(SEC).await;
                exec::sleep(20 * MS).await;
            }
        });
        Api::Http(api)
    } else {
        stat("variant.direct");
        let unit = Unit::new(node, || async {
            Inbox::new(FOLDER).await.map(Arc::new).map_err(|e| e.to_string())
        });
        harsh_start(&unit).await;
        if unit.get(CALM_LIMIT).await.is_none() {
            violation("C05", "no-start", "the inbox does not open");
            return;
        }
        Api::Direct(unit)
    };
    let ctx = Arc::new(Ctx { node, api, inboxes, hist: sh(Hist::default()), cancels, seal: http && wp(0.3) });
    // now and then an inbox is already rather full
    let bulk = if wp(0.012) { pick(&[40u32, 64, 101, 128, 150, 257, 300, 513, 1025, 1100]) } else { 0 };
    if bulk > 0 {
        stat("variant.bulk");
        for _ in 0..bulk {
            let _ = do_send(&ctx, 0, true).await;
        }
    }
    sim().nodes[node].faults = fcfg.0;
    sim().nodes[node].crashable = fcfg.1;

    clock_jumps(node, 0.3);
    // extra crashes at random instants
    if fcfg.1 && wp(0.3) {
        let t = sim().now + w(200) as u64 * 10 * sim().step_ns;
        exec::at(t, move || {
            if sim().nodes[node].crashable {
                exec::crash(node)
            }
        });
    }

    // chaos phase
    let clients = 1 + w(5) as usize;
    let nops = if prop == "C04" { 3 + w(12) } else { 2 + w(14) };
    let hot = wp(0.6);
    let mut rxs = Vec::new();
    for c in 0..clients {
        let ctx = ctx.clone();
        let n = 1 + nops / clients as u32;
        let (_, rx) = exec::call(0, async move {
            for _ in 0..n {
                let b = if hot && wp(0.7) { 0 } else { w(ctx.inboxes.len() as u32) as usize };
                if wp(0.55) {
                    let _ = do_send(&ctx, b, false).await;
                } else {
                    let limit = match w(8) {
                        _ if bulk > 0 && wp(0.4) => Some(1 + w(bulk + 3) as u64),
                        0 => None,
                        1 | 2 => Some(1),
                        3 => Some(2),
                        4 => Some(3),
                        5 => Some(0),
                        6 => Some(u64::MAX),
                        _ => Some(1 + w(5) as u64),
                    };
                    let _ = do_poll(&ctx, b, limit, false).await;
                }
                if wp(0.3) {
                    exec::sleep(w(50) as u64 * 100 * US).await;
                }
            }
            let _ = c;
        });
        rxs.push(rx);
    }
    join_all(rxs).await;

    // calm phase: faults stop
    log(|| "CALM".into());
    calm(node);
    net().cfg = NetCfg { max_delay: MS, ..Default::default() };
    wait_alive(node).await;
    if let Api::Http(a) = &ctx.api {
        if a.unit.get(CALM_LIMIT).await.is_none() {
            violation("C05", "no-restart", "the server could not be restarted");
            return;
        }
    }
    let total = ctx.hist.lock().unwrap().sends.len() as u64 + ctx.inboxes.len() as u64;
    let mut used: BTreeSet<usize> = ctx.hist.lock().unwrap().sends.iter().map(|s| s.inbox).collect();
    used.extend(ctx.hist.lock().unwrap().polls.iter().map(|p| p.inbox));
    if used.is_empty() {
        used.insert(0);
    }
    let mut drained = BTreeSet::new();
    for b in used.iter().copied() {
        if wp(0.5) && do_send(&ctx, b, true).await.is_err() && prop != "C04" {
            violation("C05", "send-fails-when-calm", format!("after faults stopped, a send to {} failed", name(&ctx, b)));
        }
        let mut calls = 0;
        let mut ok = false;
        loop {
            calls += 1;
            if calls > total + 3 {
                violation("C05", "drain-unbounded", format!("{} polls of {} did not drain it", calls, name(&ctx, b)));
                break;
            }
            let limit = if wp(0.5) { None } else { Some(1 + w(3) as u64 + bulk as u64 / 4) };
            match do_poll(&ctx, b, limit, true).await {
                Ok(0) => {
                    ok = true;
                    break;
                }
                Ok(_) => {}
                Err(e) => {
                    if prop != "C04" {
                        violation("C05", "poll-fails-when-calm", format!("after faults stopped, a poll of {} failed: {e}", name(&ctx, b)));
                    }
                    break;
                }
            }
        }
        if ok {
            drained.insert(b);
        }
    }
    // and every inbox accepts and hands out a fresh message
    if prop != "C04" {
        for b in used.iter().copied() {
            if do_send(&ctx, b, true).await.is_err() {
                violation("C05", "send-fails-when-calm", format!("after faults stopped, a send to {} failed", name(&ctx, b)));
            } else if drained.contains(&b) {
                match do_poll(&ctx, b, None, true).await {
                    Ok(0) => {}
                    Ok(n) => violation("C05", "drain-unbounded", format!("unlimited poll of {} left {n}", name(&ctx, b))),
                    Err(e) => violation("C05", "poll-fails-when-calm", format!("after faults stopped, a poll of {} failed: {e}", name(&ctx, b))),
                }
            }
        }
    }
    let inboxes: Vec<(usize, String, NodeId)> = ctx.inboxes.iter().map(|i| (i.1, i.2.clone(), node)).collect();
    verify(&inboxes, &ctx.hist.lock().unwrap(), &drained);
}

fn name(ctx: &Ctx, b: usize) -> String {
    format!("receiver {} channel {:?}", ctx.inboxes[b].1, short(&ctx.inboxes[b].2))
}

pub(super) fn text() -> String {
    match w(6) {
        0 | 1 => String::new(),
        2 => "x".repeat(w(200) as usize),
        3 => "\"\\\u{0}\n/é𝄞".repeat(w(4) as usize),
        4 if w(60) == 0 => "z\u{e9}".repeat([22_000, 40_000, 400_000][w(3) as usize]),
        4 => "{\"index\":1}".into(),
        _ => "y".repeat(500 + w(3000) as usize),
    }
}

async fn do_send(ctx: &Arc<Ctx>, b: usize, is_calm: bool) -> Result<(), ()> {
    let (receiver, _, channel) = ctx.inboxes[b].clone();
    let cancel = (!is_calm && wp(ctx.cancels)).then(|| w(60) as u64 * sim().step_ns);
    let id = {
        let mut h = ctx.hist.lock().unwrap();
        h.next += 1;
        h.next
    };
    let (sender, message, who) = match &ctx.api {
        Api::Direct(_) => {
            let k = 10 + w(3) as usize;
            let (cert, _) = fixed_cert(k);
            let info = pick(&[ClientInfo::thin(), ClientInfo::thick("h:1"), ClientInfo::server("s\u{0}:2"), ClientInfo::file("f")]);
            let c = Client::new(key(k).public_key(), cert, info);
            let s = Sender::new(c, Server::new(key(20).public_key(), pick(&["s1:1", "", "é", "x y"])));
            let enc: MessageEncoding = pick(&["base64", "base64/aes256-gcm", "base64/chacha20-poly1305/brotli", "base64//deflate", "base64/deflate"])
                .parse().unwrap_or(MessageEncoding::default());
            (s, Message::new(format!("m{id}:{}", text()), format!("s{id}"), enc), 0)
        }
        Api::Http(a) => {
            let who = w(a.senders.len() as u32) as usize;
            let s = &a.senders[who];
            let c = Client::new(s.driver_ref().secret_key().public_key(), s.connection_certificate().clone(), ClientInfo::thin());
            let snd = Sender::new(c, s.connected_server().clone());
            let m = if ctx.seal {
                match Message::create(s.driver_ref().secret_key(), &receiver, format!("m{id}:{}", text()), MessageEncoding::default(), CompressionLevel::default()) {
                    Ok(m) => m,
                    Err(_) => Message::new(format!("m{id}"), "", MessageEncoding::default()),
                }
            } else {
                Message::new(format!("m{id}:{}", text()), format!("s{id}"), MessageEncoding::default())
            };
            (snd, m, who)
        }
    };
    let (s2, m2, ch2) = (sender.clone(), message.clone(), channel.clone());
    let node = ctx.node;
    stat("op.send");
    let mut open = false;
    let (inv, inv_t, ok);
    match &ctx.api {
        Api::Direct(u) => {
            let Some(ib) = u.get(CALM_LIMIT).await else {
                violation("C05", "no-restart", "the inbox could not be reopened");
                return Err(());
            };
            inv = stamp();
            inv_t = sim().now;
            let fut = async move { ib.add_message(s2, receiver, ch2, m2).await.map_err(|e| e.to_string()) };
            let r = if is_calm { op_within(node, CALM_LIMIT, fut).await } else { Some(op(node, cancel, fut).await) };
            ok = match r {
                Some(Res::Ok(())) => true,
                Some(Res::Err(e)) => {
                    log(|| format!("send {id} -> Err {e}"));
                    stat("op.send_err");
                    open = true;
                    false
                }
                Some(Res::Lost(why)) => {
                    log(|| format!("send {id} -> {why}"));
                    open = why == "cancelled";
                    false
                }
                Some(Res::Panicked) => {
                    log(|| format!("send {id} -> panic"));
                    open = true;
                    false
                }
                None => {
                    violation("C05", "hang", "a send did not finish");
                    open = true;
                    false
                }
            };
        }
        Api::Http(a) => {
            let c = a.senders[who].clone();
            inv = stamp();
            inv_t = sim().now;
            let r = op_within(0, CALM_LIMIT, async move {
                c.send("http://s1:1", receiver, ch2, m2).await.map_err(|e| e.to_string())
            }).await;
            ok = match r {
                Some(Res::Ok(())) => true,
                Some(Res::Err(e)) => {
                    log(|| format!("send {id} -> Err {e}"));
                    open = true;
                    false
                }
                Some(_) => {
                    open = true;
                    false
                }
                None => {
                    violation("C05", "hang", "a send did not finish");
                    open = true;
                    false
                }
            };
        }
    }
    let ret = stamp();
    log(|| format!("send {id} to {} -> {}", name(ctx, b), if ok { "Ok" } else { "not acknowledged" }));
    ctx.hist.lock().unwrap().sends.push(Sent { id, inbox: b, inv, ret, inv_t, ret_t: sim().now, acked: ok, open, sender, message });
    if ok { Ok(()) } else { Err(()) }
}

/// Certificates for fixed identities (made once per process, without the simulated clock mattering).
fn fixed_cert(k: usize) -> (ConnectionCertificate, PublicKey) {
    static C: OnceLock<Vec<ConnectionCertificate>> = OnceLock::new();
    let s = key(20).public_key();
    let v = C.get_or_init(|| {
        (0..16)
            .map(|i| {
                let token = ConnectionToken::new(1_700_000_000 + i as u64, key(20).public_key());
                let sign = key(i).create_signature(token.to_bytes());
                ConnectionCertificate { token, sign }
            })
            .collect()
    });
    (v[k].clone(), s)
}

async fn do_poll(ctx: &Arc<Ctx>, b: usize, limit: Option<u64>, is_calm: bool) -> Result<u64, String> {
    let (receiver, owner, channel) = ctx.inboxes[b].clone();
    let cancel = (!is_calm && wp(ctx.cancels)).then(|| w(60) as u64 * sim().step_ns);
    stat("op.poll");
    let (inv, mut lost, mut open) = (stamp(), false, false);
    let mut inv = inv;
    let mut err = String::new();
    let res = match &ctx.api {
        Api::Direct(u) => {
            let Some(ib) = u.get(CALM_LIMIT).await else {
                violation("C05", "no-restart", "the inbox could not be reopened");
                return Err("no inbox".into());
            };
            inv = stamp();
            let fut = async move { ib.poll_messages(receiver, channel, limit).await.map_err(|e| e.to_string()) };
            let r = if is_calm { op_within(ctx.node, CALM_LIMIT, fut).await } else { Some(op(ctx.node, cancel, fut).await) };
            match r {
                Some(Res::Ok(v)) => Some(v),
                Some(Res::Err(e)) => {
                    stat("op.poll_err");
                    err = e;
                    None
                }
                Some(Res::Lost(why)) => {
                    stat("op.poll_lost");
                    lost = true;
                    open = why == "cancelled";
                    err = why.into();
                    None
                }
                Some(Res::Panicked) => {
                    err = "panicked".into();
                    None
                }
                None => {
                    violation("C05", "hang", "a poll did not finish");
                    lost = true;
                    open = true;
                    err = "hang".into();
                    None
                }
            }
        }
        Api::Http(a) => {
            let c = a.owners[owner].clone();
            let was_lost = sh(false);
            let wl = was_lost.clone();
            let r = op_within(0, CALM_LIMIT, async move {
                c.poll(channel, limit).await.map_err(|e| {
                    if let MiddlewareError::Other(_) = e {
                        *wl.lock().unwrap() = true;
                    }
                    e.to_string()
                })
            }).await;
            if *was_lost.lock().unwrap() {
                stat("op.poll_lost");
                lost = true;
                open = true;
            }
            match r {
                Some(Res::Ok(v)) => Some(v),
                Some(Res::Err(e)) => {
                    err = e;
                    None
                }
                Some(_) => {
                    lost = true;
                    open = true;
                    None
                }
                None => {
                    violation("C05", "hang", "a poll did not finish");
                    lost = true;
                    open = true;
                    err = "hang".into();
                    None
                }
            }
        }
    };
    let ret = stamp();
    log(|| match &res {
        Some((m, r)) => format!("poll {} limit {limit:?} -> {:?} remaining {r}", name(ctx, b), m.iter().map(|m| mid(&m.message.content)).collect::<Vec<_>>()),
        None => format!("poll {} limit {limit:?} -> {err}", name(ctx, b)),
    });
    let out = match &res {
        Some((_, r)) => Ok(*r),
        None => Err(err),
    };
    ctx.hist.lock().unwrap().polls.push(Polled { inbox: b, inv, ret, limit, res, lost, open, calm: is_calm });
    out
}

fn mid(content: &str) -> String {
    content.split(':').next().unwrap_or("?").chars().take(12).collect()
}

/// Judge a history. Inboxes are (receiver's number, channel, server).
pub(super) fn verify(inboxes: &[(usize, String, NodeId)], h: &Hist, drained: &BTreeSet<usize>) {
    let name = |b: usize| format!("receiver {} channel {:?}", inboxes[b].0, short(&inboxes[b].1));
    // who sent what
    let mut by_content: BTreeMap<&str, &Sent> = BTreeMap::new();
    for s in &h.sends {
        by_content.insert(&s.message.content, s);
    }
    let mut handed: BTreeMap<u32, (usize, usize)> = BTreeMap::new();
    for (pi, p) in h.polls.iter().enumerate() {
        let Some((msgs, _)) = &p.res else { continue };
        for m in msgs {
            stat("op.delivered");
            let Some(s) = by_content.get(m.message.content.as_str()) else {
                violation("C02", "alien-message", format!("poll of {} returned content {:?} nobody sent", name(p.inbox), short(&m.message.content)));
                continue;
            };
            if s.inbox != p.inbox {
                violation("C04", "wrong-inbox", format!("message {} sent to {} was polled from {}", s.id, name(s.inbox), name(p.inbox)));
                continue;
            }
            if m.channel != inboxes[s.inbox].1 || m.sender != s.sender || m.message != s.message {
                violation("C02", "altered-message", format!("message {} to {}: channel {:?}, arrived altered", s.id, name(s.inbox), short(&m.channel)));
            }
            let end = if s.acked || !s.open { s.ret_t } else { sim().now };
            if !exec::wall_possible(inboxes[p.inbox].2, s.inv_t, end, m.received_at) {
                violation("C02", "reception-time", format!("message {}: received_at {} is not a clock reading during its send", s.id, m.received_at));
            }
            if let Some((q, _)) = handed.insert(s.id, (pi, p.inbox)) {
                violation("C02", "delivered-twice", format!("message {} to {} was handed out by polls {q} and {pi}", s.id, name(s.inbox)));
            }
            if s.inv > p.ret {
                violation("C02", "from-the-future", format!("message {} was handed out before it was sent", s.id));
            }
        }
    }
    for (node, o, p) in sim().vfs.escapes.clone() {
        if inboxes.iter().any(|i| i.2 == node) {
            violation("C04", "outside-storage", format!("{o} {p}"));
            break;
        }
    }
    if drained.is_empty() && h.sends.is_empty() {
        return;
    }
    // accounting per inbox
    for b in 0..inboxes.len() {
        let missing: Vec<&Sent> = h.sends.iter().filter(|s| s.inbox == b && s.acked && !handed.contains_key(&s.id)).collect();
        let calm_polled = h.polls.iter().any(|p| p.inbox == b && p.calm);
        if !missing.is_empty() && calm_polled {
            let lost: Vec<&Polled> = h.polls.iter().filter(|p| p.inbox == b && p.lost).collect();
            let cap: u64 = lost.iter().map(|p| p.limit.unwrap_or(u64::MAX)).fold(0, u64::saturating_add);
            let orphan = missing.iter().find(|s| !lost.iter().any(|p| (p.open || p.ret > s.inv) && p.limit != Some(0)));
            let class = if drained.contains(&b) { "lost-message" } else { "unreachable-message" };
            if orphan.is_some() || missing.len() as u64 > cap {
                let s = orphan.unwrap_or(&missing[0]);
                violation("C01", class, format!("message {} to {} was acknowledged but is never handed out", s.id, name(b)));
                violation("C04", "acked-not-pollable", format!("message {} acknowledged for {} cannot be polled", s.id, name(b)));
            }
        }
        // FIFO
        let mut ops = Vec::new();
        for s in h.sends.iter().filter(|s| s.inbox == b) {
            let kind = if s.acked { Kind::Send(s.id) } else { Kind::MaybeSend(s.id) };
            let ret = if s.acked || !s.open { s.ret } else { u64::MAX };
            ops.push(HOp { inv: s.inv, ret, kind, what: String::new() });
        }
        let mut foreign = false;
        for p in h.polls.iter().filter(|p| p.inbox == b) {
            let limit = p.limit.unwrap_or(u64::MAX);
            match &p.res {
                Some((msgs, remaining)) => {
                    let mut got = Vec::new();
                    for m in msgs {
                        match by_content.get(m.message.content.as_str()) {
                            Some(s) => got.push(s.id),
                            None => foreign = true,
                        }
                    }
                    ops.push(HOp { inv: p.inv, ret: p.ret, kind: Kind::Poll { limit, got, remaining: *remaining }, what: String::new() });
                }
                None if p.lost => ops.push(HOp { inv: p.inv, ret: if p.open { u64::MAX } else { p.ret }, kind: Kind::LostPoll { limit }, what: String::new() }),
                None => {}
            }
        }
        if ops.is_empty() || foreign {
            continue;
        }
        stat("fifo.checked");
        let dbg = if exec::tracing() { format!("{ops:?}") } else { String::new() };
        match fifo::check(ops, 60_000) {
            Verdict::Ok => {}
            Verdict::Unknown => stat("fifo.undecided"),
            Verdict::Bad => {
                log(|| dbg);
                violation("C03", "not-fifo", format!("no order of the operations on {} explains its polls", name(b)));
            }
        }
    }
}
