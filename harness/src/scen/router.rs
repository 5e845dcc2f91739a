//! The routing table under concurrency, faults, cancellation and crashes (C06, C07, C08).
use std::collections::BTreeMap;
use std::sync::{Arc, OnceLock};

use hyperborealib::drivers::server::router::global_table::GlobalTableRouter;
use hyperborealib::prelude::*;

use super::register::{self, Kind, Model, ROp, Verdict};
use super::server::{server_unit, Running, ServerCfg};
use super::wire::{self, Ans};
use super::*;
use crate::exec::{log, stat, violation, US};
use crate::net::{net, NetCfg};

const KEYS: usize = 4;
const STABLE: [usize; 2] = [5, 6];
const ADDR: &str = "s1:1";

#[derive(Clone, PartialEq)]
enum Val {
    Local(Client),
    Remote(Client, Server),
    Server(Server),
}

struct Rec {
    val: Val,
    time: u64,
    ty: u8,
}

#[derive(Default)]
struct Hist {
    recs: Vec<Rec>,
    /// (table, key) -> operations
    ops: BTreeMap<(u8, usize), Vec<ROp>>,
}

#[derive(Clone)]
enum Api {
    Direct(Unit<GlobalTableRouter>),
    Http(Unit<Running>),
}

struct Ctx {
    node: NodeId,
    api: Api,
    hist: Sh<Hist>,
    cancels: f64,
    /// reads are never hit by injected disk errors
    clean_reads: bool,
    times: Vec<u64>,
    /// one table holds this many untouched records more
    bulk: (u8, usize),
}

pub fn root(prop: &'static str) -> Fut {
    Box::pin(run(prop))
}

fn ty(c: &Client) -> u8 {
    match c.info.client_type {
        ClientType::Thin => 0,
        ClientType::Thick => 1,
        ClientType::Server => 2,
        ClientType::File => 3,
    }
}

fn info(n: usize) -> ClientInfo {
    match w(5) {
        0 => ClientInfo::thin(),
        1 => ClientInfo::thick(format!("h{n}:1")),
        2 => ClientInfo::server(format!("s{n}:1")),
        3 => ClientInfo::file(format!("{}é\"{n}", "f".repeat([1, 300, 20_000][w(3) as usize]))),
        _ => ClientInfo::new(ClientType::Thin, Some(format!("t{n}"))),
    }
}

fn all_keys() -> Vec<usize> {
    (1..=KEYS).chain(STABLE).collect()
}

/// Keys of the records that make a table rather full.
const BULK: usize = 30;

fn index_of(k: &PublicKey) -> Option<usize> {
    static K: OnceLock<BTreeMap<String, usize>> = OnceLock::new();
    let all = K.get_or_init(|| all_keys().into_iter().chain(BULK..420).map(|i| (pubkey(i).to_base64(), i)).collect());
    all.get(&k.to_base64()).copied()
}

fn new_rec(ctx: &Ctx, table: u8, k: usize) -> (u32, Val) {
    let mut h = ctx.hist.lock().unwrap();
    let n = h.recs.len();
    let time = pick(&ctx.times);
    let home = w(2) as usize;
    let srv = key(20 + home);
    let http = matches!(ctx.api, Api::Http(_));
    let val = match table {
        0 => {
            let s = if http { key(0) } else { srv };
            Val::Local(Client::new(key(k).public_key(), wire::cert(&key(k), &s.public_key(), time), info(n)))
        }
        1 => Val::Remote(
            Client::new(key(k).public_key(), wire::cert(&key(k), &srv.public_key(), time), info(n)),
            Server::new(srv.public_key(), format!("srv{n}:1")),
        ),
        _ => Val::Server(Server::new(key(k).public_key(), if wp(0.1) { "a".repeat(20_000) + &n.to_string() } else { format!("srv{n}:1") })),
    };
    let t = match &val {
        Val::Local(c) | Val::Remote(c, _) => ty(c),
        _ => 0,
    };
    if let Some(i) = h.recs.iter().position(|r| r.val == val) {
        return (i as u32, val);
    }
    h.recs.push(Rec { val: val.clone(), time, ty: t });
    (n as u32, val)
}

fn push(ctx: &Ctx, table: u8, k: usize, op: ROp) {
    ctx.hist.lock().unwrap().ops.entry((table, k)).or_default().push(op);
}

enum Upd {
    Done(bool),
    Failed,
    /// may still take effect
    Open,
}

fn name(table: u8, k: usize) -> String {
    format!("{} record of key {k}", ["local", "remote", "server"][table as usize])
}

async fn index(ctx: &Arc<Ctx>, table: u8, k: usize, is_calm: bool) {
    stat("op.index");
    let (id, val) = new_rec(ctx, table, k);
    let cancel = (!is_calm && wp(ctx.cancels)).then(|| w(40) as u64 * sim().step_ns);
    let inv;
    let r = match &ctx.api {
        Api::Direct(u) => {
            let Some(r) = u.get(CALM_LIMIT).await else {
                violation("C06", "no-restart", "the routing table could not be reopened");
                return;
            };
            inv = stamp();
            let fut = async move {
                match val {
                    Val::Local(c) => r.index_local_client(c).await,
                    Val::Remote(c, s) => r.index_remote_client(c, s).await,
                    Val::Server(s) => r.index_server(s).await,
                }
                .map_err(|e| e.to_string())
            };
            match op(ctx.node, cancel, fut).await {
                Res::Ok(b) => Upd::Done(b),
                Res::Err(e) => {
                    log(|| format!("index {id} -> Err {e}"));
                    Upd::Failed
                }
                Res::Lost("cancelled") => Upd::Open,
                Res::Lost(_) => Upd::Failed,
                Res::Panicked => Upd::Failed,
            }
        }
        Api::Http(u) => {
            if u.get(CALM_LIMIT).await.is_none() {
                violation("C06", "no-restart", "the server could not be restarted");
                return;
            }
            inv = stamp();
            let sender = key(k);
            let ok = match val {
                Val::Local(c) => {
                    let q = ConnectRequest(Request::new(&sender, ConnectRequestBody::from_certificate(c.info, c.certificate)));
                    answered(wire::post::<_, ConnectResponse>(0, ADDR, "/api/v1/connect", q).await, |r| wire::status(&r.0))
                }
                Val::Remote(c, s) => answered(wire::post::<_, AnnounceResponse>(0, ADDR, "/api/v1/announce", AnnounceRequest::client(&sender, c, s)).await, |r| wire::status(&r.0)),
                Val::Server(s) => answered(wire::post::<_, AnnounceResponse>(0, ADDR, "/api/v1/announce", AnnounceRequest::server(&sender, s)).await, |r| wire::status(&r.0)),
            };
            match ok {
                Some(true) => Upd::Done(true),
                Some(false) => Upd::Failed,
                None => Upd::Open,
            }
        }
    };
    let ret = stamp();
    log(|| format!("index {id} as {} time {} -> {}", name(table, k), ctx.hist.lock().unwrap().recs[id as usize].time, match r { Upd::Done(true) => "Ok(true)", Upd::Done(false) => "Ok(false)", Upd::Failed => "failed", Upd::Open => "cut" }));
    if is_calm && !matches!(r, Upd::Done(_)) {
        violation("C06", "update-fails-when-calm", format!("after faults stopped, indexing a {} failed", name(table, k)));
    }
    let kind = match r {
        Upd::Done(true) => Kind::Write(Some(id)),
        Upd::Done(false) if table == 1 => Kind::Refused(id),
        Upd::Done(false) => {
            violation("C06", "refused", format!("indexing a {} was refused", name(table, k)));
            Kind::MaybeWrite(Some(id))
        }
        Upd::Failed | Upd::Open => Kind::MaybeWrite(Some(id)),
    };
    let ret = if matches!(r, Upd::Open) { u64::MAX } else { ret };
    push(ctx, table, k, ROp { inv, ret, kind });
}

fn answered<R>(a: Ans<R>, st: impl Fn(&R) -> Result<(), String>) -> Option<bool> {
    match a {
        Ans::Got(r) => match st(&r) {
            Ok(()) => Some(true),
            Err(e) => {
                log(|| format!("answered: {e}"));
                Some(false)
            }
        },
        Ans::Refused(e) => {
            log(|| format!("answered: {e}"));
            Some(false)
        }
        Ans::Lost(e) => {
            log(|| format!("lost: {e}"));
            None
        }
    }
}

async fn disconnect(ctx: &Arc<Ctx>, k: usize, is_calm: bool) {
    stat("op.disconnect");
    let cancel = (!is_calm && wp(ctx.cancels)).then(|| w(20) as u64 * sim().step_ns);
    let inv;
    let r = match &ctx.api {
        Api::Direct(u) => {
            let Some(r) = u.get(CALM_LIMIT).await else {
                violation("C06", "no-restart", "the routing table could not be reopened");
                return;
            };
            inv = stamp();
            let pk = key(k).public_key();
            match op(ctx.node, cancel, async move { r.disconnect(&pk).await.map_err(|e| e.to_string()) }).await {
                Res::Ok(()) => Upd::Done(true),
                Res::Lost("cancelled") => Upd::Open,
                _ => Upd::Failed,
            }
        }
        Api::Http(u) => {
            if u.get(CALM_LIMIT).await.is_none() {
                violation("C06", "no-restart", "the server could not be restarted");
                return;
            }
            inv = stamp();
            match answered(wire::post::<_, DisconnectResponse>(0, ADDR, "/api/v1/disconnect", DisconnectRequest::new(&key(k))).await, |r| wire::status(&r.0)) {
                Some(true) => Upd::Done(true),
                Some(false) => Upd::Failed,
                None => Upd::Open,
            }
        }
    };
    let ret = if matches!(r, Upd::Open) { u64::MAX } else { stamp() };
    let done = matches!(r, Upd::Done(_));
    log(|| format!("disconnect key {k} -> {done}"));
    if is_calm && !done {
        violation("C06", "update-fails-when-calm", format!("after faults stopped, disconnecting key {k} failed"));
    }
    for t in 0..3 {
        push(ctx, t, k, ROp { inv, ret, kind: if done { Kind::Write(None) } else { Kind::MaybeWrite(None) } });
    }
}

/// Read one table, by listing (None) or by looking a key up.
async fn read(ctx: &Arc<Ctx>, table: u8, look: Option<usize>, filter: Option<u8>, is_calm: bool) {
    stat("op.read");
    let tyf = filter.map(|f| [ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File][f as usize]);
    let http = matches!(ctx.api, Api::Http(_));
    let via_get = http && table != 1 && look.is_none() && wp(0.6);
    let (inv, r): (u64, Option<Res<Vec<Val>>>) = if via_get {
        let inv = stamp();
        let r = if table == 0 {
            wire::get::<ClientsResponse>(0, ADDR, "/api/v1/clients").await.map(|r| r.clients.into_iter().map(Val::Local).collect())
        } else {
            wire::get::<ServersResponse>(0, ADDR, "/api/v1/servers").await.map(|r| r.servers.into_iter().map(Val::Server).collect())
        };
        // an answer that does not arrive says nothing about the table
        (inv, Some(match r { Ok(v) => Res::Ok(v), Err(_) => Res::Lost("net") }))
    } else {
        enum R {
            A(Arc<GlobalTableRouter>),
            B(Arc<Running>),
        }
        impl R {
            fn r(&self) -> &GlobalTableRouter {
                match self {
                    R::A(a) => a,
                    R::B(b) => b.driver.router(),
                }
            }
        }
        let r = match &ctx.api {
            Api::Direct(u) => u.get(CALM_LIMIT).await.map(R::A),
            Api::Http(u) => u.get(CALM_LIMIT).await.map(R::B),
        };
        let Some(r) = r else {
            violation("C06", "no-restart", "the routing table could not be reopened");
            return;
        };
        let pk = look.map(|k| key(k).public_key());
        let fut = async move {
            let t = r.r();
            let e = |e: <GlobalTableRouter as Router>::Error| e.to_string();
            Ok(match (table, pk) {
                (0, None) => t.local_clients().await.map_err(e)?.into_iter().map(Val::Local).collect(),
                (1, None) => t.remote_clients().await.map_err(e)?.into_iter().map(|(c, s)| Val::Remote(c, s)).collect(),
                (_, None) => t.servers().await.map_err(e)?.into_iter().map(Val::Server).collect(),
                (0, Some(p)) => t.lookup_local_client(&p, tyf).await.map_err(e)?.into_iter().map(|(c, _)| Val::Local(c)).collect(),
                (1, Some(p)) => t.lookup_remote_client(&p, tyf).await.map_err(e)?.into_iter().map(|(c, s, _)| Val::Remote(c, s)).collect(),
                (_, Some(p)) => t.lookup_server(&p).await.map_err(e)?.into_iter().map(|(s, _)| Val::Server(s)).collect(),
            })
        };
        (stamp(), op_within(ctx.node, CALM_LIMIT, fut).await)
    };
    let ret = stamp();
    let what = match look {
        None => format!("listing {} records", ["local", "remote", "server"][table as usize]),
        Some(k) => format!("looking up the {}", name(table, k)),
    };
    let vals = match r {
        Some(Res::Ok(v)) => v,
        Some(Res::Lost(_)) => return,
        Some(Res::Err(e)) => {
            log(|| format!("{what} -> Err {e}"));
            if ctx.clean_reads || is_calm {
                violation("C07", "read-fails", format!("{what} failed without any disk error on it: {e}"));
            }
            return;
        }
        Some(Res::Panicked) => {
            if sim().nodes[ctx.node].alive && (ctx.clean_reads || is_calm) {
                // a crash right here looks like a panic only when the node went down
                if sim().panics.iter().any(|p| p.0 == ctx.node) {
                    violation("C07", "read-panics", format!("{what} panicked"));
                }
            }
            return;
        }
        None => {
            violation("C07", "read-hangs", format!("{what} does not come back"));
            return;
        }
    };
    log(|| format!("{what} -> {} records", vals.len()));
    let mut got: BTreeMap<usize, u32> = BTreeMap::new();
    {
        let h = ctx.hist.lock().unwrap();
        for v in &vals {
            let pk = match v {
                Val::Local(c) | Val::Remote(c, _) => &c.public_key,
                Val::Server(s) => &s.public_key,
            };
            let Some(k) = index_of(pk) else {
                violation("C06", "alien-record", format!("{what} returned a key nobody indexed"));
                continue;
            };
            if look.is_some() && look != Some(k) {
                violation("C06", "alien-record", format!("{what} returned key {k}"));
                continue;
            }
            match h.recs.iter().position(|r| &r.val == v) {
                None => violation("C06", "altered-record", format!("{what} returned a record of key {k} nobody indexed")),
                Some(id) => {
                    if let Some(f) = filter {
                        if h.recs[id].ty != f {
                            violation("C06", "wrong-type", format!("{what} returned a client of another type"));
                            continue;
                        }
                    }
                    if got.insert(k, id as u32).is_some() {
                        violation("C06", "duplicate-record", format!("{what} returned key {k} twice"));
                    }
                }
            }
        }
    }
    for k in all_keys() {
        if look.is_some() && look != Some(k) {
            continue;
        }
        if STABLE.contains(&k) && !got.contains_key(&k) && filter.is_none() {
            violation("C07", "record-missing", format!("{what} does not return the untouched key {k}"));
        }
        if STABLE.contains(&k) && ctx.bulk.0 == table && look.is_none() {
            for b in BULK..BULK + ctx.bulk.1 {
                if !got.contains_key(&b) {
                    violation("C07", "record-missing", format!("{what} does not return the untouched key {b}"));
                    break;
                }
            }
        }
        push(ctx, table, k, ROp { inv, ret, kind: Kind::Read { got: got.get(&k).copied(), filter } });
    }
}

async fn run(prop: &'static str) {
    let node = exec::add_node("server");
    sim().vfs.h_mkdirs("/srv/s1");
    let http = wp(0.15);
    draw_faults(node, true);
    let clean_reads = http || prop == "C07" || wp(0.4);
    if clean_reads {
        for k in [crate::os::K_EIO, crate::os::K_FDS] {
            sim().fcfg.kinds[k] = false;
        }
    }
    let cancels = [0.0, 0.0, 0.15, 0.5][w(4) as usize];
    let fcfg = (sim().nodes[node].faults, sim().nodes[node].crashable);
    calm(node);
    let api = if http {
        stat("variant.http");
        let unit = server_unit(ServerCfg { node, dir: "/srv/s1".into(), addr: ADDR.into(), key: key(0) });
        harsh_start(&unit).await;
        if unit.get(CALM_LIMIT).await.is_none() {
            violation("C07", "no-start", "the server does not start");
            return;
        }
        Api::Http(unit)
    } else {
        stat("variant.direct");
        let unit = Unit::new(node, || async { GlobalTableRouter::new("/srv/s1/router").await.map(Arc::new).map_err(|e| e.to_string()) });
        harsh_start(&unit).await;
        if unit.get(CALM_LIMIT).await.is_none() {
            violation("C07", "no-start", "the routing table does not open");
            return;
        }
        Api::Direct(unit)
    };
    let base = exec::EPOCH_S;
    let mut times = vec![base, base + 1, base + 2, base + 3, base - 1];
    if wp(0.2) {
        times.extend([0, u64::MAX, u64::MAX - 1, 1 << 32, 1 << 63, 255, 256]);
    }
    // now and then a table is already rather full
    let bulk = if wp(0.01) { (w(3) as u8, pick(&[20usize, 33, 65, 101, 129, 257, 301])) } else { (0, 0) };
    let ctx = Arc::new(Ctx { node, api, hist: sh(Hist::default()), cancels, clean_reads, times, bulk });
    if bulk.1 > 0 {
        stat("variant.bulk");
        for k in BULK..BULK + bulk.1 {
            index(&ctx, bulk.0, k, true).await;
        }
        ctx.hist.lock().unwrap().ops.retain(|(_, k), _| *k < BULK);
    }
    for t in 0..3u8 {
        for k in STABLE {
            index(&ctx, t, k, true).await;
        }
    }
    clock_jumps(node, 0.2);
    let nk = 1 + w(KEYS as u32) as usize;
    let focus = if wp(0.5) { Some(if prop == "C08" { 1 } else { w(3) as u8 }) } else { None };
    sim().nodes[node].faults = fcfg.0;
    sim().nodes[node].crashable = fcfg.1;
    net().cfg = NetCfg { max_delay: [MS, 20 * MS][w(2) as usize], p_refuse: [0.0, 0.05][w(2) as usize], p_lost_reply: [0.0, 0.05][w(2) as usize], p_cut: cancels, p_dup: 0.0 };
    if fcfg.1 && wp(0.3) {
        let t = sim().now + w(200) as u64 * 4 * sim().step_ns;
        exec::at(t, move || {
            if sim().nodes[node].crashable {
                exec::crash(node)
            }
        });
    }
    let clients = 1 + w(4) as usize;
    let nops = 3 + w(14);
    let p_read = [0.5, 0.3, 0.7][w(3) as usize];
    let p_disc = [0.3, 0.1, 0.0, 0.5][w(4) as usize];
    let mut rxs = Vec::new();
    for _ in 0..clients {
        let ctx = ctx.clone();
        let n = 1 + nops / clients as u32;
        let (_, rx) = exec::call(0, async move {
            for _ in 0..n {
                let t = focus.unwrap_or_else(|| w(3) as u8);
                let k = 1 + w(nk as u32) as usize;
                if wp(p_read) {
                    let look = wp(0.5).then(|| if wp(0.15) { pick(&STABLE) } else { k });
                    let filter = (look.is_some() && t != 2 && wp(0.4)).then(|| w(4) as u8);
                    read(&ctx, t, look, filter, false).await;
                } else if wp(p_disc) {
                    disconnect(&ctx, k, false).await;
                } else {
                    index(&ctx, t, k, false).await;
                }
                if wp(0.3) {
                    exec::sleep(w(50) as u64 * 50 * US).await;
                }
            }
        });
        rxs.push(rx);
    }
    join_all(rxs).await;
    log(|| "CALM".into());
    calm(node);
    net().cfg = NetCfg { max_delay: MS, ..Default::default() };
    wait_alive(node).await;
    if let Api::Http(u) = &ctx.api {
        if u.get(CALM_LIMIT).await.is_none() {
            violation("C06", "no-restart", "the server could not be restarted");
            return;
        }
    }
    for t in 0..3 {
        read(&ctx, t, None, None, true).await;
    }
    if wp(0.3) {
        // updates work again and are seen
        let (t, k) = (w(3) as u8, 1 + w(nk as u32) as usize);
        if wp(0.3) {
            disconnect(&ctx, k, true).await;
        }
        index(&ctx, t, k, true).await;
        read(&ctx, t, None, None, true).await;
        if wp(0.3) && fcfg.1 {
            exec::crash(node);
            wait_alive(node).await;
            if let Api::Http(u) = &ctx.api {
                let _ = u.get(CALM_LIMIT).await;
            }
            read(&ctx, t, None, None, true).await;
        }
    }
    verify(&ctx, http);
}

fn verify(ctx: &Ctx, http: bool) {
    let h = ctx.hist.lock().unwrap();
    let time = |i: u32| h.recs[i as usize].time;
    let ty = |i: u32| h.recs[i as usize].ty;
    for ((t, k), ops) in &h.ops {
        stat("register.checked");
        if *t != 1 || !http {
            let m = Model { time: &time, ty: &ty, newest: false };
            match register::check(&m, ops.clone(), 60_000) {
                Verdict::Ok => {}
                Verdict::Unknown => stat("register.undecided"),
                Verdict::Bad => {
                    log(|| format!("{ops:?}"));
                    violation("C06", "not-a-register", format!("no order of the operations on the {} explains its reads", name(*t, *k)));
                }
            }
        }
        if *t == 1 {
            // an announcement counts whether the router says it stored it or not
            let ops: Vec<ROp> = ops
                .iter()
                .cloned()
                .map(|mut o| {
                    if let Kind::Refused(v) = o.kind {
                        o.kind = Kind::Write(Some(v));
                    }
                    o
                })
                .collect();
            let m = Model { time: &time, ty: &ty, newest: true };
            match register::check(&m, ops.clone(), 60_000) {
                Verdict::Ok => {}
                Verdict::Unknown => stat("register.undecided"),
                Verdict::Bad => {
                    log(|| format!("{ops:?}"));
                    violation("C08", "older-wins", format!("the {} is not the newest announced", name(*t, *k)));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ lookups through a server

pub fn newest_root(prop: &'static str) -> Fut {
    Box::pin(newest(prop))
}

struct Cand {
    val: Val,
    time: u64,
    acked: bool,
    epoch: u64,
}

async fn newest(_prop: &'static str) {
    let node = exec::add_node("server");
    sim().vfs.h_mkdirs("/srv/s1");
    draw_faults(node, true);
    let fcfg = (sim().nodes[node].faults, sim().nodes[node].crashable);
    calm(node);
    let unit = server_unit(ServerCfg { node, dir: "/srv/s1".into(), addr: ADDR.into(), key: key(0) });
    harsh_start(&unit).await;
    if unit.get(CALM_LIMIT).await.is_none() {
        violation("C08", "no-start", "the server did not start");
        return;
    }
    clock_jumps(node, 0.2);
    let base = exec::EPOCH_S;
    let extreme = wp(0.15);
    let nk = 1 + w(2) as usize;
    let rounds = 1 + w(4);
    let cands: Sh<BTreeMap<usize, Vec<Cand>>> = sh(BTreeMap::new());
    // a client's own connections to one server carry increasing times
    let mut local_t = vec![base + w(3) as u64; 8];
    let mut replays: Vec<AnnounceRequest> = Vec::new();
    let mut n = 0usize;
    for _ in 0..rounds {
        sim().nodes[node].faults = fcfg.0;
        sim().nodes[node].crashable = fcfg.1;
        net().cfg = NetCfg { max_delay: [MS, 50 * MS, SEC][w(3) as usize], p_refuse: [0.0, 0.05][w(2) as usize], p_lost_reply: [0.0, 0.1][w(2) as usize], p_cut: [0.0, 0.1][w(2) as usize], p_dup: 0.0 };
        let mut rxs = Vec::new();
        let mut busy: std::collections::BTreeSet<usize> = Default::default();
        for _ in 0..1 + w(5) {
            n += 1;
            let k = 1 + w(nk as u32) as usize;
            let cands = cands.clone();
            if wp(0.25) && busy.insert(k) {
                let t = local_t[k] + 1 + w(3) as u64;
                local_t[k] = t;
                let c = Client::new(key(k).public_key(), wire::cert(&key(k), &key(0).public_key(), t), info(n));
                let q = ConnectRequest(Request::new(&key(k), ConnectRequestBody::from_certificate(c.info.clone(), c.certificate.clone())));
                let i = add(&cands, k, Val::Local(c), t);
                let (_, rx) = exec::call(0, async move {
                    let r = answered(wire::post::<_, ConnectResponse>(0, ADDR, "/api/v1/connect", q).await, |r| wire::status(&r.0));
                    ack(&cands, k, i, r == Some(true));
                });
                rxs.push(rx);
            } else {
                let q = if wp(0.3) && !replays.is_empty() {
                    stat("fault.replayed_announcement");
                    pick(&replays)
                } else {
                    let t = if extreme && wp(0.5) { pick(&[0, 1, 255, 256, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX]) } else { base + w(8) as u64 };
                    let s = key(20 + w(3) as usize);
                    let c = Client::new(key(k).public_key(), wire::cert(&key(k), &s.public_key(), t), info(n));
                    AnnounceRequest::client(&key(if wp(0.5) { k } else { 20 }), c, Server::new(s.public_key(), format!("srv{n}:1")))
                };
                replays.push(q.clone());
                let AnnounceRequestBody::Client { client, server } = &q.0.request else { continue };
                let k = index_of(&client.public_key).unwrap();
                let i = add(&cands, k, Val::Remote(client.clone(), server.clone()), client.certificate.token.auth_date);
                let (_, rx) = exec::call(0, async move {
                    let r = answered(wire::post::<_, AnnounceResponse>(0, ADDR, "/api/v1/announce", q).await, |r| wire::status(&r.0));
                    ack(&cands, k, i, r == Some(true));
                });
                rxs.push(rx);
            }
            if wp(0.4) {
                // one at a time
                join_all(std::mem::take(&mut rxs)).await;
            }
            let f = unit.clone();
            if wp(0.5) {
                f.get(SEC * 30).await;
            }
        }
        join_all(rxs).await;
        calm(node);
        net().cfg = NetCfg { max_delay: MS, ..Default::default() };
        if wp(0.3) {
            exec::crash(node);
            stat("fault.crash_between");
        }
        wait_alive(node).await;
        if unit.get(CALM_LIMIT).await.is_none() {
            violation("C08", "no-restart", "the server could not be restarted");
            return;
        }
        // let requests cut short finish
        exec::sleep(2 * SEC).await;
        for k in 1..=nk {
            look(&cands, k, pick(&[10usize, k, 3 - k.min(2)])).await;
        }
    }
}

fn add(c: &Sh<BTreeMap<usize, Vec<Cand>>>, k: usize, val: Val, time: u64) -> usize {
    let mut g = c.lock().unwrap();
    let v = g.entry(k).or_default();
    v.push(Cand { val, time, acked: false, epoch: 0 });
    v.len() - 1
}

fn ack(c: &Sh<BTreeMap<usize, Vec<Cand>>>, k: usize, i: usize, yes: bool) {
    let mut g = c.lock().unwrap();
    let x = &mut g.get_mut(&k).unwrap()[i];
    x.acked = yes;
    x.epoch += 1;
    log(|| format!("update {i} of key {k} time {} local {} -> acked {yes}", x.time, matches!(x.val, Val::Local(_))));
}

async fn look(cands: &Sh<BTreeMap<usize, Vec<Cand>>>, k: usize, who: usize) {
    stat("op.lookup");
    let filter = wp(0.3).then(|| w(4) as u8);
    let tyf = filter.map(|f| [ClientType::Thin, ClientType::Thick, ClientType::Server, ClientType::File][f as usize]);
    let q = LookupRequest::new(&key(who), key(k).public_key(), tyf);
    let r = match wire::post::<_, LookupResponse>(0, ADDR, "/api/v1/lookup", q).await {
        Ans::Got(LookupResponse(Response::Success { response, .. })) => response,
        Ans::Got(LookupResponse(Response::Error { reason, .. })) => {
            violation("C08", "lookup-fails", format!("lookup of key {k} failed: {reason}"));
            return;
        }
        Ans::Refused(e) | Ans::Lost(e) => {
            violation("C08", "lookup-fails", format!("lookup of key {k} failed: {e}"));
            return;
        }
    };
    let got = match r {
        LookupResponseBody::Local { client, .. } => Some(Val::Local(client)),
        LookupResponseBody::Remote { client, server, .. } => Some(Val::Remote(client, server)),
        LookupResponseBody::Hint { .. } => None,
    };
    let g = cands.lock().unwrap();
    let empty = Vec::new();
    let all = g.get(&k).unwrap_or(&empty);
    // each table keeps one record per key: with a type filter only what each holds can be found
    if filter.is_some() {
        if let Some(Val::Local(c) | Val::Remote(c, _)) = &got {
            if Some(ty(c)) != filter {
                violation("C08", "wrong-type", format!("lookup of key {k} with a type filter returned another type"));
            }
        }
        // each table keeps its newest record; of those, the newest of that type is the answer
        if all.iter().all(|c| c.acked) {
            let newest = |local: bool| {
                let t = all.iter().filter(|c| matches!(c.val, Val::Local(_)) == local).map(|c| c.time).max();
                let v: Vec<&Cand> = all.iter().filter(|c| matches!(c.val, Val::Local(_)) == local && Some(c.time) == t).collect();
                v
            };
            let (l, r) = (newest(true), newest(false));
            if l.iter().chain(&r).any(|c| l.iter().chain(&r).any(|d| d.time == c.time && d.val != c.val)) {
                return;
            }
            let want = l.iter().chain(&r).filter(|c| matches!(&c.val, Val::Local(x) | Val::Remote(x, _) if Some(ty(x)) == filter)).max_by_key(|c| c.time);
            if want.map(|c| &c.val) != got.as_ref() {
                violation("C08", "older-wins", format!("lookup of key {k} with a type filter did not return the newest record of that type"));
            }
        }
        return;
    }
    let best = all.iter().filter(|c| c.acked).map(|c| c.time).max();
    match &got {
        None => {
            if best.is_some() {
                violation("C08", "accepted-not-found", format!("lookup of key {k} by {who} finds nothing although updates were accepted"));
            }
        }
        Some(v) => {
            let Some(c) = all.iter().find(|c| &c.val == v) else {
                violation("C08", "alien-record", format!("lookup of key {k} by {who} returned a record nobody gave"));
                return;
            };
            if let Some(b) = best {
                if c.time < b {
                    let tie = all.iter().any(|d| &d.val == v && d.time >= b);
                    if !tie {
                        violation("C08", "older-wins", format!("lookup of key {k} returned the record of time {} although one of time {b} was accepted", c.time));
                    }
                }
            }
        }
    }
}
