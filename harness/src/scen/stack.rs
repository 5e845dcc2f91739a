//! Whole nodes for the inbox properties: the repository's middleware, router and inbox behind its own HTTP server,
//! called through its own HTTP client, down to the system calls. Connections break, servers crash, disks fail.

use std::collections::BTreeSet;
use std::sync::Arc;

use hyperborealib::drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox;
use hyperborealib::drivers::server::router::global_table::GlobalTableRouter;
use hyperborealib::drivers::server::traversal::bfs_recursion::BfsRecursionTraversal;
use hyperborealib::http::{AxumHttpServer, ReqwestHttpClient};
use hyperborealib::prelude::*;

use super::inbox::{self, Hist, Polled, Sent};
use super::*;
use crate::exec::{log, stat, violation, Kernel, US};
use crate::sock::{self, node_ip, world};

type Conn = ConnectedClientMiddleware<ReqwestHttpClient>;

#[derive(Default)]
struct State {
    hist: Hist,
    done: u32,
    over: bool,
    drained: BTreeSet<usize>,
}

fn state() -> &'static std::sync::Mutex<State> {
    static S: OnceLock<Mutex<State>> = OnceLock::new();
    S.get_or_init(|| Mutex::new(State::default()))
}

#[derive(Clone)]
struct Srv {
    node: NodeId,
    bind: String,
    rec: Server,
    key: usize,
}

/// One of a client's calls.
#[derive(Clone)]
enum Todo {
    Send { to: usize, by_name: u32, text: String },
    Poll { at: usize, limit: Option<u64> },
}

#[derive(Clone)]
struct Cl {
    node: NodeId,
    key: usize,
    home: usize,
}

struct Net {
    srv: Vec<Srv>,
    cl: Vec<Cl>,
    /// (client, channel)
    inboxes: Vec<(usize, String)>,
    max_calls: u64,
}

fn serve(n: &Arc<Net>, i: usize) {
    let n = n.clone();
    exec::thread(n.srv[i].node, move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        rt.block_on(async move {
            let s = &n.srv[i];
            while !exec::ghost() {
                let r: Result<(), String> = async {
                    let router = GlobalTableRouter::new(format!("/srv/{i}/router")).await.map_err(|e| e.to_string())?;
                    let inbox = StoredQueueMessagesInbox::new(format!("/srv/{i}/inbox")).await.map_err(|e| e.to_string())?;
                    for o in &n.srv {
                        if o.node != s.node {
                            router.index_server(o.rec.clone()).await.map_err(|e| e.to_string())?;
                        }
                    }
                    let params = ServerParams { secret_key: key(s.key), address: s.rec.address.clone() };
                    let driver = ServerDriver::new(router, BfsRecursionTraversal, inbox, params);
                    let m = ServerMiddleware::new(ReqwestHttpClient::default(), AxumHttpServer::default(), driver).await;
                    m.serve(s.bind.as_str()).await.map_err(|e| e.to_string())
                }
                .await;
                log(|| format!("SERVER s{i}: {r:?}"));
                nap(100 * MS).await;
            }
        });
    });
}

async fn nap(ns: u64) {
    tokio::time::sleep(std::time::Duration::from_nanos(ns)).await;
}

/// Takes a drawn value on a thread of a node.
fn dice<T>(f: impl FnOnce() -> T) -> T {
    let _k = Kernel::enter();
    f()
}

async fn do_send(n: &Net, me: usize, c: &Conn, b: usize, by_name: u32, text: &str) -> bool {
    let (id, sender, inv, inv_t) = {
        let _k = Kernel::enter();
        let mut st = state().lock().unwrap();
        st.hist.next += 1;
        stat("op.send");
        (st.hist.next, Sender::new(c.get_client(), c.connected_server().clone()), stamp(), sim().now)
    };
    let (who, channel) = n.inboxes[b].clone();
    let to = pubkey(n.cl[who].key);
    let message = Message::new(format!("m{id}:{text}"), format!("s{id}"), MessageEncoding::default());
    let address = match by_name {
        0 => format!("http://{}", n.srv[n.cl[who].home].rec.address),
        1 => format!("hyp://{}", to.to_base64()),
        _ => format!("hyperborea://thin:{}", to.to_base64()),
    };
    let r = c.send(&address, to, channel, message.clone()).await.map_err(|e| e.to_string());
    if exec::ghost() {
        return false;
    }
    let _k = Kernel::enter();
    let acked = r.is_ok();
    log(|| format!("send {id} by client {me} to inbox {b} at {address:.12} -> {r:?}"));
    if !acked {
        stat("op.send_err");
    }
    state().lock().unwrap().hist.sends.push(Sent { id, inbox: b, inv, ret: stamp(), inv_t, ret_t: sim().now, acked, open: !acked, sender, message });
    acked
}

async fn do_poll(n: &Net, c: &Conn, b: usize, limit: Option<u64>, calm: bool) -> Result<u64, String> {
    let inv = dice(|| {
        stat("op.poll");
        stamp()
    });
    let r = c.poll(n.inboxes[b].1.clone(), limit).await;
    if exec::ghost() {
        return Err("crashed".into());
    }
    let _k = Kernel::enter();
    let lost = matches!(&r, Err(MiddlewareError::Other(_)));
    let r = r.map_err(|e| e.to_string());
    log(|| match &r {
        Ok((m, left)) => format!("poll of inbox {b} limit {limit:?} -> {:?} remaining {left}", m.iter().map(|m| m.message.content.split(':').next().unwrap_or("").to_string()).collect::<Vec<_>>()),
        Err(e) => format!("poll of inbox {b} limit {limit:?} -> {e}"),
    });
    if lost {
        stat("op.poll_lost");
    }
    let out = r.as_ref().map(|r| r.1).map_err(|e| e.clone());
    state().lock().unwrap().hist.polls.push(Polled { inbox: b, inv, ret: stamp(), limit, res: r.ok(), lost, open: lost, calm });
    out
}

fn client(n: &Arc<Net>, me: usize, lanes: Vec<Vec<(u64, Todo)>>) {
    let n = n.clone();
    let cl = n.cl[me].clone();
    exec::thread(cl.node, move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        rt.block_on(async move {
            let url = n.srv[cl.home].rec.address.clone();
            let c = ClientMiddleware::new(ReqwestHttpClient::default(), ClientDriver::thin(key(cl.key)));
            let mut conn = None;
            let mut calm_tries = 0;
            while calm_tries < 6 {
                match c.connect(url.clone()).await {
                    Ok(c) => {
                        conn = Some(Arc::new(c));
                        break;
                    }
                    Err(e) => dice(|| log(|| format!("client {me} does not connect: {e}"))),
                }
                if state().lock().unwrap().over {
                    calm_tries += 1;
                    nap(10 * SEC).await;
                } else {
                    nap(SEC).await;
                }
            }
            let Some(conn) = conn else {
                dice(|| violation("C05", "not-served", "a client cannot connect after the faults stopped"));
                return;
            };
            let mut hs = Vec::new();
            for lane in lanes {
                let (n, c) = (n.clone(), conn.clone());
                hs.push(tokio::spawn(async move {
                    for (wait, t) in lane {
                        if wait > 0 {
                            nap(wait).await;
                        }
                        match t {
                            Todo::Send { to, by_name, text } => {
                                do_send(&n, me, &c, to, by_name, &text).await;
                            }
                            Todo::Poll { at, limit } => {
                                let _ = do_poll(&n, &c, at, limit, false).await;
                            }
                        }
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
            state().lock().unwrap().done += 1;
            while !state().lock().unwrap().over {
                nap(SEC).await;
            }
            nap(SEC).await;
            // connections that broke are noticed on their next use
            let mut ok = false;
            for _ in 0..6 {
                if conn.poll("nobody sends here", None).await.is_ok() {
                    ok = true;
                    break;
                }
                nap(10 * SEC).await;
            }
            if !ok {
                dice(|| violation("C05", "poll-fails-when-calm", format!("after the faults stopped, client {me} cannot poll")));
            }
            for b in 0..n.inboxes.len() {
                if n.inboxes[b].0 != me || !ok {
                    continue;
                }
                let (mut calls, mut errors) = (0, 0);
                loop {
                    calls += 1;
                    if calls > n.max_calls {
                        dice(|| violation("C05", "drain-unbounded", format!("{calls} polls did not drain an inbox")));
                        break;
                    }
                    let limit = dice(|| if wp(0.4) { None } else { Some(1 + w(3) as u64) });
                    match do_poll(&n, &conn, b, limit, true).await {
                        Ok(0) => {
                            state().lock().unwrap().drained.insert(b);
                            break;
                        }
                        Ok(_) => {}
                        Err(e) => {
                            errors += 1;
                            if errors > 3 {
                                dice(|| violation("C05", "poll-fails-when-calm", format!("after the faults stopped, polls of client {me} fail: {e}")));
                                break;
                            }
                            nap(10 * SEC).await;
                        }
                    }
                }
            }
            state().lock().unwrap().done += 1;
        });
    });
}

pub fn root(_prop: &'static str) -> Fut {
    Box::pin(run())
}

async fn run() {
    *state().lock().unwrap() = State::default();
    let s = sim();
    s.p_switch = [0.3, 0.1, 0.6, 0.9][w(4) as usize];
    coarse_clock();
    s.step_ns = [5_000, 500, 50_000][w(3) as usize];
    let quiet = wp(0.15);
    world().cfg = sock::SockCfg {
        max_delay: [MS, 100 * US, 40 * MS, SEC][w(4) as usize],
        p_split: [0.0, 0.05, 0.3][w(3) as usize],
        p_epoll: [0.0, 0.1, 0.5][w(3) as usize],
        ..Default::default()
    };
    let mut n = Net { srv: vec![], cl: vec![], inboxes: vec![], max_calls: 0 };
    let ns = 1 + w(2) as usize;
    for i in 0..ns {
        let node = exec::add_node("server");
        let at = format!("{}:8001", node_ip(node, false));
        sim().vfs.h_mkdirs(&format!("/srv/{i}"));
        sim().vfs.roots.insert(node, vec![format!("/srv/{i}/inbox"), format!("/srv/{i}/router")]);
        n.srv.push(Srv { node, bind: at.clone(), rec: Server::new(pubkey(20 + i), at), key: 20 + i });
    }
    let nc = 1 + w(3) as usize;
    for c in 0..nc {
        n.cl.push(Cl { node: exec::add_node("client"), key: 1 + c, home: w(ns as u32) as usize });
    }
    let names = ["main", "a", "é/b"];
    for c in 0..nc {
        for name in names.iter().take(1 + w(2) as usize) {
            n.inboxes.push((c, name.to_string()));
        }
    }
    let plans: Vec<Vec<Vec<(u64, Todo)>>> = (0..nc)
        .map(|me| {
            (0..1 + w(3))
                .map(|_| {
                    (0..2 + w(7))
                        .map(|_| {
                            let wait = [0, 0, MS, 200 * MS, 3 * SEC, 100 * SEC][w(6) as usize];
                            let mine: Vec<usize> = (0..n.inboxes.len()).filter(|b| n.inboxes[*b].0 == me).collect();
                            let t = if wp(0.6) {
                                let to = if wp(0.6) { 0 } else { w(n.inboxes.len() as u32) as usize };
                                Todo::Send { to, by_name: [0, 0, 1, 2][w(4) as usize], text: inbox::text() }
                            } else {
                                Todo::Poll { at: pick(&mine), limit: [None, Some(1), Some(2), Some(0), Some(5)][w(5) as usize] }
                            };
                            (wait, t)
                        })
                        .collect()
                })
                .collect()
        })
        .collect();
    n.max_calls = plans.iter().flatten().flatten().count() as u64 + 8;
    let n = Arc::new(n);
    for sv in &n.srv {
        if !quiet {
            draw_faults(sv.node, true);
        }
    }
    if !quiet {
        let mask = w(32) | [0, 1, 2][w(3) as usize];
        let rate = [0.05, 0.2, 0.5][w(3) as usize];
        let on = |b: u32| if mask & b != 0 { rate } else { 0.0 };
        let c = &mut world().cfg;
        c.p_reset = on(1);
        c.p_cut = on(2);
        c.p_refuse = on(4) * 0.5;
        c.p_accept = on(8) * 0.5;
        if wp(0.3) {
            let node = n.srv[w(ns as u32) as usize].node;
            let t = sim().now + w(200) as u64 * [MS, 50 * MS][w(2) as usize];
            sim().nodes[node].auto_restart = true;
            exec::at(t, move || exec::crash(node));
        }
        if wp(0.25) {
            let (a, b) = (n.srv[w(ns as u32) as usize].node, n.cl[w(nc as u32) as usize].node);
            let t = sim().now + w(200) as u64 * 10 * MS;
            let d = [50 * MS, 5 * SEC, 100 * SEC][w(3) as usize];
            exec::at(t, move || sock::part(a, b, d));
        }
    }
    // keep the servers running
    for i in 0..ns {
        let n = n.clone();
        exec::spawn(0, async move {
            let mut ep = u64::MAX;
            loop {
                let x = &sim().nodes[n.srv[i].node];
                if x.alive && x.epoch != ep {
                    ep = x.epoch;
                    serve(&n, i);
                }
                exec::sleep(20 * MS).await;
            }
        });
    }
    for (me, p) in plans.into_iter().enumerate() {
        client(&n, me, p);
    }
    let t0 = sim().now;
    while (state().lock().unwrap().done as usize) < nc && sim().now - t0 < 8000 * SEC {
        exec::sleep(SEC).await;
        // clients that never got through would wait for ever
        if sim().now - t0 > 3000 * SEC {
            break;
        }
    }
    sock::calm();
    for sv in &n.srv {
        calm(sv.node);
        wait_alive(sv.node).await;
    }
    exec::sleep(200 * SEC).await;
    let early = state().lock().unwrap().done;
    state().lock().unwrap().over = true;
    let t0 = sim().now;
    while (state().lock().unwrap().done as usize) < nc * 2 {
        exec::sleep(SEC).await;
        if sim().now - t0 > 9000 * SEC {
            violation("C05", "hang", format!("{early} of {nc} clients had finished when the faults stopped; a call never returns"));
            return;
        }
    }
    let st = state().lock().unwrap();
    let inboxes: Vec<(usize, String, NodeId)> = n.inboxes.iter().map(|(c, name)| (*c, name.clone(), n.srv[n.cl[*c].home].node)).collect();
    inbox::verify(&inboxes, &st.hist, &st.drained);
}
