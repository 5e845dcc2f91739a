//! Port forwarders sharing a gateway that can fail (C14).
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use easy_upnp::{Action, Error, PortMappingProtocol, UpnpConfig};
use hyperborealib::port_forward::{PortForwarder, Protocol, UpnpPortForwarder};

use super::register::{self, ROp, Verdict};
use super::*;
use crate::exec::{log, stat, violation};

const FOREIGN: usize = usize::MAX;

#[derive(Default)]
struct Gw {
    /// (port, udp) -> (owner, lease)
    map: BTreeMap<(u16, bool), (usize, u32)>,
    p_add: f64,
    p_del: f64,
    slow: f64,
    /// forwarder node -> its own index
    owner: BTreeMap<NodeId, usize>,
}

static GW: Mutex<Option<Gw>> = Mutex::new(None);

fn gw<T>(f: impl FnOnce(&mut Gw) -> T) -> T {
    f(GW.lock().unwrap().get_or_insert_with(Gw::default))
}

fn gateway(action: Action, c: &UpnpConfig) -> Result<(), Error> {
    let Some(h) = exec::me() else { return Err(Error::NoMatchingGateway) };
    if !exec::park(h) {
        return Err(Error::NoMatchingGateway);
    }
    let nap = {
        let _k = exec::Kernel::enter();
        let p = gw(|g| g.slow);
        exec::chance(S::Fault, p).then(|| (1 + exec::draw(S::Fault, 50) as u64) * 100 * MS)
    };
    if let Some(ns) = nap {
        stat("fault.gateway_slow");
        exec::stall(h, ns);
    }
    let key = (c.port, c.protocol == PortMappingProtocol::UDP);
    let r = {
        let _k = exec::Kernel::enter();
        let me = exec::my_node();
        gw(|g| {
            let own = g.owner.get(&me).copied().unwrap_or(FOREIGN);
            let p = if action == Action::Add { g.p_add } else { g.p_del };
            let fail = p > 0.0 && exec::chance(S::Fault, p);
            log(|| format!("gateway {action:?} {}/{} lease {} by forwarder {own}{}", key.0, if key.1 { "udp" } else { "tcp" }, c.duration, if fail { " FAILS" } else { "" }));
            stat("gateway.calls");
            if fail {
                stat(if action == Action::Add { "fault.gateway_add" } else { "fault.gateway_delete" });
                return match exec::draw(S::Fault, 3) {
                    0 => Err(Error::NoMatchingGateway),
                    1 => Err(Error::IgdSearchError("timed out".into())),
                    _ => Err(Error::CannotGetInterfaceAddress(std::io::Error::from_raw_os_error(libc::EMFILE))),
                };
            }
            match action {
                Action::Add => match g.map.get(&key) {
                    Some((o, _)) if *o != own => {
                        stat("gateway.conflicts");
                        Err(Error::IgdAddPortError("the port is already in use".into()))
                    }
                    _ => {
                        g.map.insert(key, (own, c.duration));
                        Ok(())
                    }
                },
                Action::Delete => {
                    if let Some((o, _)) = g.map.remove(&key) {
                        if o != own {
                            violation("C14", "touches-others", format!("a forwarder removed the mapping of port {} that somebody else made", key.0));
                        }
                    }
                    Ok(())
                }
            }
        })
    };
    if exec::me().is_some() {
        exec::park(h);
    }
    r
}

#[derive(Clone)]
struct Asked {
    id: u32,
    least: u32,
    most: u32,
}

#[derive(Default)]
struct Hist {
    ops: BTreeMap<(usize, u16, bool), Vec<ROp>>,
    leases: Vec<Asked>,
}

fn a_duration(n: u32) -> (Duration, u32, u32) {
    let s = 60 + 10 * n as u64;
    match w(8) {
        0 => (Duration::from_millis(1 + w(999) as u64), 1, 1),
        1 => (Duration::from_secs(u32::MAX as u64 + w(3) as u64), u32::MAX, u32::MAX),
        2 => (Duration::from_secs((1u64 << 32) * (1 + w(3) as u64) + w(100) as u64), u32::MAX, u32::MAX),
        3 => (Duration::from_millis(s * 1000 + 500), s as u32, s as u32 + 1),
        _ => (Duration::from_secs(s), s as u32, s as u32),
    }
}

fn cells(p: Protocol) -> &'static [bool] {
    match p {
        Protocol::TCP => &[false],
        Protocol::UDP => &[true],
        Protocol::Both => &[false, true],
    }
}

pub fn root(_prop: &'static str) -> Fut {
    Box::pin(run())
}

const PORTS: [u16; 3] = [4001, 4002, 0xffff];

async fn run() {
    easy_upnp::set_gateway(gateway);
    sim().p_switch = [0.5, 0.2, 0.9][w(3) as usize];
    coarse_clock();
    sim().step_ns = [5_000, 200_000][w(2) as usize];
    *GW.lock().unwrap() = Some(Gw::default());
    let n = 1 + w(2) as usize;
    let fw: Vec<(NodeId, Arc<UpnpPortForwarder>)> = (0..n)
        .map(|i| {
            let node = exec::add_node("forwarder");
            gw(|g| g.owner.insert(node, i));
            (node, Arc::new(UpnpPortForwarder::new()))
        })
        .collect();
    let h: Sh<Hist> = sh(Hist::default());
    let phases = 1 + w(4);
    let faulty = wp(0.8);
    for phase in 0..=phases {
        let calm = phase == phases;
        // somebody else takes free ports, or gives them up
        if wp(0.5) {
            let (p, u) = (pick(&PORTS), wp(0.5));
            gw(|g| {
                if let std::collections::btree_map::Entry::Vacant(e) = g.map.entry((p, u)) {
                    e.insert((FOREIGN, 7));
                    stat("gateway.foreign");
                    log(|| format!("foreign mapping of {p} udp {u}"));
                }
            });
        } else if wp(0.3) {
            gw(|g| g.map.retain(|_, v| v.0 != FOREIGN));
        }
        gw(|g| {
            let f = faulty && !calm;
            g.p_add = if f { [0.0, 0.3, 1.0][w(3) as usize] } else { 0.0 };
            g.p_del = if f { [0.0, 0.3, 1.0][w(3) as usize] } else { 0.0 };
            g.slow = if f { [0.0, 0.2][w(2) as usize] } else { 0.0 };
        });
        let foreign: Vec<_> = gw(|g| g.map.iter().filter(|(_, v)| v.0 == FOREIGN).map(|(k, v)| (*k, *v)).collect());
        let mut rxs = Vec::new();
        for _ in 0..1 + w(3) {
            let steps = 1 + w(4);
            let (fw, h) = (fw.clone(), h.clone());
            let (_, rx) = exec::call(0, async move {
                for _ in 0..steps {
                    let i = w(fw.len() as u32) as usize;
                    one(i, &fw[i], &h, calm).await;
                    if wp(0.3) {
                        exec::sleep(w(5) as u64 * MS).await;
                    }
                }
            });
            rxs.push(rx);
        }
        join_all(rxs).await;
        if calm && wp(0.7) {
            // give everything back
            for (i, f) in fw.iter().enumerate() {
                call(i, f, &h, Do::Discard, true).await;
            }
        }
        observe(&fw, &h, &foreign);
        if sim().violations.iter().any(|v| v.prop == "C14") {
            return;
        }
    }
    let g = h.lock().unwrap();
    for ((f, port, udp), ops) in &g.ops {
        let m = register::Model { time: &|_| 0, ty: &|_| 0, newest: false };
        match register::check(&m, ops.clone(), 200_000) {
            Verdict::Ok => stat("lin.ok"),
            Verdict::Unknown => stat("lin.undecided"),
            Verdict::Bad => violation("C14", "unaccounted", format!("forwarder {f}: calls on port {port} {} do not explain the gateway's table", if *udp { "udp" } else { "tcp" })),
        }
    }
}

fn observe(fw: &[(NodeId, Arc<UpnpPortForwarder>)], h: &Sh<Hist>, foreign: &[((u16, bool), (usize, u32))]) {
    let map = gw(|g| g.map.clone());
    for (k, v) in foreign {
        if map.get(k) != Some(v) {
            violation("C14", "touches-others", format!("the mapping of port {} made by somebody else is gone", k.0));
        }
    }
    let mut g = h.lock().unwrap();
    log(|| format!("observed {map:?}"));
    for i in 0..fw.len() {
        for p in PORTS {
            for u in [false, true] {
                let got = match map.get(&(p, u)) {
                    Some((o, lease)) if *o == i => match g.leases.iter().find(|a| a.least <= *lease && *lease <= a.most) {
                        Some(a) => Some(a.id),
                        None => {
                            violation("C14", "wrong-duration", format!("port {p} is mapped for {lease} s, which no call asked for"));
                            continue;
                        }
                    },
                    _ => None,
                };
                let t = (stamp(), stamp());
                g.ops.entry((i, p, u)).or_default().push(ROp { inv: t.0, ret: t.1, kind: register::Kind::Read { got, filter: None } });
            }
        }
    }
    for ((p, _), (o, _)) in &map {
        if *o != FOREIGN && !PORTS.contains(p) {
            violation("C14", "wrong-port", format!("port {p} is mapped although nobody asked for it"));
        }
    }
}

enum Do {
    Open(u16, Protocol, Duration, u32),
    Close(u16, Protocol),
    Discard,
}

async fn one(i: usize, f: &(NodeId, Arc<UpnpPortForwarder>), h: &Sh<Hist>, calm: bool) {
    let port = pick(&PORTS);
    let proto = pick(&[Protocol::TCP, Protocol::UDP, Protocol::Both]);
    let d = match w(8) {
        0..=3 => {
            let mut g = h.lock().unwrap();
            let n = g.leases.len() as u32;
            let (d, least, most) = a_duration(n);
            let id = g.leases.iter().find(|a| (a.least, a.most) == (least, most)).map(|a| a.id).unwrap_or(n);
            g.leases.push(Asked { id, least, most });
            Do::Open(port, proto, d, id)
        }
        4..=6 => Do::Close(port, proto),
        _ => Do::Discard,
    };
    call(i, f, h, d, calm).await
}

async fn call(i: usize, (node, fw): &(NodeId, Arc<UpnpPortForwarder>), h: &Sh<Hist>, d: Do, calm: bool) {
    use register::Kind::*;
    let (text, touched, value) = match &d {
        Do::Open(p, pr, d, id) => (format!("open {p} {pr:?} {d:?}"), cells(*pr).iter().map(|u| (*p, *u)).collect::<Vec<_>>(), Some(*id)),
        Do::Close(p, pr) => (format!("close {p} {pr:?}"), cells(*pr).iter().map(|u| (*p, *u)).collect(), None),
        Do::Discard => ("discard".into(), PORTS.iter().flat_map(|p| [(*p, false), (*p, true)]).collect(), None),
    };
    let conflict = gw(|g| touched.iter().any(|c| g.map.get(c).map(|v| v.0 != i).unwrap_or(false)));
    stat(match &d {
        Do::Open(..) => "op.open",
        Do::Close(..) => "op.close",
        Do::Discard => "op.discard",
    });
    log(|| format!("forwarder {i}: {text}"));
    let inv = stamp();
    let f = fw.clone();
    let opening = matches!(d, Do::Open(..));
    let r = op_within(*node, CALM_LIMIT, async move {
        match d {
            Do::Open(p, pr, d, _) => f.open(p, pr, d).await,
            Do::Close(p, pr) => f.close(p, pr).await,
            Do::Discard => f.discard().await,
        }
        .map_err(|e| e.to_string())
    })
    .await;
    let ret = stamp();
    let done = match r {
        Some(Res::Ok(true)) => true,
        None => {
            violation("C14", "does-not-finish", format!("{text} does not come back"));
            false
        }
        Some(Res::Panicked) => {
            violation("C14", "panics", format!("{text} panicked"));
            false
        }
        Some(Res::Ok(false)) => false,
        Some(Res::Err(e)) => {
            log(|| format!("forwarder {i}: {text} -> {e}"));
            false
        }
        Some(Res::Lost(_)) => false,
    };
    log(|| format!("forwarder {i}: {text} -> {done}"));
    if calm && !done && !(opening && (conflict || gw(|g| g.owner.len()) > 1)) {
        violation("C14", "fails-in-calm", format!("{text} fails although the gateway works"));
    }
    let mut g = h.lock().unwrap();
    for (p, u) in touched {
        let kind = if done { Write(value) } else { MaybeWrite(value) };
        g.ops.entry((i, p, u)).or_default().push(ROp { inv, ret, kind });
    }
}
