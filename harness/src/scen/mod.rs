//! Scenarios: one workload family per group of properties.
pub mod inbox;
pub mod fifo;
pub mod register;
pub mod router;
pub mod server;
pub mod wire;
pub mod refer;
pub mod network;
pub mod mitm;
pub mod adversary;
pub mod gateway;
pub mod roam;
pub mod sealed;
pub mod hostile;
pub mod http;
pub mod stack;

use std::sync::{Arc, Mutex, OnceLock};

use hyperborealib::prelude::*;

use crate::choices::S;
use crate::exec::{self, sim, Fut, NodeId, MS, SEC, US};

pub struct Scenario {
    pub name: &'static str,
    pub prop: &'static str,
    pub root: fn(&'static str) -> Fut,
    pub step_cap: u64,
    /// violation class if the run does not end
    pub stuck: &'static str,
    pub quick_runs: u64,
    pub thorough_runs: u64,
}

/// Fixed keys (key generation is not what is simulated here).
pub fn key(i: usize) -> SecretKey {
    static K: OnceLock<Vec<SecretKey>> = OnceLock::new();
    K.get_or_init(|| {
        (0..420u16)
            .map(|i| {
                let mut b = [(i as u8).wrapping_mul(37).wrapping_add(11); 32];
                b[0] = 1 + (i >> 8) as u8;
                b[31] = (i as u8).wrapping_add(1);
                SecretKey::deserialize(b).unwrap()
            })
            .collect()
    })[i]
        .clone()
}

pub fn pubkey(i: usize) -> PublicKey {
    static K: OnceLock<Vec<PublicKey>> = OnceLock::new();
    K.get_or_init(|| (0..420).map(|i| key(i).public_key()).collect())[i].clone()
}

pub fn w(n: u32) -> u32 {
    exec::draw(S::Work, n)
}

pub fn wp(p: f64) -> bool {
    exec::chance(S::Work, p)
}

pub fn pick<T: Clone>(v: &[T]) -> T {
    v[w(v.len() as u32) as usize].clone()
}

pub type Sh<T> = Arc<Mutex<T>>;
pub fn sh<T>(v: T) -> Sh<T> {
    Arc::new(Mutex::new(v))
}

/// Global order of events in a run.
pub fn stamp() -> u64 {
    let s = sim();
    s.stamp += 1;
    s.stamp
}

/// Some systems' clocks tick every few milliseconds only.
pub fn coarse_clock() {
    let g = pick(&[1, 1, 1, 4 * MS, 20 * MS, SEC]);
    if g > 1 {
        exec::stat("fault.coarse_clock");
    }
    sim().grain = g;
}

/// Draw the fault mix of a run.
pub fn draw_faults(node: NodeId, allow_crash: bool) {
    let s = sim();
    s.p_switch = [0.3, 0.1, 0.6, 0.9][w(4) as usize];
    coarse_clock();
    s.step_ns = [5_000, 500, 200_000][w(3) as usize];
    let p_io = [0.0, 0.0, 0.01, 0.04, 0.15][w(5) as usize];
    let p_crash = if allow_crash { [0.0, 0.0, 0.003, 0.01, 0.03][w(5) as usize] } else { 0.0 };
    let mask = 1 + w(63);
    let mut k = [false; 10];
    for i in 0..6 {
        k[crate::os::K_EIO + i] = mask & (1 << i) != 0;
    }
    s.fcfg = exec::FaultCfg { p_crash, p_io, kinds: k };
    s.nodes[node].faults = p_io > 0.0 || p_crash > 0.0;
    s.nodes[node].crashable = p_crash > 0.0;
    s.nodes[node].auto_restart = true;
}

/// Now and then, jumps of a node's wall clock.
pub fn clock_jumps(node: NodeId, p: f64) {
    if !wp(p) {
        return;
    }
    for _ in 0..1 + w(3) {
        let t = sim().now + w(1000) as u64 * 100 * US;
        let j = [1i64, -1, 3600, -3600, 40_000_000, -40_000_000][w(6) as usize] * SEC as i64;
        exec::at(t, move || {
            exec::stat("fault.clock_jump");
            exec::set_skew(node, sim().nodes[node].skew + j);
        });
    }
}

pub fn calm(node: NodeId) {
    let s = sim();
    s.nodes[node].faults = false;
    s.nodes[node].crashable = false;
    s.nodes[node].disk_full = 0;
    s.vfs.poisoned.clear();
}

/// A component living on a node, rebuilt after each restart.
pub struct Unit<T: ?Sized> {
    pub node: NodeId,
    slot: Sh<Option<(u64, Arc<T>)>>,
    building: Sh<bool>,
    build: Arc<dyn Fn() -> std::pin::Pin<Box<dyn std::future::Future<Output = Result<Arc<T>, String>> + Send>> + Send + Sync>,
}

impl<T: ?Sized> Clone for Unit<T> {
    fn clone(&self) -> Self {
        Unit { node: self.node, slot: self.slot.clone(), building: self.building.clone(), build: self.build.clone() }
    }
}

impl<T: Send + Sync + ?Sized + 'static> Unit<T> {
    pub fn new<F, R>(node: NodeId, build: F) -> Self
    where
        F: Fn() -> R + Send + Sync + 'static,
        R: std::future::Future<Output = Result<Arc<T>, String>> + Send + 'static,
    {
        Unit { node, slot: sh(None), building: sh(false), build: Arc::new(move || Box::pin(build())) }
    }

    fn current(&self) -> Option<Arc<T>> {
        let n = &sim().nodes[self.node];
        if !n.alive {
            return None;
        }
        match &*self.slot.lock().unwrap() {
            Some((e, t)) if *e == n.epoch => Some(t.clone()),
            _ => None,
        }
    }

    /// The running component, waiting for restarts. None after `patience` of simulated time.
    pub async fn get(&self, patience: u64) -> Option<Arc<T>> {
        let t0 = sim().now;
        let mut nap = MS;
        loop {
            if let Some(t) = self.current() {
                return Some(t);
            }
            let alive = sim().nodes[self.node].alive;
            if alive && !*self.building.lock().unwrap() {
                *self.building.lock().unwrap() = true;
                let epoch = sim().nodes[self.node].epoch;
                let (_, rx) = exec::call(self.node, (self.build)());
                let r = rx.await;
                *self.building.lock().unwrap() = false;
                if let Some(Ok(t)) = r {
                    *self.slot.lock().unwrap() = Some((epoch, t));
                    continue;
                }
            }
            if sim().now - t0 > patience {
                return None;
            }
            exec::sleep(nap).await;
            nap = (nap * 2).min(SEC);
        }
    }
}

pub enum Res<T> {
    Ok(T),
    Err(String),
    /// no answer: crash, cancellation or lost reply
    Lost(&'static str),
    Panicked,
}

/// Now and then the very first start meets faults as well.
pub async fn harsh_start<T: Send + Sync + ?Sized + 'static>(unit: &Unit<T>) {
    if !wp(0.15) {
        return;
    }
    exec::stat("variant.harsh_start");
    let node = unit.node;
    let was = sim().fcfg.clone();
    draw_faults(node, true);
    let s = sim();
    s.fcfg.p_io = [0.1, 0.3][w(2) as usize];
    s.fcfg.p_crash = [0.0, 0.1][w(2) as usize];
    s.nodes[node].faults = true;
    s.nodes[node].crashable = s.fcfg.p_crash > 0.0;
    unit.get(5 * MS).await;
    calm(node);
    wait_alive(node).await;
    sim().fcfg = was;
}

/// Run an operation on a node; optionally cancel it at a drawn instant.
pub async fn op<T: Send + 'static>(node: NodeId, cancel_at: Option<u64>, fut: impl std::future::Future<Output = Result<T, String>> + Send + 'static) -> Res<T> {
    let epoch = sim().nodes[node].epoch;
    let (id, rx) = exec::call(node, fut);
    let cancelled = sh(false);
    if let Some(d) = cancel_at {
        let c = cancelled.clone();
        let t = sim().now + d;
        exec::at(t, move || {
            if exec::cancel(id) {
                exec::stat("fault.cancelled_op");
                exec::log(|| format!("CANCEL task {id}"));
                *c.lock().unwrap() = true;
            }
        });
    }
    match rx.await {
        Some(Ok(v)) => Res::Ok(v),
        Some(Err(e)) => Res::Err(e),
        None if *cancelled.lock().unwrap() => Res::Lost("cancelled"),
        None if sim().nodes[node].epoch != epoch || !sim().nodes[node].alive => Res::Lost("crashed"),
        None => Res::Panicked,
    }
}

/// As `op`, giving up after `limit` of simulated time (None).
pub async fn op_within<T: Send + 'static>(node: NodeId, limit: u64, fut: impl std::future::Future<Output = Result<T, String>> + Send + 'static) -> Option<Res<T>> {
    let (id, rx) = exec::call(node, fut);
    let late = sh(false);
    let l = late.clone();
    let t = sim().now + limit;
    exec::at(t, move || {
        if exec::cancel(id) {
            *l.lock().unwrap() = true;
        }
    });
    match rx.await {
        Some(Ok(v)) => Some(Res::Ok(v)),
        Some(Err(e)) => Some(Res::Err(e)),
        None if *late.lock().unwrap() => None,
        None => Some(Res::Panicked),
    }
}

pub async fn wait_alive(node: NodeId) {
    while !sim().nodes[node].alive {
        exec::sleep(100 * MS).await;
    }
}

pub const CALM_LIMIT: u64 = 2000 * SEC;

pub async fn join_all<T: Send + 'static>(v: Vec<exec::Rx<T>>) -> Vec<Option<T>> {
    let mut out = Vec::new();
    for r in v {
        out.push(r.await);
    }
    out
}

pub fn short(s: &str) -> String {
    let mut c: String = s.chars().take(40).flat_map(|c| c.escape_default()).collect();
    if s.chars().count() > 40 {
        c.push_str(&format!("..({})", s.len()));
    }
    c
}

pub fn scenarios() -> &'static [Scenario] {
    static S: OnceLock<Vec<Scenario>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = Vec::new();
        let mut add = |name, prop, root, step_cap, stuck, q, t| v.push(Scenario { name, prop, root, step_cap, stuck, quick_runs: q, thorough_runs: t });
        for p in ["C01", "C02", "C03", "C04", "C05"] {
            add("inbox", p, inbox::root as fn(&'static str) -> Fut, 400_000, "does-not-finish", 24_000, 400_000);
        }
        for p in ["C06", "C07", "C08"] {
            add("router", p, router::root as fn(&'static str) -> Fut, 400_000, "does-not-finish", 20_000, 400_000);
        }
        for p in ["C09", "C17"] {
            add("adversary", p, adversary::root as fn(&'static str) -> Fut, 600_000, "does-not-finish", 12_000, 200_000);
        }
        add("mitm", "C10", mitm::root as fn(&'static str) -> Fut, 600_000, "does-not-finish", 12_000, 300_000);
        add("lookup", "C11", network::lookup_root as fn(&'static str) -> Fut, 600_000, "does-not-finish", 36_000, 600_000);
        add("traverse", "C12", network::traverse_root as fn(&'static str) -> Fut, 600_000, "does-not-finish", 60_000, 2_000_000);
        add("gateway", "C14", gateway::root as fn(&'static str) -> Fut, 400_000, "does-not-finish", 300_000, 8_000_000);
        add("roam", "C18", roam::root as fn(&'static str) -> Fut, 600_000, "does-not-finish", 12_000, 300_000);
        add("sealed", "C13", sealed::root as fn(&'static str) -> Fut, 600_000, "does-not-finish", 12_000, 300_000);
        add("hostile", "C15", hostile::root as fn(&'static str) -> Fut, 600_000, "does-not-finish", 20_000, 300_000);
        add("http", "C16", http::root as fn(&'static str) -> Fut, 2_000_000, "does-not-finish", 5_000, 200_000);
        for p in ["C01", "C02", "C03", "C05"] {
            add("stack", p, stack::root as fn(&'static str) -> Fut, 2_000_000, "does-not-finish", 1_500, 25_000);
        }
        add("newest", "C08", router::newest_root as fn(&'static str) -> Fut, 400_000, "does-not-finish", 12_000, 200_000);
        v
    })
}
