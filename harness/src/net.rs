//! Simulated HTTP: the repository's HttpClient and HttpServer traits over the scheduler.
//! JSON travels as text; delays, losses, resets and man-in-the-middle changes are drawn from the seed.

use std::collections::BTreeMap;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::Arc;

use hyperborealib::http::client::{HttpClient, Response};
use hyperborealib::http::server::HttpServer;
use hyperborealib::rest_api::AsJson;
use serde_json::Value as Json;

use crate::choices::S;
use crate::exec::{self, sim, Kernel, NodeId, MS, SEC, US};

pub type Reply = (u16, String);
pub type BoxFut<T> = Pin<Box<dyn Future<Output = T> + Send>>;
pub type Handler = Arc<dyn Fn(SocketAddr, String) -> BoxFut<Reply> + Send + Sync>;
pub type Routes = BTreeMap<(&'static str, String), Handler>;

#[derive(Clone)]
pub enum Site {
    Real(Arc<Routes>),
    /// answers without running code under test
    Fake(Arc<dyn Fn(&Call) -> Fake + Send + Sync>),
}

pub enum Fake {
    Reply(u16, String),
    Refuse,
    Hang,
}

#[derive(Clone)]
pub struct Host {
    pub node: NodeId,
    pub site: Option<Site>,
    pub epoch: u64,
    /// extra latency
    pub slow: u64,
    pub cut: bool,
}

#[derive(Clone, Debug)]
pub struct Call {
    pub seq: u64,
    pub from: NodeId,
    pub host: String,
    pub method: &'static str,
    pub path: String,
    pub body: String,
}

#[derive(Default, Clone)]
pub struct NetCfg {
    pub max_delay: u64,
    pub p_refuse: f64,
    pub p_lost_reply: f64,
    pub p_cut: f64,
    /// the transport delivers the request a second time (a retrying proxy); off unless a scenario wants it
    pub p_dup: f64,
}

type ReqHook = Arc<dyn Fn(&mut Call) -> Option<Reply> + Send + Sync>;
type RespHook = Arc<dyn Fn(&Call, &mut Reply) + Send + Sync>;

#[derive(Default)]
pub struct Net {
    pub hosts: BTreeMap<String, Host>,
    pub cfg: NetCfg,
    pub seq: u64,
    pub on_request: Option<ReqHook>,
    pub on_response: Option<RespHook>,
    /// every call made, in order
    pub calls: Vec<Call>,
}

pub fn net() -> &'static mut Net {
    &mut sim().net
}

pub fn add_host(addr: &str, node: NodeId, site: Option<Site>) {
    let epoch = sim().nodes[node].epoch;
    net().hosts.insert(addr.to_string(), Host { node, site, epoch, slow: 0, cut: false });
}

type BoxErr = Box<dyn std::error::Error + Send + Sync>;

#[derive(Clone, Debug)]
pub struct SimHttpClient {
    pub node: NodeId,
    pub addr: SocketAddr,
}

impl SimHttpClient {
    pub fn new(node: NodeId) -> Self {
        SimHttpClient { node, addr: SocketAddr::from(([10, 0, (node >> 8) as u8, node as u8], 40000)) }
    }

    async fn go(&self, method: &'static str, url: String, body: String) -> Result<Response, BoxErr> {
        let (call, delay, fate, dup) = {
            let _k = Kernel::enter();
            let rest = match url.split_once("://") {
                Some(("http", r)) | Some(("https", r)) => r,
                _ => return Err("builder error: relative URL without a base".into()),
            };
            let (host, path) = match rest.find('/') {
                Some(i) => (rest[..i].to_string(), rest[i..].to_string()),
                None => (rest.to_string(), "/".to_string()),
            };
            let n = net();
            n.seq += 1;
            let call = Call { seq: n.seq, from: self.node, host, method, path, body };
            n.calls.push(call.clone());
            exec::stat("net.requests");
            let c = n.cfg.clone();
            let s = sim();
            let fate = s.ch.weighted(S::Net, &[1.0, c.p_refuse, c.p_lost_reply, c.p_cut]);
            let delay = draw_delay(c.max_delay);
            let dup = c.p_dup > 0.0 && s.ch.chance(S::Net, c.p_dup);
            exec::log(|| format!("net #{} n{} -> {} {} {} fate {fate}", call.seq, call.from, call.host, call.method, call.path));
            (call, delay, fate, dup)
        };
        let mut call = call;
        exec::sleep(delay).await;
        if fate == 1 {
            exec::stat("fault.net_refused");
            return Err("error sending request: connection refused".into());
        }
        let mut early = None;
        let hook = net().on_request.clone();
        if let Some(h) = hook {
            let _k = Kernel::enter();
            early = h(&mut call);
        }
        let reply = match early {
            Some(r) => Ok(r),
            None => {
                if dup {
                    exec::stat("fault.net_dup");
                    let (c2, a) = (call.clone(), self.addr);
                    let d = draw_delay(net().cfg.max_delay * 4 + MS);
                    exec::spawn(0, async move {
                        exec::sleep(d).await;
                        let _ = deliver(&c2, a, 0).await;
                    });
                }
                deliver(&call, self.addr, if fate == 3 { 3 } else { 0 }).await
            }
        };
        let mut reply = match reply {
            Ok(r) => r,
            Err(e) => {
                exec::log(|| format!("net #{} failed: {e}", call.seq));
                return Err(e.into());
            }
        };
        if fate == 2 {
            exec::stat("fault.net_lost_reply");
            exec::sleep(SEC).await;
            exec::log(|| format!("net #{} reply lost", call.seq));
            return Err("error sending request: connection closed before message completed".into());
        }
        let hook = net().on_response.clone();
        if let Some(h) = hook {
            let _k = Kernel::enter();
            h(&call, &mut reply);
        }
        let d = draw_delay(net().cfg.max_delay);
        exec::sleep(d).await;
        exec::log(|| format!("net #{} reply {} {} bytes", call.seq, reply.0, reply.1.len()));
        let body: Json = serde_json::from_str(&reply.1).map_err(|e| format!("error decoding response body: {e}"))?;
        Ok(Response { status: reply.0, body: Some(body) })
    }
}

pub fn draw_delay(max: u64) -> u64 {
    let _k = Kernel::enter();
    // a few discrete steps shrink well
    let v = sim().ch.draw(S::Net, 64) as u64;
    20 * US + max * v / 64
}

/// Run the handler on the addressed host.
pub async fn deliver(call: &Call, from: SocketAddr, fate: u32) -> Result<Reply, String> {
    let host = net().hosts.get(&call.host).cloned();
    let Some(host) = host else {
        return Err("error sending request: dns error".into());
    };
    if host.slow > 0 {
        exec::stat("fault.net_slow_host");
        exec::sleep(host.slow).await;
    }
    let alive = {
        let n = &sim().nodes[host.node];
        n.alive && n.epoch == host.epoch && !host.cut
    };
    if !alive {
        exec::stat("fault.net_dead_host");
        return Err("error sending request: connection refused".into());
    }
    let site = match &host.site {
        None => return Err("error sending request: connection refused".into()),
        Some(Site::Fake(f)) => {
            exec::stat("fault.net_fake_host");
            let r = {
                let _k = Kernel::enter();
                f(call)
            };
            return match r {
                Fake::Reply(a, b) => Ok((a, b)),
                Fake::Refuse => Err("error sending request: connection refused".into()),
                Fake::Hang => {
                    exec::sleep(120 * SEC).await;
                    Err("error sending request: timed out".into())
                }
            };
        }
        Some(Site::Real(r)) => r.clone(),
    };
    let Some(h) = site.get(&(call.method, call.path.clone())).cloned() else {
        let other = site.keys().any(|k| k.1 == call.path);
        return Ok(if other { (405, String::new()) } else { (404, String::new()) });
    };
    let body = call.body.clone();
    let (id, rx) = exec::call(host.node, async move { h(from, body).await });
    if fate == 3 {
        // connection cut while the handler runs: the server drops it
        let d = {
            let _k = Kernel::enter();
            sim().ch.draw(S::Net, 200) as u64 * 5 * US
        };
        let t = sim().now + d;
        let seq = call.seq;
        exec::at(t, move || {
            if exec::cancel(id) {
                exec::stat("fault.net_cut");
                exec::log(|| format!("net #{seq} cut"));
            }
        });
    }
    match rx.await {
        Some(r) => Ok(r),
        None => Err("error sending request: connection reset by peer".into()),
    }
}

#[async_trait::async_trait]
impl HttpClient for SimHttpClient {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<Response, BoxErr> {
        self.go("GET", url.as_ref().to_string(), String::new()).await
    }

    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<Response, BoxErr> {
        self.go("POST", url.as_ref().to_string(), body.to_string()).await
    }
}

#[derive(Default, Clone)]
pub struct SimHttpServer {
    pub routes: Routes,
}

#[async_trait::async_trait]
impl HttpServer for SimHttpServer {
    async fn get<T: AsJson, F: Future<Output = T> + Send>(
        &mut self,
        path: impl AsRef<str> + Send,
        callback: impl FnOnce(SocketAddr) -> F + Clone + Send + Sync + 'static,
    ) {
        let h: Handler = Arc::new(move |addr, _| {
            let cb = callback.clone();
            Box::pin(async move {
                let r = cb(addr).await;
                match r.to_json() {
                    Ok(j) => (200, j.to_string()),
                    Err(e) => (500, format!("Failed to serialize response as JSON: {e}")),
                }
            })
        });
        self.routes.insert(("GET", path.as_ref().to_string()), h);
    }

    async fn post<T: AsJson, F: AsJson, R: Future<Output = F> + Send>(
        &mut self,
        path: impl AsRef<str> + Send,
        callback: impl FnOnce(SocketAddr, T) -> R + Clone + Send + Sync + 'static,
    ) {
        let h: Handler = Arc::new(move |addr, body| {
            let cb = callback.clone();
            Box::pin(async move {
                let json = match serde_json::from_str::<Json>(&body) {
                    Ok(j) => j,
                    Err(e) => return (500, format!("Failed to deserialize request JSON: {e}")),
                };
                let req = match T::from_json(&json) {
                    Ok(r) => r,
                    Err(e) => return (500, format!("Failed to deserialize API request from JSON object: {e}")),
                };
                drop(json);
                let r = cb(addr, req).await;
                match r.to_json() {
                    Ok(j) => (200, j.to_string()),
                    Err(e) => (500, format!("Failed to serialize response as JSON: {e}")),
                }
            })
        });
        self.routes.insert(("POST", path.as_ref().to_string()), h);
    }

    async fn serve(self, _address: impl std::net::ToSocketAddrs + Send) -> Result<(), Box<dyn std::error::Error>> {
        Ok(())
    }
}
