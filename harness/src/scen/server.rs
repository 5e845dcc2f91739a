//! Whole servers and clients: the repository's middleware over the simulated network.
use std::sync::Arc;

use hyperborealib::drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox;
use hyperborealib::drivers::server::router::global_table::GlobalTableRouter;
use hyperborealib::drivers::server::traversal::bfs_recursion::BfsRecursionTraversal;
use hyperborealib::prelude::*;

use super::*;
use crate::net::{self, SimHttpClient, SimHttpServer, Site};

pub type Driver = ServerDriver<GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;

#[derive(Clone)]
pub struct ServerCfg {
    pub node: NodeId,
    pub dir: String,
    pub addr: String,
    pub key: SecretKey,
}

pub struct Running {
    pub driver: Arc<Driver>,
    pub routes: Arc<net::Routes>,
}

/// Start (or restart) a server and register it at its address.
pub async fn start(cfg: ServerCfg) -> Result<Arc<Running>, String> {
    let router = GlobalTableRouter::new(format!("{}/router", cfg.dir)).await.map_err(|e| e.to_string())?;
    let inbox = StoredQueueMessagesInbox::new(format!("{}/inbox", cfg.dir)).await.map_err(|e| e.to_string())?;
    let driver = ServerDriver::new(router, BfsRecursionTraversal, inbox, ServerParams { secret_key: cfg.key.clone(), address: cfg.addr.clone() });
    let server = ServerMiddleware::new(SimHttpClient::new(cfg.node), SimHttpServer::default(), driver).await;
    let routes = Arc::new(server.http_server().routes.clone());
    let driver = server.driver();
    net::add_host(&cfg.addr, cfg.node, Some(Site::Real(routes.clone())));
    Ok(Arc::new(Running { driver, routes }))
}

pub fn server_unit(cfg: ServerCfg) -> Unit<Running> {
    sim().vfs.h_mkdirs(&cfg.dir);
    Unit::new(cfg.node, move || start(cfg.clone()))
}

pub async fn connect(node: NodeId, secret: SecretKey, info: ClientInfo, addr: &str) -> Result<ConnectedClientMiddleware<SimHttpClient>, String> {
    let addr = addr.to_string();
    let c = ClientMiddleware::new(SimHttpClient::new(node), ClientDriver::new(info, secret));
    match op_within(node, CALM_LIMIT, async move { c.connect(addr).await.map_err(|e| e.to_string()) }).await {
        Some(Res::Ok(c)) => Ok(c),
        Some(Res::Err(e)) => Err(e),
        _ => Err("no answer".into()),
    }
}
