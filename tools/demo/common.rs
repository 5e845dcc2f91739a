#![allow(dead_code)]
use hyperborealib::prelude::*;
use hyperborealib::drivers::server::messages_inbox::stored_queue::StoredQueueMessagesInbox;
use hyperborealib::drivers::server::router::global_table::GlobalTableRouter;
use hyperborealib::drivers::server::traversal::bfs_recursion::BfsRecursionTraversal;
use std::sync::Arc;

pub fn dir() -> String {
    std::env::args().nth(1).expect("scratch folder")
}

pub fn sender(key: &SecretKey) -> Sender {
    let server = SecretKey::random().public_key();
    let cert = ConnectionCertificate::new(key, server.clone());
    Sender::new(Client::new(key.public_key(), cert, ClientInfo::thin()), Server::new(server, "nowhere:1"))
}

pub fn text(s: &str) -> Message {
    Message::new(s, "sign", MessageEncoding::default())
}

pub fn cert(client: &SecretKey, server: &PublicKey, t: u64) -> ConnectionCertificate {
    let token = ConnectionToken::new(t, server.clone());
    let sign = client.create_signature(token.to_bytes());
    ConnectionCertificate { token, sign }
}

pub type Driver = ServerDriver<GlobalTableRouter, BfsRecursionTraversal, StoredQueueMessagesInbox>;

pub async fn start(net: &crate::net::Net, name: &str, key: &SecretKey) -> Arc<Driver> {
    let d = format!("{}/{}", dir(), name.replace(':', "_"));
    std::fs::create_dir_all(&d).unwrap();
    let router = GlobalTableRouter::new(format!("{d}/router")).await.unwrap();
    let inbox = StoredQueueMessagesInbox::new(format!("{d}/inbox")).await.unwrap();
    let driver = ServerDriver::new(router, BfsRecursionTraversal, inbox, ServerParams { secret_key: key.clone(), address: name.into() });
    ServerMiddleware::new(net.clone(), net.server(name), driver).await.driver()
}

pub fn client(net: &crate::net::Net, key: &SecretKey) -> ClientMiddleware<crate::net::Net> {
    ClientMiddleware::new(net.clone(), ClientDriver::new(ClientInfo::thin(), key.clone()))
}

pub fn fail(what: &str) -> ! {
    println!("BROKEN: {what}");
    std::process::exit(1)
}
