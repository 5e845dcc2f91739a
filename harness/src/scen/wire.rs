//! Requests put together from the library's types and sent over the simulated network.
use hyperborealib::prelude::*;
use hyperborealib::http::client::HttpClient;

use super::*;
use crate::net::SimHttpClient;

pub fn cert(client: &SecretKey, server: &PublicKey, t: u64) -> ConnectionCertificate {
    let token = ConnectionToken::new(t, server.clone());
    let sign = client.create_signature(token.to_bytes());
    ConnectionCertificate { token, sign }
}

pub enum Ans<R> {
    Got(R),
    /// the server refused or failed, and said so
    Refused(String),
    Lost(String),
}

/// POST a request from a node and decode the answer with the library.
pub async fn post<Q: AsJson + Send + 'static, R: AsJson + Send + 'static>(from: NodeId, addr: &str, path: &str, q: Q) -> Ans<R> {
    let url = format!("http://{addr}{path}");
    let fut = async move {
        let j = q.to_json().map_err(|e| (true, e.to_string()))?;
        let r = SimHttpClient::new(from).post(url, j).await.map_err(|e| (false, e.to_string()))?;
        let Some(b) = r.body else { return Err((false, "no body".to_string())) };
        R::from_json(&b).map_err(|e| (true, e.to_string()))
    };
    let (id, rx) = exec::call(from, fut);
    let t = sim().now + CALM_LIMIT;
    exec::at(t, move || {
        exec::cancel(id);
    });
    match rx.await {
        Some(Ok(r)) => Ans::Got(r),
        Some(Err((true, e))) => Ans::Refused(e),
        Some(Err((false, e))) => Ans::Lost(e),
        None => Ans::Lost("cancelled".into()),
    }
}

pub async fn get<R: AsJson + Send + 'static>(from: NodeId, addr: &str, path: &str) -> Result<R, String> {
    let url = format!("http://{addr}{path}");
    let (_, rx) = exec::call(from, async move {
        let r = SimHttpClient::new(from).get(url).await.map_err(|e| e.to_string())?;
        R::from_json(&r.body.ok_or("no body")?).map_err(|e| e.to_string())
    });
    rx.await.unwrap_or(Err("lost".into()))
}

pub fn status<T>(r: &Response<T>) -> Result<(), String> {
    match r {
        Response::Success { .. } => Ok(()),
        Response::Error { reason, .. } => Err(reason.clone()),
    }
}
