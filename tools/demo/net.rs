//! Servers and clients in one process: the library's HTTP traits over a table of handlers.
use std::collections::HashMap;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

use hyperborealib::http::client::{HttpClient, Response};
use hyperborealib::http::server::HttpServer;
use hyperborealib::rest_api::AsJson;
use serde_json::Value as Json;

type BoxErr = Box<dyn std::error::Error + Send + Sync>;
pub type Handler = Arc<dyn Fn(String) -> Pin<Box<dyn Future<Output = Result<Json, String>> + Send>> + Send + Sync>;

#[derive(Clone, Default)]
pub struct Net {
    /// (address, path) -> handler
    pub routes: Arc<Mutex<HashMap<(String, String), Handler>>>,
    pub asked: Arc<Mutex<Vec<(String, String)>>>,
}

impl Net {
    pub fn fake(&self, addr: &str, path: &str, f: impl Fn(Json) -> Result<Json, String> + Send + Sync + 'static) {
        let f = Arc::new(f);
        let h: Handler = Arc::new(move |b| {
            let f = f.clone();
            Box::pin(async move { f(serde_json::from_str(&b).unwrap_or(Json::Null)) })
        });
        self.routes.lock().unwrap().insert((addr.into(), path.into()), h);
    }

    pub fn server(&self, addr: &str) -> DemoServer {
        DemoServer { net: self.clone(), addr: addr.into() }
    }

    async fn go(&self, url: String, body: String) -> Result<Response, BoxErr> {
        let rest = url.strip_prefix("http://").ok_or("relative url")?.to_string();
        let i = rest.find('/').ok_or("no path")?;
        let key = (rest[..i].to_string(), rest[i..].to_string());
        self.asked.lock().unwrap().push(key.clone());
        let h = self.routes.lock().unwrap().get(&key).cloned().ok_or("connection refused")?;
        let j = h(body).await?;
        Ok(Response { status: 200, body: Some(j) })
    }
}

#[async_trait::async_trait]
impl HttpClient for Net {
    async fn get(&self, url: impl AsRef<str> + Send) -> Result<Response, BoxErr> {
        self.go(url.as_ref().to_string(), String::new()).await
    }
    async fn post(&self, url: impl AsRef<str> + Send, body: Json) -> Result<Response, BoxErr> {
        self.go(url.as_ref().to_string(), body.to_string()).await
    }
}

pub struct DemoServer {
    net: Net,
    addr: String,
}

#[async_trait::async_trait]
impl HttpServer for DemoServer {
    async fn get<T: AsJson, F: Future<Output = T> + Send>(
        &mut self,
        path: impl AsRef<str> + Send,
        callback: impl FnOnce(SocketAddr) -> F + Clone + Send + Sync + 'static,
    ) {
        let h: Handler = Arc::new(move |_| {
            let cb = callback.clone();
            Box::pin(async move { cb(SocketAddr::from(([127, 0, 0, 1], 1))).await.to_json().map_err(|e| e.to_string()) })
        });
        self.net.routes.lock().unwrap().insert((self.addr.clone(), path.as_ref().into()), h);
    }

    async fn post<T: AsJson, F: AsJson, R: Future<Output = F> + Send>(
        &mut self,
        path: impl AsRef<str> + Send,
        callback: impl FnOnce(SocketAddr, T) -> R + Clone + Send + Sync + 'static,
    ) {
        let h: Handler = Arc::new(move |b| {
            let cb = callback.clone();
            Box::pin(async move {
                let j: Json = serde_json::from_str(&b).map_err(|e| e.to_string())?;
                let q = T::from_json(&j).map_err(|e| e.to_string())?;
                cb(SocketAddr::from(([127, 0, 0, 1], 1)), q).await.to_json().map_err(|e| e.to_string())
            })
        });
        self.net.routes.lock().unwrap().insert((self.addr.clone(), path.as_ref().into()), h);
    }

    async fn serve(self, _: impl std::net::ToSocketAddrs + Send) -> Result<(), Box<dyn std::error::Error>> {
        Ok(())
    }
}
