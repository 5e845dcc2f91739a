//! C16: the bundled HTTP client (reqwest) and server (axum), real code down to the system calls,
//! over simulated sockets. Honest clients, raw peers sending anything, resets, silence, crashes.

use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;

use hyperborealib::http::{AxumHttpServer, HttpClient, HttpServer, ReqwestHttpClient};
use hyperborealib::prelude::*;
use serde_json::{json, Value as Json};
use tokio::io::{AsyncReadExt, AsyncWriteExt};

use crate::choices::Rng;
use crate::exec::{self, sim, stat, violation, Fut, Kernel, NodeId, MS, SEC, US};
use crate::sock::{self, node_ip, world};

use super::*;

/// Any JSON document.
#[derive(Debug, Clone, PartialEq)]
struct Doc(Json);

impl AsJson for Doc {
    fn to_json(&self) -> Result<Json, AsJsonError> {
        if self.0.get("!fail").is_some() {
            return Err(AsJsonError::FieldValueInvalid("!fail"));
        }
        Ok(self.0.clone())
    }

    fn from_json(json: &Json) -> Result<Self, AsJsonError> {
        if json.get("!reject").is_some() {
            return Err(AsJsonError::FieldNotFound("!reject"));
        }
        Ok(Doc(json.clone()))
    }
}

const PATHS: [&str; 9] = ["/", "/api/v1/info", "/api/v1/clients", "/api/v1/lookup", "/api/v1/send", "/a", "/a/b", "/A", "/api/v1/poll"];
const LIMIT: usize = 2 * 1024 * 1024;

struct Handled {
    server: usize,
    get: bool,
    path: &'static str,
    from: SocketAddr,
    json: Json,
    reply: Json,
    at: u64,
}

#[derive(Clone, Debug, PartialEq)]
enum Want {
    /// the handler's answer
    Answer,
    /// an error; the handler does not run
    Error,
    /// larger than a server must take: both will do
    Either,
    /// an error, after the handler ran (its answer cannot be serialised)
    Fails,
}

struct Op {
    node: NodeId,
    server: usize,
    get: bool,
    path: &'static str,
    json: Json,
    nonce: String,
    want: Want,
    t0: u64,
    t1: Option<u64>,
    /// accepted answer
    ok: Option<Json>,
    err: Option<String>,
    raw: bool,
    lenient: bool,
    /// the address a raw peer sent it from
    from: Option<SocketAddr>,
}

#[derive(Default)]
struct State {
    handled: Vec<Handled>,
    ops: Vec<Op>,
    serial: u64,
    over: bool,
    done: u32,
    /// serve() of a server returned
    returned: Vec<(usize, String)>,
    big: bool,
}

struct Srv {
    node: NodeId,
    bind: String,
    url: String,
    to: SocketAddr,
    routes: Vec<(bool, &'static str)>,
}

fn state() -> &'static std::sync::Mutex<State> {
    static S: OnceLock<Mutex<State>> = OnceLock::new();
    S.get_or_init(|| Mutex::new(State::default()))
}

/// Text that is awkward to carry.
fn text(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => 0,
        1..=5 => r.below(12),
        6 => r.below(200),
        _ => r.below(5000),
    };
    (0..n)
        .map(|_| match r.below(12) {
            0 => '"',
            1 => '\\',
            2 => char::from(r.below(32) as u8),
            3 => '\u{7f}',
            4 => '\u{2028}',
            5 => char::from_u32(0x1F600 + r.below(60) as u32).unwrap(),
            6 => ['é', 'ß', '\u{0}', '\u{feff}', '/', '<', '%', '&'][r.below(8) as usize],
            7 => char::from_u32(r.below(0xD7FF) as u32).unwrap_or('x'),
            _ => char::from(b'a' + r.below(26) as u8),
        })
        .collect()
}

fn doc(r: &mut Rng, depth: u32) -> Json {
    match r.below(if depth == 0 { 7 } else { 10 }) {
        0 => Json::Null,
        1 => Json::Bool(r.below(2) == 0),
        2 => [json!(u64::MAX), json!(i64::MIN), json!(0), json!(-1), json!(i64::MAX), json!(1u64 << 53)][r.below(6) as usize].clone(),
        3 => match r.below(6) {
            0 => json!(u64::MAX),
            1 => json!(i64::MIN),
            2 => json!(r.next()),
            3 => json!(-(r.below(1 << 62) as i64)),
            // few digits: longer ones may come back off by one in the last place (a limit of the JSON library)
            4 => json!(r.below(1 << 14) as f64 / 16.0),
            _ => json!(-(r.below(1 << 20) as f64)),
        },
        4..=6 => Json::String(text(r)),
        7 | 8 => Json::Array((0..r.below(5)).map(|_| doc(r, depth - 1)).collect()),
        _ => Json::Object((0..r.below(5)).map(|_| (text(r), doc(r, depth - 1))).collect()),
    }
}

fn document(r: &mut Rng, max: usize, allow_big: bool) -> Json {
    match r.below(16) {
        0..=9 => doc(r, 3),
        10 => {
            // deep
            let n = 1 + r.below(110);
            let mut v = json!("x");
            for i in 0..n {
                v = if i % 2 == 0 { json!([v]) } else { json!({ "k": v }) };
            }
            v
        }
        11 => Json::Array((0..r.below(3000)).map(|i| json!(i)).collect()),
        12 | 13 => json!("ab\u{1F600}\"".repeat(r.below(3000) as usize)),
        14 if allow_big => {
            let n = (1 << 16) + r.below((max - (1 << 16)) as u64) as usize;
            json!("x".repeat(n))
        }
        15 if allow_big => json!("y".repeat(max - r.below(4) as usize)),
        _ => doc(r, 6),
    }
}

fn rng() -> Rng {
    Rng::new(0x5EED ^ ((w(1 << 16) as u64) << 16 | w(1 << 16) as u64))
}

fn serve(i: usize, node: NodeId, bind: String, routes: Vec<(bool, &'static str)>) {
    exec::thread(node, move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        let r = rt.block_on(async move {
            let mut s = AxumHttpServer::default();
            for (get, path) in routes {
                if get {
                    s.get::<Doc, _>(path, move |from| handle(i, true, path, from, Json::Null)).await;
                } else {
                    s.post::<Doc, Doc, _>(path, move |from, d: Doc| handle(i, false, path, from, d.0)).await;
                }
            }
            s.serve(bind.as_str()).await.map_err(|e| e.to_string())
        });
        if !exec::ghost() {
            state().lock().unwrap().returned.push((i, format!("{r:?}")));
        }
    });
}

async fn handle(server: usize, get: bool, path: &'static str, from: SocketAddr, json: Json) -> Doc {
    if exec::ghost() {
        return Doc(Json::Null);
    }
    let (reply, nap) = {
        let _k = Kernel::enter();
        let mut st = state().lock().unwrap();
        st.serial += 1;
        let mut r = rng();
        let big = st.big;
        let d = document(&mut r, 3 << 20, big);
        let reply = match r.below(8) {
            0 if !get => json!({ "!fail": true, "serial": st.serial }),
            _ => json!({ "serial": st.serial, "doc": d }),
        };
        // whether it fails is the caller's wish
        let fails = json.get("!want-fail").is_some();
        let reply = if fails { json!({ "!fail": true, "serial": st.serial }) } else if reply.get("!fail").is_some() { json!({ "serial": st.serial }) } else { reply };
        exec::log(|| format!("HANDLE s{server} {} {path} from {from} #{}", if get { "GET" } else { "POST" }, st.serial));
        stat("http.handled");
        st.handled.push(Handled { server, get, path, from, json, reply: reply.clone(), at: exec::now() });
        (reply, [0, 0, 0, MS, 50 * MS, 2 * SEC][r.below(6) as usize])
    };
    if nap > 0 {
        tokio::time::sleep(std::time::Duration::from_nanos(nap)).await;
    }
    Doc(reply)
}

async fn nap(ns: u64) {
    tokio::time::sleep(std::time::Duration::from_nanos(ns)).await;
}

struct Plan {
    server: usize,
    get: bool,
    path: &'static str,
    json: Json,
    nonce: String,
    want: Want,
    url: String,
    typed: bool,
    pause: u64,
}

fn plan(node: NodeId, n: &mut u32, srv: &[Arc<Srv>], big: bool) -> Plan {
    let server = w(srv.len() as u32) as usize;
    let s = &srv[server];
    let nonce = format!("N{node}-{n}-{}!", w(1000));
    *n += 1;
    let mut r = rng();
    let get = wp(0.3);
    let mut want = Want::Answer;
    let mut path = PATHS[w(PATHS.len() as u32) as usize];
    if !wp(0.12) {
        // mostly a route that exists
        let v: Vec<&'static str> = s.routes.iter().filter(|x| x.0 == get).map(|x| x.1).collect();
        if !v.is_empty() {
            path = v[w(v.len() as u32) as usize];
        }
    }
    if !s.routes.contains(&(get, path)) {
        want = Want::Error;
    }
    let json = match r.below(12) {
        0 => json!({ "!reject": 1, "n": nonce }),
        1 => json!({ "!want-fail": 1, "n": nonce }),
        2 => json!([nonce, document(&mut r, LIMIT - 100, big)]),
        3 => json!(nonce),
        4 if big => json!({ "n": nonce, "d": "z".repeat(LIMIT + r.below(3) as usize) }),
        _ => json!({ "n": nonce, "d": document(&mut r, LIMIT - 100, big) }),
    };
    if !get && want == Want::Answer {
        if json.to_string().len() > LIMIT {
            want = Want::Either;
        } else if json.get("!reject").is_some() {
            want = Want::Error;
        } else if json.get("!want-fail").is_some() {
            want = Want::Fails;
        }
    }
    let tail = ["", "", "", "?x=1", "?x=%2F&y"][w(5) as usize];
    Plan {
        server,
        get,
        path,
        json: if get { Json::Null } else { json },
        nonce,
        want,
        url: format!("{}{path}{tail}", s.url),
        typed: wp(0.5),
        pause: [0, 0, MS, 200 * MS, 3 * SEC, 100 * SEC][w(6) as usize],
    }
}

fn begin(node: NodeId, p: &Plan, raw: bool) -> usize {
    let _k = Kernel::enter();
    let mut st = state().lock().unwrap();
    exec::log(|| format!("OP n{node} {} s{} {} {} {:?} {}", if p.get { "GET" } else { "POST" }, p.server, p.path, p.nonce, p.want, short(&p.json.to_string())));
    st.ops.push(Op {
        node, server: p.server, get: p.get, path: p.path, json: p.json.clone(), nonce: p.nonce.clone(), want: p.want.clone(),
        t0: exec::now(), t1: None, ok: None, err: None, raw, lenient: false, from: None,
    });
    st.ops.len() - 1
}

fn end(i: usize, r: Result<Json, String>) {
    if exec::ghost() {
        return;
    }
    let _k = Kernel::enter();
    let mut st = state().lock().unwrap();
    let o = &mut st.ops[i];
    o.t1 = Some(exec::now());
    exec::log(|| format!("OP n{} {} {} -> {}", o.node, o.path, o.nonce, match &r { Ok(j) => format!("Ok({:.60})", short(&j.to_string())), Err(e) => format!("Err({e})") }));
    match r {
        Ok(j) => o.ok = Some(j),
        Err(e) => o.err = Some(e),
    }
}

async fn go(client: &ReqwestHttpClient, node: NodeId, p: &Plan) -> bool {
    let i = begin(node, p, false);
    let r: Result<Json, String> = if p.typed {
        if p.get {
            client.get_request::<Doc>(&p.url).await.map(|d| d.0).map_err(|e| format!("{e:?}"))
        } else {
            client.post_request::<Doc, Doc>(&p.url, RawDoc::of(&p.json)).await.map(|d| d.0).map_err(|e| format!("{e:?}"))
        }
    } else {
        let r = if p.get { client.get(&p.url).await } else { client.post(&p.url, p.json.clone()).await };
        match r {
            Ok(r) => match (r.status, r.body) {
                (200, Some(b)) => Ok(b),
                (s, b) => Err(format!("status {s} {b:?}")),
            },
            Err(e) => Err(format!("{e:?}")),
        }
    };
    let ok = r.is_ok();
    end(i, r);
    ok
}

struct RawDoc;
impl RawDoc {
    fn of(j: &Json) -> Doc {
        Doc(j.clone())
    }
}

fn client(node: NodeId, lanes: Vec<Vec<Plan>>, probes: Vec<Vec<Plan>>) {
    exec::thread(node, move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        rt.block_on(async move {
            let client = ReqwestHttpClient::default();
            let mut hs = Vec::new();
            for lane in lanes {
                let client = client.clone();
                hs.push(tokio::spawn(async move {
                    for p in lane {
                        if p.pause > 0 {
                            nap(p.pause).await;
                        }
                        go(&client, node, &p).await;
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
            if exec::ghost() {
                return;
            }
            state().lock().unwrap().done += 1;
            while !state().lock().unwrap().over {
                nap(SEC).await;
            }
            nap(SEC).await;
            for tries in probes {
                let mut ok = false;
                let (url, n) = (tries[0].url.clone(), tries.len());
                for p in tries {
                    if go(&client, node, &p).await {
                        ok = true;
                        break;
                    }
                    nap(10 * SEC).await;
                }
                if !ok && !exec::ghost() {
                    violation("C16", "stops-serving", format!("after the faults stopped, client n{node} is refused {n} times in a row at {url}"));
                }
            }
            if !exec::ghost() {
                state().lock().unwrap().done += 1;
            }
        });
    });
}

// ---------------------------------------------------------------- raw peers

enum Step {
    Send(Vec<u8>),
    Nap(u64),
    /// read an answer
    Answer,
    Shut,
}

/// What a raw peer does on one connection; `ops` are the requests in it, in order.
struct Talk {
    to: SocketAddr,
    steps: Vec<Step>,
    plans: Vec<Plan>,
    /// errors are no wonder
    lenient: bool,
}

fn chunked(r: &mut Rng, b: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let n = (1 + r.below(300) as usize).min(b.len() - i);
        out.extend(format!("{n:x}{}\r\n", if r.below(5) == 0 { ";ext=1" } else { "" }).bytes());
        out.extend(&b[i..i + n]);
        out.extend(b"\r\n");
        i += n;
    }
    out.extend(if r.below(4) == 0 { &b"0\r\nX-Trailer: 1\r\n\r\n"[..] } else { &b"0\r\n\r\n"[..] });
    out
}

fn talk(node: NodeId, n: &mut u32, srv: &[Arc<Srv>]) -> Talk {
    let mut p = plan(node, n, srv, false);
    let to = srv[p.server].to;
    let mut r = rng();
    let mut steps = Vec::new();
    let mut plans = Vec::new();
    let mut lenient = false;
    let kind = w(16);
    let send = |steps: &mut Vec<Step>, r: &mut Rng, mut b: Vec<u8>| {
        // in pieces, with or without pauses
        while !b.is_empty() {
            let n = if r.below(3) == 0 { 1 + r.below(b.len() as u64) as usize } else { b.len() };
            let rest = b.split_off(n);
            steps.push(Step::Send(b));
            if r.below(3) == 0 {
                steps.push(Step::Nap(r.below(50) * MS));
            }
            b = rest;
        }
    };
    match kind {
        0..=4 => {
            // proper requests in unusual dress, one after another or all at once
            let many = 1 + w(3);
            let mut all = Vec::new();
            let piped = wp(0.5);
            let first = p.server;
            for k in 0..many {
                if k > 0 {
                    let s = first;
                    p = plan(node, n, srv, false);
                    p.server = s;
                    if !srv[s].routes.contains(&(p.get, p.path)) {
                        p.want = Want::Error;
                    } else if p.get {
                        p.want = Want::Answer;
                    } else if p.want != Want::Fails {
                        p.want = if p.json.get("!reject").is_some() { Want::Error } else if p.json.get("!want-fail").is_some() { Want::Fails } else { Want::Answer };
                    }
                }
                let body = if p.get { vec![] } else { match r.below(3) { 0 => serde_json::to_vec_pretty(&p.json).unwrap(), _ => p.json.to_string().into_bytes() } };
                let host = format!("{}", srv[p.server].to);
                let target = match r.below(5) {
                    0 => format!("http://{host}{}", p.path),
                    1 => format!("{}?a=b", p.path),
                    _ => p.path.to_string(),
                };
                let mut h = format!("{} {target} HTTP/1.1\r\n{}: {host}\r\n", if p.get { "GET" } else { "POST" }, ["Host", "host", "HOST"][r.below(3) as usize]);
                for i in 0..r.below(4) {
                    h.push_str(&format!("X-Extra-{i}: {}\r\n", "v".repeat(r.below(300) as usize)));
                }
                if r.below(4) == 0 {
                    h.push_str("Content-Type: text/plain; charset=latin1\r\n");
                }
                if r.below(4) == 0 {
                    h.push_str("X-Forwarded-For: 6.6.6.6\r\nForwarded: for=6.6.6.6\r\n");
                }
                let expect = !p.get && r.below(8) == 0;
                if expect {
                    h.push_str("Expect: 100-continue\r\n");
                }
                let mut b = body.clone();
                if !p.get || r.below(4) == 0 {
                    if r.below(3) == 0 {
                        h.push_str(["Transfer-Encoding: chunked\r\n", "transfer-encoding: Chunked\r\n"][r.below(2) as usize]);
                        b = chunked(&mut r, &body);
                    } else {
                        h.push_str(&format!("Content-Length: {}\r\n", body.len()));
                    }
                }
                h.push_str("\r\n");
                let mut m = h.into_bytes();
                m.extend(b);
                if piped {
                    all.extend(m);
                } else {
                    send(&mut steps, &mut r, m);
                    steps.push(Step::Answer);
                }
                plans.push(p);
                p = plan(node, n, srv, false);
            }
            if piped {
                send(&mut steps, &mut r, all);
                if wp(0.3) {
                    // the server may take this for a disconnect
                    steps.push(Step::Shut);
                    lenient = true;
                }
                for _ in 0..many {
                    steps.push(Step::Answer);
                }
            }
        }
        5..=7 => {
            // a body that never completes
            let body = p.json.to_string().into_bytes();
            let cut = r.below(body.len() as u64) as usize;
            let mut m = format!("POST {} HTTP/1.1\r\nHost: x\r\n", p.path).into_bytes();
            match r.below(3) {
                0 => {
                    m.extend(format!("Content-Length: {}\r\n\r\n", body.len()).bytes());
                    m.extend(&body[..cut]);
                }
                1 => {
                    m.extend(b"Transfer-Encoding: chunked\r\n\r\n");
                    m.extend(format!("{:x}\r\n", body.len()).bytes());
                    m.extend(&body[..cut]);
                }
                _ => {
                    // complete chunks, no end
                    m.extend(b"Transfer-Encoding: chunked\r\n\r\n");
                    m.extend(format!("{:x}\r\n", body.len()).bytes());
                    m.extend(&body);
                    m.extend(b"\r\n");
                }
            }
            p.get = false;
            p.json = serde_json::from_slice(&body).unwrap();
            p.want = Want::Error;
            plans.push(p);
            send(&mut steps, &mut r, m);
            match w(4) {
                0 => steps.push(Step::Shut),
                1 => steps.push(Step::Nap(20 * SEC)),
                2 => steps.push(Step::Nap(300 * SEC)),
                _ => {}
            }
            if wp(0.5) {
                steps.push(Step::Answer);
            }
        }
        8..=12 => {
            // a body that is no JSON
            let good = json!({ "n": p.nonce, "d": doc(&mut r, 2) }).to_string().into_bytes();
            let mut b = good.clone();
            match r.below(9) {
                0 => b.clear(),
                1 => b.truncate(1 + r.below(b.len() as u64 - 1) as usize),
                2 => b.extend(b" x"),
                3 => b.insert(0, 0xff),
                4 => b = [&b"\xef\xbb\xbf"[..], &b].concat(),
                5 => b = [vec![b'['; 200], b, vec![b']'; 200]].concat(),
                6 => b = [vec![b'['; 60_000], b].concat(),
                7 => b = format!("{{\"n\":\"{}\",\"d\":\"\\ud800\"}}", p.nonce).into_bytes(),
                _ => b = [&b"{\"n\":\"\xc3\x28 "[..], p.nonce.as_bytes(), b"\"}"].concat(),
            }
            if serde_json::from_slice::<Json>(&b).is_err() {
                p.get = false;
                p.json = json!("not json");
                p.want = Want::Error;
                let mut m = format!("POST {} HTTP/1.1\r\nHost: x\r\nContent-Length: {}\r\n\r\n", p.path, b.len()).into_bytes();
                m.extend(b);
                plans.push(p);
                send(&mut steps, &mut r, m);
                steps.push(Step::Answer);
            }
        }
        13 => {
            // no HTTP
            let m = match r.below(7) {
                0 => (0..r.below(3000)).map(|_| r.next() as u8).collect(),
                1 => b"GET / HTTP/9.9\r\n\r\n".to_vec(),
                2 => format!("POST {} HTTP/1.1\r\nHost: x\r\nContent-Length: -5\r\n\r\nhello", p.path).into_bytes(),
                3 => format!("POST {} HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\nContent-Length: 7\r\n\r\nhello", p.path).into_bytes(),
                4 => format!("GET {} HTTP/1.1\r\nHost: x\r\nX: {}\r\n\r\n", p.path, "y".repeat(900_000)).into_bytes(),
                5 => format!("POST {} HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\nhello\r\n0\r\n\r\n", p.path).into_bytes(),
                _ => b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\x00\x00\x00\xff\x00\x00\x00\x00\x00".to_vec(),
            };
            p.want = Want::Error;
            p.get = false;
            p.json = json!("not http");
            // a server may close before it has read everything: no answer is expected
            plans.push(p);
            send(&mut steps, &mut r, m);
            steps.push(Step::Answer);
        }
        14 => {
            // slow
            steps.push(Step::Send(format!("GET {} HT", p.path).into_bytes()));
            steps.push(Step::Nap(400 * SEC));
        }
        _ => {
            // just opens and closes, or stays
            if wp(0.5) {
                steps.push(Step::Nap(200 * SEC));
            }
        }
    }
    Talk { to, steps, plans, lenient }
}

/// Split one HTTP answer off the front of `buf`.
fn answer(buf: &mut Vec<u8>, eof: bool) -> Option<(u16, Vec<u8>)> {
    loop {
        let h = buf.windows(4).position(|x| x == b"\r\n\r\n")?;
        let head = String::from_utf8_lossy(&buf[..h]).to_string();
        let status: u16 = head.split(' ').nth(1)?.parse().ok()?;
        if status == 100 {
            buf.drain(..h + 4);
            continue;
        }
        let mut len = None;
        let mut chunks = false;
        for l in head.lines().skip(1) {
            let (k, v) = l.split_once(':')?;
            if k.eq_ignore_ascii_case("content-length") {
                len = v.trim().parse::<usize>().ok();
            }
            if k.eq_ignore_ascii_case("transfer-encoding") {
                chunks = true;
            }
        }
        if chunks {
            let mut i = h + 4;
            let mut out = Vec::new();
            loop {
                let e = buf[i..].windows(2).position(|x| x == b"\r\n")? + i;
                let n = usize::from_str_radix(String::from_utf8_lossy(&buf[i..e]).split(';').next()?.trim(), 16).ok()?;
                if buf.len() < e + 2 + n + 2 {
                    return None;
                }
                out.extend(&buf[e + 2..e + 2 + n]);
                i = e + 2 + n + 2;
                if n == 0 {
                    break;
                }
            }
            buf.drain(..i);
            return Some((status, out));
        }
        let n = match len {
            Some(n) => n,
            None if eof => buf.len() - h - 4,
            None => return None,
        };
        if buf.len() < h + 4 + n {
            return None;
        }
        let body = buf[h + 4..h + 4 + n].to_vec();
        buf.drain(..h + 4 + n);
        return Some((status, body));
    }
}

fn raw(node: NodeId, talks: Vec<Talk>) {
    exec::thread(node, move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        rt.block_on(async move {
            let mut hs = Vec::new();
            for t in talks {
                hs.push(tokio::spawn(async move {
                    let ids: Vec<usize> = t.plans.iter().map(|p| begin(node, p, true)).collect();
                    if t.lenient {
                        for i in &ids {
                            state().lock().unwrap().ops[*i].lenient = true;
                        }
                    }
                    let mut next = 0;
                    let r = tokio::time::timeout(std::time::Duration::from_secs(500), async {
                        let mut s = tokio::net::TcpStream::connect(t.to).await?;
                        let from = s.local_addr().ok();
                        for i in &ids {
                            state().lock().unwrap().ops[*i].from = from;
                        }
                        let mut buf = Vec::new();
                        let mut eof = false;
                        for step in t.steps {
                            match step {
                                Step::Send(b) => {
                                    // a peer that sends must read as well, or both sides wait for each other
                                    let (mut rd, mut wr) = s.split();
                                    let wf = wr.write_all(&b);
                                    tokio::pin!(wf);
                                    let mut tmp = [0u8; 4096];
                                    loop {
                                        tokio::select! {
                                            biased;
                                            r = &mut wf => { r?; break; }
                                            n = rd.read(&mut tmp), if !eof => {
                                                let n = n?;
                                                if n == 0 { eof = true; }
                                                buf.extend(&tmp[..n]);
                                            }
                                        }
                                    }
                                }
                                Step::Nap(ns) => nap(ns).await,
                                Step::Shut => s.shutdown().await?,
                                Step::Answer => {
                                    let got = loop {
                                        if let Some(a) = answer(&mut buf, eof) {
                                            break Some(a);
                                        }
                                        if eof {
                                            break None;
                                        }
                                        let mut tmp = [0u8; 4096];
                                        let n = s.read(&mut tmp).await?;
                                        eof = n == 0;
                                        buf.extend(&tmp[..n]);
                                    };
                                    if next < ids.len() {
                                        let r = match got {
                                            Some((200, b)) => serde_json::from_slice::<Json>(&b).map_err(|e| format!("status 200: {e}")),
                                            Some((s, _)) => Err(format!("status {s}")),
                                            None => Err("closed".into()),
                                        };
                                        end(ids[next], r);
                                        next += 1;
                                    }
                                }
                            }
                        }
                        Ok::<(), std::io::Error>(())
                    })
                    .await;
                    let why = match r {
                        Ok(Ok(())) => "no answer awaited".to_string(),
                        Ok(Err(e)) => e.to_string(),
                        Err(_) => "TIMEOUT".into(),
                    };
                    for i in &ids[next..] {
                        end(*i, Err(why.clone()));
                    }
                }));
            }
            for h in hs {
                let _ = h.await;
            }
            if !exec::ghost() {
                state().lock().unwrap().done += 1;
            }
        });
    });
}

// ---------------------------------------------------------------- run

pub fn root(_prop: &'static str) -> Fut {
    Box::pin(run())
}

async fn run() {
    *state().lock().unwrap() = State::default();
    let s = sim();
    s.p_switch = [0.3, 0.1, 0.6, 0.9][w(4) as usize];
    coarse_clock();
    s.step_ns = [5_000, 500, 50_000][w(3) as usize];
    let quiet = wp(0.25);
    let big = wp(0.06);
    state().lock().unwrap().big = big;
    world().cfg = sock::SockCfg {
        max_delay: [MS, 100 * US, 40 * MS, SEC][w(4) as usize],
        p_split: [0.0, 0.05, 0.3, 0.8][w(4) as usize],
        p_epoll: [0.0, 0.1, 0.5][w(3) as usize],
        ..Default::default()
    };
    if big {
        // megabytes through small windows and slow lines would take hours
        world().cfg.max_delay = [MS, 100 * US][w(2) as usize];
        world().cfg.p_split = [0.0, 0.05][w(2) as usize];
        world().cfg.wide = true;
    }
    if !quiet {
        let mask = w(32);
        let rate = [0.05, 0.2, 0.5][w(3) as usize];
        let on = |b: u32| if mask & b != 0 { rate } else { 0.0 };
        let c = &mut world().cfg;
        c.p_reset = on(1);
        c.p_cut = on(2);
        c.p_refuse = on(4) * 0.5;
        c.p_accept = on(8) * 0.5;
    }
    let crashes = !quiet && wp(0.25);

    // servers
    let ns = 1 + (wp(0.3) as usize);
    let mut srv = Vec::new();
    for i in 0..ns {
        let node = exec::add_node("server");
        let port = 8000 + w(3) as u16 + if wp(0.2) { 0 } else { i as u16 };
        let v6 = wp(0.2);
        let ip = node_ip(node, v6);
        let to = SocketAddr::new(ip, port);
        let bind = match w(3) {
            0 => to.to_string(),
            1 if !v6 => format!("0.0.0.0:{port}"),
            _ => format!("[::]:{port}"),
        };
        let mut routes: Vec<(bool, &'static str)> = Vec::new();
        for _ in 0..2 + w(8) {
            let r = (wp(0.35), PATHS[w(PATHS.len() as u32) as usize]);
            if !routes.contains(&r) {
                routes.push(r);
            }
        }
        srv.push(Arc::new(Srv { node, bind, url: format!("http://{to}"), to, routes }));
    }
    for (i, s) in srv.iter().enumerate() {
        serve(i, s.node, s.bind.clone(), s.routes.clone());
    }
    // now and then somebody wants the same port again
    let second = wp(0.1);
    exec::sleep([0, 5 * MS][w(2) as usize] + if second { SEC } else { 0 }).await;
    if second {
        serve(100, srv[0].node, srv[0].bind.clone(), vec![(true, "/")]);
    }

    // clients
    let mut n = 0;
    let nc = 1 + w(3);
    let nr = w(3);
    let mut nodes = Vec::new();
    for _ in 0..nc {
        let node = exec::add_node("client");
        nodes.push(node);
        let lanes = (0..1 + w(3)).map(|_| (0..1 + w(4)).map(|_| plan(node, &mut n, &srv, big)).collect()).collect();
        let probes = (0..srv.len())
            .map(|i| {
                let mut tries = Vec::new();
                while tries.len() < 4 {
                    let mut p = plan(node, &mut n, &srv, false);
                    p.server = i;
                    let s = &srv[i];
                    let (get, path) = s.routes[0];
                    (p.get, p.path, p.want) = (get, path, Want::Answer);
                    p.json = if get { Json::Null } else { json!({ "n": p.nonce, "probe": true }) };
                    p.url = format!("{}{path}", s.url);
                    tries.push(p);
                }
                tries
            })
            .collect();
        client(node, lanes, probes);
    }
    for _ in 0..nr {
        let node = exec::add_node("raw");
        nodes.push(node);
        let talks = (0..1 + w(4)).map(|_| talk(node, &mut n, &srv)).collect();
        raw(node, talks);
    }

    // faults on a timer
    let mut restarts = Vec::new();
    if !quiet {
        if crashes {
            for _ in 0..1 + w(2) {
                let i = w(ns as u32) as usize;
                let t = sim().now + w(200) as u64 * [MS, 50 * MS][w(2) as usize];
                let node = srv[i].node;
                exec::at(t, move || exec::crash(node));
                let back = t + [0, 10 * MS, 3 * SEC][w(3) as usize] + MS;
                restarts.push((back, i));
            }
        }
        if wp(0.25) {
            let (a, b) = (srv[w(ns as u32) as usize].node, pick(&nodes));
            let t = sim().now + w(200) as u64 * 10 * MS;
            let d = [50 * MS, 5 * SEC, 100 * SEC][w(3) as usize];
            exec::at(t, move || sock::part(a, b, d));
        }
    }
    restarts.sort();
    for (t, i) in restarts {
        let now = sim().now;
        if t > now {
            exec::sleep(t - now).await;
        }
        let node = srv[i].node;
        if !sim().nodes[node].alive {
            exec::restart(node);
            serve(i, node, srv[i].bind.clone(), srv[i].routes.clone());
        }
    }

    // everybody finishes: errors, at worst, after the connections' own time limits
    let want = nc + nr;
    let t0 = sim().now;
    while state().lock().unwrap().done < want {
        exec::sleep(SEC).await;
        if sim().now - t0 > 6000 * SEC {
            break;
        }
    }
    let slow = state().lock().unwrap().ops.iter().find(|o| o.t1.is_none()).map(|o| (o.node, o.nonce.clone(), o.t0));
    if let Some((n, nonce, t0)) = slow {
        violation("C16", "client-hangs", format!("request {nonce} of n{n}, sent at {:.3} s, never returns", t0 as f64 / 1e9));
        check(&srv, quiet);
        return;
    }

    // calm: everybody is served again
    sock::calm();
    exec::sleep(200 * SEC).await;
    state().lock().unwrap().over = true;
    let t0 = sim().now;
    while state().lock().unwrap().done < want + nc {
        exec::sleep(SEC).await;
        if sim().now - t0 > 3000 * SEC {
            violation("C16", "client-hangs", "a request after the faults stopped never returns");
            break;
        }
    }
    check(&srv, quiet);
}

fn check(srv: &[Arc<Srv>], quiet: bool) {
    let _k = Kernel::enter();
    let st = state().lock().unwrap();

    for (i, r) in &st.returned {
        if *i == 100 {
            if r.starts_with("Ok") {
                violation("C16", "serves-twice", format!("a second server on {} reports {r}", srv[0].bind));
            }
            stat("http.port_taken");
        } else {
            violation("C16", "server-stops", format!("server {i} on {} stops serving: {r}", srv[*i].bind));
        }
    }
    if st.handled.iter().any(|h| h.server == 100) {
        violation("C16", "serves-twice", "a server that could not bind handles requests");
    }

    // handlers: one call per request, with its document and its sender
    let mut used: BTreeMap<usize, usize> = BTreeMap::new();
    for (hi, h) in st.handled.iter().enumerate().filter(|x| x.1.server < 100) {
        let line = world().conns.iter().filter(|c| c.addr[0].ip().to_canonical() == h.from.ip().to_canonical() && c.addr[0].port() == h.from.port() && c.node[1] == srv[h.server].node);
        let lines: Vec<&sock::Conn> = line.collect();
        if lines.is_empty() {
            violation("C16", "wrong-caller", format!("{} {} was called for {}, which has no connection to the server", if h.get { "GET" } else { "POST" }, h.path, h.from));
            continue;
        }
        let node = lines[0].node[0];
        if h.get {
            let any = st.ops.iter().any(|o| o.get && o.server == h.server && o.path == h.path && o.node == node && o.t0 <= h.at);
            if !any {
                violation("C16", "unasked", format!("GET {} ran for {}, which never asked", h.path, h.from));
            }
            continue;
        }
        let m = st.ops.iter().enumerate().find(|(i, o)| {
            !o.get && o.server == h.server && o.path == h.path && o.node == node && o.json == h.json && o.t0 <= h.at && o.want != Want::Error && !used.contains_key(i)
        });
        match m {
            Some((i, o)) => {
                used.insert(i, hi);
                let n = o.nonce.as_bytes();
                let told = match o.from {
                    Some(a) => a.ip().to_canonical() == h.from.ip().to_canonical() && a.port() == h.from.port(),
                    None => lines.iter().any(|c| c.pipe[0].sent.windows(n.len()).any(|x| x == n)),
                };
                if !told {
                    violation("C16", "wrong-caller", format!("POST {} with {} was called for {}, which did not send it", h.path, o.nonce, h.from));
                }
            }
            None => {
                let again = st.ops.iter().enumerate().any(|(i, o)| !o.get && o.server == h.server && o.path == h.path && o.node == node && o.json == h.json && used.contains_key(&i));
                let class = if again { "runs-twice" } else { "wrong-document" };
                if exec::tracing() {
                    for o in st.ops.iter().filter(|o| !o.get && o.node == node) {
                        exec::log(|| format!("sent {}\n got {}", o.json, h.json));
                    }
                }
                violation("C16", class, format!("POST {} ran for {} with {}, {}", h.path, h.from, short(&h.json.to_string()), if again { "once more" } else { "which nobody sent there" }));
            }
        }
    }

    // gets: no more calls than requests
    let mut gets: BTreeMap<(NodeId, usize, &str), (u32, u32)> = BTreeMap::new();
    for o in st.ops.iter().filter(|o| o.get && o.want == Want::Answer) {
        gets.entry((o.node, o.server, o.path)).or_default().0 += 1;
    }
    for h in st.handled.iter().filter(|h| h.get && h.server < 100) {
        if let Some(c) = world().conns.iter().find(|c| c.addr[0].port() == h.from.port() && c.addr[0].ip().to_canonical() == h.from.ip().to_canonical()) {
            let g = gets.entry((c.node[0], h.server, h.path)).or_default();
            g.1 += 1;
            if g.1 > g.0 {
                violation("C16", "runs-twice", format!("GET {} ran {} times for {} requests", h.path, g.1, g.0));
            }
        }
    }

    // callers
    let mut serials = BTreeSet::new();
    for (i, o) in st.ops.iter().enumerate() {
        let Some(t1) = o.t1 else { continue };
        match (&o.ok, &o.want) {
            (Some(j), Want::Answer | Want::Either) => {
                stat("http.ok");
                let s = j.get("serial").and_then(|s| s.as_u64());
                let h = st.handled.iter().position(|h| h.reply.get("serial").and_then(|x| x.as_u64()) == s && s.is_some());
                let fine = h.map(|h| {
                    let x = &st.handled[h];
                    x.reply == *j && x.server == o.server && x.path == o.path && x.get == o.get && (o.get || used.get(&i) == Some(&h)) && x.at >= o.t0 && x.at <= t1
                });
                if fine != Some(true) {
                    violation("C16", "wrong-answer", format!("request {} ({} {}) got {}, not its handler's answer", o.nonce, if o.get { "GET" } else { "POST" }, o.path, short(&j.to_string())));
                } else if !serials.insert(s) {
                    violation("C16", "wrong-answer", format!("request {} got the answer of another request", o.nonce));
                }
            }
            (Some(j), w) => {
                violation("C16", "no-error", format!("request {} ({} {}) should fail ({w:?}) but got {}", o.nonce, if o.get { "GET" } else { "POST" }, o.path, short(&j.to_string())));
            }
            (None, Want::Answer) => {
                stat("http.err");
                let node = srv[o.server].node;
                let harmed = world().conns.iter().any(|c| {
                    c.node == [o.node, node] && c.harmed.map(|h| h <= t1).unwrap_or(false) && c.closed_at[0].map(|t| t >= o.t0).unwrap_or(true)
                });
                // a server that refuses a request may hang up instead of reading the rest of it,
                // and a request already on its way behind it is lost
                let hung_up = world().conns.iter().any(|c| c.node == [o.node, node] && c.closed_at[1].map(|t| t <= t1).unwrap_or(false))
                    && st.ops.iter().any(|x| x.node == o.node && x.server == o.server && matches!(x.want, Want::Error | Want::Either) && x.t0 <= t1);
                let harmed = harmed || hung_up;
                let e = o.err.clone().unwrap_or_default();
                if e == "TIMEOUT" && !o.raw {
                    violation("C16", "client-hangs", format!("request {} gets no answer", o.nonce));
                } else if !harmed && !o.lenient && !(o.raw && e == "no answer awaited") {
                    violation("C16", if quiet { "fails" } else { "fails-unharmed" }, format!("request {} ({} {}) of n{} fails with {e} although nothing disturbed its connection", o.nonce, if o.get { "GET" } else { "POST" }, o.path, o.node));
                }
            }
            (None, _) => stat("http.refused"),
        }
    }
}
