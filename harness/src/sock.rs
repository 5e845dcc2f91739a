//! Simulated TCP: sockets, epoll and eventfd behind the interposed libc calls, so that an unmodified
//! tokio runtime (mio, its I/O driver and timers) runs on a simulated thread of its node.
//! Streams are cut into segments, delayed, reset and silenced by the seed.
#![allow(clippy::missing_safety_doc)]

use std::collections::{BTreeMap, VecDeque};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

use libc::{c_int, c_void, size_t, socklen_t, ssize_t};

use crate::choices::S;
use crate::exec::{self, sim, Kernel, NodeId, MS, SEC, US};
use crate::vfs::FD_BASE;

pub const SOCK_BASE: i32 = FD_BASE << 4;
/// Keys of blocked epoll waits (never real addresses).
const WAIT_KEY: usize = 0xE000_0000_0000_0000;

pub fn is_sock(fd: c_int) -> bool {
    fd >= SOCK_BASE
}

/// Fault rates and shapes of one run.
#[derive(Clone, Default)]
pub struct SockCfg {
    pub max_delay: u64,
    /// short reads and writes, several segments per write
    pub p_split: f64,
    /// failing accepts (EMFILE, ECONNABORTED)
    pub p_accept: f64,
    /// epoll_wait: EINTR, subsets and reordering of the ready list
    pub p_epoll: f64,
    /// per connection: reset at some byte
    pub p_reset: f64,
    /// per connection: silence at some byte, healed after a while or never
    pub p_cut: f64,
    /// per connection: refused although somebody listens
    pub p_refuse: f64,
    /// no small windows
    pub wide: bool,
}

#[derive(Default)]
pub struct Pipe {
    /// sent, not yet delivered
    queue: VecDeque<u8>,
    /// delivered, unread
    buf: VecDeque<u8>,
    cap: usize,
    last: u64,
    fin_sent: bool,
    fin: bool,
    /// delivered while silenced
    stuck: usize,
    stuck_fin: bool,
    want_w: bool,
    /// everything ever written
    pub sent: Vec<u8>,
    pub read: usize,
    /// fault when this many bytes were written
    fault_at: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Syn,
    Up,
    Failed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Plan {
    None,
    Reset,
    /// silent for so long
    Cut(u64),
}

pub struct Conn {
    pub addr: [SocketAddr; 2],
    pub node: [NodeId; 2],
    /// pipe[0]: client to server
    pub pipe: [Pipe; 2],
    state: State,
    err: [Option<i32>; 2],
    down: bool,
    obj: [Option<u64>; 2],
    pub closed_at: [Option<u64>; 2],
    cut_until: u64,
    plan: Plan,
    /// first time a fault touched it
    pub harmed: Option<u64>,
    pub opened: u64,
    opts: [Opts; 2],
}

#[derive(Default, Clone, Copy)]
struct Opts {
    keepalive: bool,
    idle: u64,
    intvl: u64,
    cnt: u64,
    user: u64,
}

enum Obj {
    Fresh { local: Option<SocketAddr>, opts: Opts },
    Listen { local: SocketAddr, backlog: VecDeque<usize>, max: usize },
    End { conn: usize, end: usize },
    Epoll { watch: BTreeMap<u64, (u32, u64)>, ready: Vec<u64> },
    Event { count: u64 },
}

struct Holder {
    obj: Obj,
    refs: u32,
    node: NodeId,
    v6: bool,
}

#[derive(Default)]
pub struct World {
    pub cfg: SockCfg,
    fds: BTreeMap<c_int, (u64, NodeId)>,
    objs: BTreeMap<u64, Holder>,
    next_fd: c_int,
    next_obj: u64,
    next_port: u16,
    pub conns: Vec<Conn>,
    /// nodes that cannot exchange anything until the given time
    pub parted: BTreeMap<(NodeId, NodeId), u64>,
}

pub fn world() -> &'static mut World {
    &mut sim().sock
}

pub fn node_ip(n: NodeId, v6: bool) -> IpAddr {
    if v6 {
        IpAddr::V6(Ipv6Addr::new(0xfd00, 0, 0, 0, 0, 0, 0, n as u16))
    } else {
        IpAddr::V4(Ipv4Addr::new(10, 0, (n >> 8) as u8, n as u8))
    }
}

fn ip_node(ip: IpAddr) -> Option<NodeId> {
    let n = match ip {
        IpAddr::V4(a) => {
            let o = a.octets();
            if o[0] != 10 || o[1] != 0 {
                return None;
            }
            ((o[2] as usize) << 8) | o[3] as usize
        }
        IpAddr::V6(a) => {
            if let Some(v4) = a.to_ipv4_mapped() {
                return ip_node(IpAddr::V4(v4));
            }
            let s = a.segments();
            if s[0] != 0xfd00 {
                return None;
            }
            s[7] as usize
        }
    };
    (n < sim().nodes.len()).then_some(n)
}

// ---------------------------------------------------------------- helpers

type R<T> = Result<T, i32>;

fn errno(e: i32) -> i64 {
    unsafe { *libc::__errno_location() = e };
    -1
}

fn ret(r: R<i64>) -> i64 {
    match r {
        Ok(v) => v,
        Err(e) => errno(e),
    }
}

/// Scheduling point in front of a call; false: the node is gone and the call has no effect.
fn gate() -> bool {
    match exec::me() {
        Some(h) => exec::park(h),
        None => true,
    }
}

fn my_node() -> NodeId {
    match exec::me() {
        Some(h) => sim().helpers[h].node,
        None => exec::my_node(),
    }
}

fn new_fd(obj: Obj, node: NodeId, v6: bool) -> c_int {
    let w = world();
    w.next_obj += 1;
    let id = w.next_obj;
    w.objs.insert(id, Holder { obj, refs: 1, node, v6 });
    w.next_fd += 1;
    let fd = SOCK_BASE + w.next_fd;
    w.fds.insert(fd, (id, node));
    fd
}

fn id_of(fd: c_int) -> R<u64> {
    world().fds.get(&fd).map(|f| f.0).ok_or(libc::EBADF)
}

fn obj(fd: c_int) -> R<&'static mut Obj> {
    let id = id_of(fd)?;
    world().objs.get_mut(&id).map(|h| &mut h.obj).ok_or(libc::EBADF)
}

fn end_of(fd: c_int) -> R<(usize, usize)> {
    match obj(fd)? {
        Obj::End { conn, end } => Ok((*conn, *end)),
        _ => Err(libc::ENOTCONN),
    }
}

fn conn(c: usize) -> &'static mut Conn {
    &mut world().conns[c]
}

/// Something may have become ready on an object.
fn signal(id: u64) {
    let w = world();
    let mut wake = Vec::new();
    for (eid, h) in w.objs.iter_mut() {
        if let Obj::Epoll { watch, ready } = &mut h.obj {
            if watch.contains_key(&id) {
                if !ready.contains(&id) {
                    ready.push(id);
                }
                wake.push(*eid);
            }
        }
    }
    for e in wake {
        exec::wake_addr(WAIT_KEY + e as usize, usize::MAX);
    }
}

fn signal_end(c: usize, end: usize) {
    if let Some(o) = conn(c).obj[end] {
        signal(o);
    }
}

fn mask(id: u64) -> u32 {
    let Some(h) = world().objs.get(&id) else { return 0 };
    let m = match &h.obj {
        Obj::Fresh { .. } => libc::EPOLLOUT | libc::EPOLLHUP,
        Obj::Listen { backlog, .. } => if backlog.is_empty() { 0 } else { libc::EPOLLIN },
        Obj::Event { count } => if *count > 0 { libc::EPOLLIN | libc::EPOLLOUT } else { libc::EPOLLOUT },
        Obj::Epoll { .. } => 0,
        Obj::End { conn: c, end } => {
            let c = conn(*c);
            let e = *end;
            match c.state {
                State::Syn => 0,
                State::Failed => libc::EPOLLERR | libc::EPOLLHUP | libc::EPOLLIN | libc::EPOLLOUT | libc::EPOLLRDHUP,
                State::Up => {
                    let mut m = 0;
                    let rx = &c.pipe[1 - e];
                    let tx = &c.pipe[e];
                    if !rx.buf.is_empty() || rx.fin || c.down {
                        m |= libc::EPOLLIN;
                    }
                    if rx.fin || c.down {
                        m |= libc::EPOLLRDHUP;
                    }
                    if space(tx) > 0 || c.down || tx.fin_sent {
                        m |= libc::EPOLLOUT;
                    }
                    if c.err[e].is_some() {
                        m |= libc::EPOLLERR;
                    }
                    if c.down || (rx.fin && tx.fin_sent) {
                        m |= libc::EPOLLHUP;
                    }
                    m
                }
            }
        }
    };
    m as u32
}

fn space(p: &Pipe) -> usize {
    p.cap.saturating_sub(p.queue.len() + p.buf.len())
}

fn net(n: u32) -> u32 {
    sim().ch.draw(S::Net, n)
}

fn delay() -> u64 {
    let m = world().cfg.max_delay;
    20 * US + m * net(32) as u64 / 32
}

fn cut_until(c: &Conn) -> u64 {
    let (a, b) = (c.node[0].min(c.node[1]), c.node[0].max(c.node[1]));
    c.cut_until.max(world().parted.get(&(a, b)).copied().unwrap_or(0))
}

// ---------------------------------------------------------------- connections

/// Both ends learn that the connection is gone.
fn reset(c: usize, e0: Option<i32>, e1: Option<i32>, why: &str) {
    let k = conn(c);
    if k.down || k.state != State::Up {
        return;
    }
    k.down = true;
    k.harmed.get_or_insert(exec::now());
    let keep = net(2) == 0;
    for (i, e) in [e0, e1].into_iter().enumerate() {
        k.err[i] = e;
        // what was not delivered is lost; what was delivered may be read first
        k.pipe[i].queue.clear();
        if !keep {
            k.pipe[i].buf.clear();
        }
    }
    exec::log(|| format!("tcp #{c} {why}"));
    signal_end(c, 0);
    signal_end(c, 1);
}

fn silence(c: usize, ns: u64) {
    let k = conn(c);
    if k.down || k.state != State::Up {
        return;
    }
    let now = exec::now();
    k.harmed.get_or_insert(now);
    k.cut_until = if ns == u64::MAX { u64::MAX } else { now + ns };
    exec::log(|| format!("tcp #{c} silent for {}", if ns == u64::MAX { "ever".into() } else { format!("{} ms", ns / MS) }));
    after_cut(c);
}

/// Timers of a silenced connection: healing, keep-alive and retransmission limits.
fn after_cut(c: usize) {
    let k = conn(c);
    let until = cut_until(k);
    if until != u64::MAX {
        exec::at(until, move || heal(c));
    }
    for e in 0..2 {
        let o = k.opts[e];
        let now = exec::now();
        if o.keepalive {
            let t = now + o.idle + o.cnt * o.intvl;
            if t < until {
                exec::at(t, move || lost(c, e));
            }
        }
        let limit = if o.user > 0 { o.user } else { 924 * SEC };
        unacked(c, e, now + limit);
    }
}

fn lost(c: usize, e: usize) {
    let k = conn(c);
    if !k.down && k.closed_at[e].is_none() && cut_until(k) > exec::now() {
        exec::stat("fault.tcp_timed_out");
        // the other end notices in its own time
        k.err[e] = Some(libc::ETIMEDOUT);
        let mut es = [None, None];
        es[e] = Some(libc::ETIMEDOUT);
        reset(c, es[0], es[1], "timed out");
    }
}

/// Data sent by end `e` stays unacknowledged until `t`.
fn unacked(c: usize, e: usize, t: u64) {
    exec::at(t, move || {
        let k = conn(c);
        if cut_until(k) > exec::now() && (k.pipe[e].stuck > 0 || !k.pipe[e].queue.is_empty()) {
            lost(c, e);
        }
    });
}

fn heal(c: usize) {
    let k = conn(c);
    if k.down || cut_until(k) > exec::now() {
        return;
    }
    exec::log(|| format!("tcp #{c} heals"));
    for d in 0..2 {
        let p = &mut conn(c).pipe[d];
        let n = std::mem::take(&mut p.stuck);
        let f = std::mem::take(&mut p.stuck_fin);
        if n > 0 {
            arrive(c, d, n);
        }
        if f {
            arrive_fin(c, d);
        }
    }
}

fn arrive(c: usize, d: usize, n: usize) {
    let k = conn(c);
    if k.down {
        return;
    }
    if cut_until(k) > exec::now() {
        k.pipe[d].stuck += n;
        return;
    }
    if k.closed_at[1 - d].is_some() {
        // data for a closed socket
        exec::stat("tcp.rst");
        reset(c, Some(libc::ECONNRESET), Some(libc::ECONNRESET), "reset: data after close");
        return;
    }
    let p = &mut k.pipe[d];
    let n = n.min(p.queue.len());
    let part: Vec<u8> = p.queue.drain(..n).collect();
    p.buf.extend(part);
    exec::log(|| format!("tcp #{c} {} {n} bytes arrive", ["->", "<-"][d]));
    signal_end(c, 1 - d);
}

fn arrive_fin(c: usize, d: usize) {
    let k = conn(c);
    if k.down {
        return;
    }
    if cut_until(k) > exec::now() {
        k.pipe[d].stuck_fin = true;
        return;
    }
    k.pipe[d].fin = true;
    exec::log(|| format!("tcp #{c} {} end of stream", ["->", "<-"][d]));
    signal_end(c, 1 - d);
}

fn send_fin(c: usize, d: usize) {
    let k = conn(c);
    if k.pipe[d].fin_sent || k.down || k.state != State::Up {
        return;
    }
    k.pipe[d].fin_sent = true;
    let dl = delay();
    let k = conn(c);
    let t = (exec::now() + dl).max(k.pipe[d].last);
    k.pipe[d].last = t;
    exec::at(t, move || arrive_fin(c, d));
}

fn close_end(c: usize, e: usize) {
    let k = conn(c);
    if k.closed_at[e].is_some() {
        return;
    }
    k.closed_at[e] = Some(exec::now());
    k.obj[e] = None;
    match k.state {
        State::Up if !k.down => {
            if !k.pipe[1 - e].buf.is_empty() {
                exec::stat("tcp.rst");
                let t = exec::now() + delay();
                exec::at(t, move || {
                    if cut_until(conn(c)) <= exec::now() {
                        reset(c, Some(libc::ECONNRESET), Some(libc::ECONNRESET), "reset: closed with unread data")
                    }
                });
            } else {
                send_fin(c, e);
            }
        }
        State::Syn => k.state = State::Failed,
        _ => {}
    }
}

fn find_listener(to: SocketAddr) -> Option<u64> {
    let n = ip_node(to.ip())?;
    let w = world();
    if !sim().nodes[n].alive {
        return None;
    }
    w.objs.iter().find(|(_, h)| {
        h.node == n
            && match &h.obj {
                Obj::Listen { local, .. } => {
                    local.port() == to.port() && (local.ip() == to.ip() || (local.ip().is_unspecified() && (local.is_ipv4() == to.is_ipv4() || local.is_ipv6())))
                }
                _ => false,
            }
    })
    .map(|(k, _)| *k)
}

fn fail_connect(c: usize, e: i32) {
    let k = conn(c);
    if k.state != State::Syn {
        return;
    }
    k.state = State::Failed;
    k.err[0] = Some(e);
    k.harmed.get_or_insert(exec::now());
    exec::log(|| format!("tcp #{c} connect fails: {e}"));
    signal_end(c, 0);
}

fn syn(c: usize, attempt: u32) {
    let k = conn(c);
    if k.state != State::Syn {
        return;
    }
    if attempt > 6 {
        exec::stat("fault.tcp_connect_timeout");
        return fail_connect(c, libc::ETIMEDOUT);
    }
    let retry = |c: usize, a: u32| {
        conn(c).harmed.get_or_insert(exec::now());
        let t = exec::now() + (SEC << a);
        exec::at(t, move || syn(c, a + 1));
    };
    if cut_until(k) > exec::now() {
        return retry(c, attempt);
    }
    let to = k.addr[1];
    let Some(l) = find_listener(to) else {
        return fail_connect(c, libc::ECONNREFUSED);
    };
    let Obj::Listen { backlog, max, .. } = &mut world().objs.get_mut(&l).unwrap().obj else { unreachable!() };
    if backlog.len() >= *max {
        exec::stat("fault.tcp_backlog_full");
        return retry(c, attempt);
    }
    backlog.push_back(c);
    conn(c).state = State::Up;
    exec::log(|| format!("tcp #{c} {} -> {} established", conn(c).addr[0], conn(c).addr[1]));
    signal(l);
    signal_end(c, 0);
}

/// Cut every exchange between two nodes for a while.
pub fn part(a: NodeId, b: NodeId, ns: u64) {
    let _k = Kernel::enter();
    let (a, b) = (a.min(b), a.max(b));
    let t = exec::now() + ns;
    world().parted.insert((a, b), t);
    exec::stat("fault.net_partition");
    exec::log(|| format!("PARTITION {a} {b}"));
    for c in 0..world().conns.len() {
        let k = conn(c);
        let (x, y) = (k.node[0].min(k.node[1]), k.node[0].max(k.node[1]));
        if (x, y) == (a, b) && !k.down && k.state == State::Up {
            k.harmed.get_or_insert(exec::now());
            after_cut(c);
        }
    }
}

/// No fault strikes any more; silenced connections stay as they are.
pub fn calm() {
    let _k = Kernel::enter();
    let d = world().cfg.max_delay;
    world().cfg = SockCfg { max_delay: d, ..Default::default() };
    for k in &mut world().conns {
        k.plan = Plan::None;
    }
}

/// The process of a node is gone: the system closes its sockets.
pub fn close_node(n: NodeId) {
    let _k = Kernel::enter();
    for k in &mut world().conns {
        if k.node.contains(&n) && !(k.closed_at[0].is_some() && k.closed_at[1].is_some()) {
            k.harmed.get_or_insert(exec::now());
        }
    }
    let fds: Vec<c_int> = world().fds.iter().filter(|(_, f)| f.1 == n).map(|(k, _)| *k).collect();
    for fd in fds {
        close_fd(fd);
    }
}

fn close_fd(fd: c_int) {
    let w = world();
    let Some((id, _)) = w.fds.remove(&fd) else { return };
    let Some(h) = w.objs.get_mut(&id) else { return };
    h.refs -= 1;
    if h.refs > 0 {
        return;
    }
    let h = w.objs.remove(&id).unwrap();
    for o in w.objs.values_mut() {
        if let Obj::Epoll { watch, ready } = &mut o.obj {
            watch.remove(&id);
            ready.retain(|r| *r != id);
        }
    }
    match h.obj {
        Obj::End { conn, end } => close_end(conn, end),
        Obj::Listen { backlog, .. } => {
            for c in backlog {
                exec::stat("tcp.rst");
                conn(c).closed_at[1] = Some(exec::now());
                reset(c, Some(libc::ECONNRESET), Some(libc::ECONNRESET), "reset: listener closed");
            }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- calls

pub fn socket(domain: c_int, _ty: c_int) -> c_int {
    if !gate() {
        return errno(libc::EIO) as c_int;
    }
    let _k = Kernel::enter();
    if domain != libc::AF_INET && domain != libc::AF_INET6 {
        return errno(libc::EAFNOSUPPORT) as c_int;
    }
    new_fd(Obj::Fresh { local: None, opts: Opts::default() }, my_node(), domain == libc::AF_INET6)
}

pub unsafe fn get_addr(a: *const libc::sockaddr, len: socklen_t) -> R<SocketAddr> {
    if a.is_null() || len < 2 {
        return Err(libc::EINVAL);
    }
    match (*a).sa_family as c_int {
        libc::AF_INET => {
            let s = &*(a as *const libc::sockaddr_in);
            Ok(SocketAddr::new(IpAddr::V4(Ipv4Addr::from(s.sin_addr.s_addr.to_ne_bytes())), u16::from_be(s.sin_port)))
        }
        libc::AF_INET6 => {
            let s = &*(a as *const libc::sockaddr_in6);
            Ok(SocketAddr::new(IpAddr::V6(Ipv6Addr::from(s.sin6_addr.s6_addr)), u16::from_be(s.sin6_port)))
        }
        _ => Err(libc::EAFNOSUPPORT),
    }
}

unsafe fn put_addr(a: SocketAddr, v6: bool, out: *mut libc::sockaddr, len: *mut socklen_t) {
    if out.is_null() || len.is_null() {
        return;
    }
    let a = match (a, v6) {
        (SocketAddr::V4(x), true) => SocketAddr::new(IpAddr::V6(x.ip().to_ipv6_mapped()), x.port()),
        _ => a,
    };
    match a {
        SocketAddr::V4(x) => {
            let mut s: libc::sockaddr_in = std::mem::zeroed();
            s.sin_family = libc::AF_INET as u16;
            s.sin_port = x.port().to_be();
            s.sin_addr.s_addr = u32::from_ne_bytes(x.ip().octets());
            let n = (*len as usize).min(std::mem::size_of_val(&s));
            std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out as *mut u8, n);
            *len = std::mem::size_of_val(&s) as socklen_t;
        }
        SocketAddr::V6(x) => {
            let mut s: libc::sockaddr_in6 = std::mem::zeroed();
            s.sin6_family = libc::AF_INET6 as u16;
            s.sin6_port = x.port().to_be();
            s.sin6_addr.s6_addr = x.ip().octets();
            let n = (*len as usize).min(std::mem::size_of_val(&s));
            std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, out as *mut u8, n);
            *len = std::mem::size_of_val(&s) as socklen_t;
        }
    }
}

pub unsafe fn bind(fd: c_int, a: *const libc::sockaddr, len: socklen_t) -> c_int {
    if !gate() {
        return errno(libc::EIO) as c_int;
    }
    let _k = Kernel::enter();
    let r = (|| {
        let a = get_addr(a, len)?;
        let n = my_node();
        if !a.ip().is_unspecified() && ip_node(a.ip()) != Some(n) {
            return Err(libc::EADDRNOTAVAIL);
        }
        let clash = world().objs.values().any(|h| h.node == n && matches!(&h.obj, Obj::Listen { local, .. } if local.port() == a.port()));
        if clash && a.port() != 0 {
            return Err(libc::EADDRINUSE);
        }
        match obj(fd)? {
            Obj::Fresh { local, .. } => {
                *local = Some(a);
                Ok(0)
            }
            _ => Err(libc::EINVAL),
        }
    })();
    exec::log(|| format!("n{} bind = {r:?}", my_node()));
    ret(r) as c_int
}

pub fn listen(fd: c_int, backlog: c_int) -> c_int {
    if !gate() {
        return errno(libc::EIO) as c_int;
    }
    let _k = Kernel::enter();
    let r = (|| {
        let o = obj(fd)?;
        let Obj::Fresh { local: Some(a), .. } = o else { return Err(libc::EDESTADDRREQ) };
        let a = *a;
        let n = my_node();
        let clash = world().objs.values().any(|h| h.node == n && matches!(&h.obj, Obj::Listen { local, .. } if local.port() == a.port()));
        if clash {
            return Err(libc::EADDRINUSE);
        }
        *o = Obj::Listen { local: a, backlog: VecDeque::new(), max: backlog.clamp(1, 4096) as usize };
        Ok(0)
    })();
    ret(r) as c_int
}

pub unsafe fn connect(fd: c_int, a: *const libc::sockaddr, len: socklen_t) -> c_int {
    if !gate() {
        return errno(libc::EIO) as c_int;
    }
    let _k = Kernel::enter();
    let r = (|| {
        let to = get_addr(a, len)?;
        let n = my_node();
        let id = id_of(fd)?;
        let Obj::Fresh { opts, .. } = obj(fd)? else { return Err(libc::EISCONN) };
        let opts = *opts;
        let Some(peer) = (if to.ip().is_loopback() { Some(n) } else { ip_node(to.ip()) }) else { return Err(libc::ENETUNREACH) };
        let w = world();
        w.next_port = w.next_port.wrapping_add(1 + net(3) as u16) % 20000;
        let from = SocketAddr::new(if to.ip().is_loopback() { to.ip() } else { node_ip(n, to.is_ipv6()) }, 40000 + w.next_port);
        let cfg = w.cfg.clone();
        let cap = [65536usize, 512, 4096, 1 << 20][net(4) as usize].max(if cfg.wide { 32768 } else { 0 });
        let mut k = Conn {
            addr: [from, to],
            node: [n, peer],
            pipe: Default::default(),
            state: State::Syn,
            err: [None, None],
            down: false,
            obj: [Some(id), None],
            closed_at: [None, None],
            cut_until: 0,
            plan: Plan::None,
            harmed: None,
            opened: exec::now(),
            opts: [opts, Opts::default()],
        };
        for p in &mut k.pipe {
            p.cap = cap;
            p.fault_at = usize::MAX;
        }
        let fate = sim().ch.weighted(S::Fault, &[1.0, cfg.p_reset, cfg.p_cut, cfg.p_refuse]);
        let mut refused = false;
        match fate {
            0 => {}
            3 => {
                exec::stat("fault.tcp_refused");
                refused = true;
            }
            f => {
                let d = sim().ch.draw(S::Fault, 2) as usize;
                // somewhere in the first messages; most of them are a few hundred bytes
                let scale = [400u32, 120, 2000, 100_000][sim().ch.draw(S::Fault, 4) as usize];
                k.pipe[d].fault_at = 1 + sim().ch.draw(S::Fault, scale) as usize;
                k.plan = if f == 1 {
                    Plan::Reset
                } else {
                    Plan::Cut([100 * MS, 3 * SEC, 40 * SEC, u64::MAX][sim().ch.draw(S::Fault, 4) as usize])
                };
            }
        }
        let w = world();
        w.conns.push(k);
        let c = w.conns.len() - 1;
        w.objs.get_mut(&id).unwrap().obj = Obj::End { conn: c, end: 0 };
        exec::stat("tcp.connections");
        exec::log(|| format!("tcp #{c} n{n} {from} -> {to} connecting, fate {fate}"));
        let t = exec::now() + delay();
        exec::at(t, move || if refused { fail_connect(c, libc::ECONNREFUSED) } else { syn(c, 0) });
        Err(libc::EINPROGRESS)
    })();
    ret(r) as c_int
}

pub unsafe fn accept(fd: c_int, a: *mut libc::sockaddr, len: *mut socklen_t) -> c_int {
    if !gate() {
        return errno(libc::EIO) as c_int;
    }
    let _k = Kernel::enter();
    let r = (|| {
        let id = id_of(fd)?;
        let v6 = world().objs[&id].v6;
        let p = world().cfg.p_accept;
        let Obj::Listen { backlog, .. } = obj(fd)? else { return Err(libc::EINVAL) };
        if backlog.is_empty() {
            return Err(libc::EAGAIN);
        }
        match sim().ch.weighted(S::Fault, &[1.0, p * 0.5, p * 0.5]) {
            1 => {
                exec::stat("fault.tcp_accept_emfile");
                exec::log(|| "accept: EMFILE".into());
                return Err(libc::EMFILE);
            }
            2 => {
                exec::stat("fault.tcp_accept_aborted");
                let c = backlog.pop_front().unwrap();
                conn(c).closed_at[1] = Some(exec::now());
                reset(c, Some(libc::ECONNRESET), Some(libc::ECONNRESET), "aborted before it was accepted");
                return Err(libc::ECONNABORTED);
            }
            _ => {}
        }
        let c = backlog.pop_front().unwrap();
        let n = my_node();
        let new = new_fd(Obj::End { conn: c, end: 1 }, n, v6);
        let nid = id_of(new).unwrap();
        conn(c).obj[1] = Some(nid);
        put_addr(conn(c).addr[0], v6, a, len);
        exec::log(|| format!("tcp #{c} accepted by n{n}"));
        Ok(new as i64)
    })();
    ret(r) as c_int
}

pub unsafe fn recv(fd: c_int, buf: *mut u8, n: size_t, flags: c_int) -> ssize_t {
    if !gate() {
        return errno(libc::EIO) as ssize_t;
    }
    let _k = Kernel::enter();
    let r = (|| {
        if let Obj::Event { count } = obj(fd)? {
            if *count == 0 {
                return Err(libc::EAGAIN);
            }
            let v = std::mem::take(count).to_ne_bytes();
            std::ptr::copy_nonoverlapping(v.as_ptr(), buf, n.min(8));
            return Ok(8);
        }
        let (c, e) = end_of(fd)?;
        let k = conn(c);
        if k.state == State::Syn {
            return Err(libc::EAGAIN);
        }
        let split = world().cfg.p_split;
        let rx = &mut k.pipe[1 - e];
        if !rx.buf.is_empty() {
            let mut m = n.min(rx.buf.len());
            if m > 1 && split > 0.0 && sim().ch.chance(S::Net, split) {
                exec::stat("fault.tcp_short_read");
                m = 1 + net(m.min(2000) as u32) as usize;
                m = m.min(n).min(rx.buf.len());
                if flags & libc::MSG_PEEK == 0 {
                    // as if the rest had arrived only now
                    let t = exec::now() + 20 * US;
                    exec::at(t, move || signal_end(c, e));
                }
            }
            for i in 0..m {
                *buf.add(i) = rx.buf[i];
            }
            if flags & libc::MSG_PEEK == 0 {
                rx.buf.drain(..m);
                rx.read += m;
                if rx.want_w && space(rx) > 0 {
                    rx.want_w = false;
                    // the window update travels back
                    let t = exec::now() + delay();
                    exec::at(t, move || signal_end(c, 1 - e));
                }
            }
            let h = {
                let s = std::slice::from_raw_parts(buf, m);
                crate::sock::sum(s)
            };
            exec::log(|| format!("tcp #{c} end {e} reads {m} ({h:08x})"));
            return Ok(m as i64);
        }
        if let Some(x) = k.err[e].take() {
            exec::log(|| format!("tcp #{c} end {e} read fails {x}"));
            return Err(x);
        }
        if k.pipe[1 - e].fin || k.down {
            exec::log(|| format!("tcp #{c} end {e} reads end of stream"));
            return Ok(0);
        }
        Err(libc::EAGAIN)
    })();
    ret(r) as ssize_t
}

pub fn sum(b: &[u8]) -> u32 {
    let mut h = 0x811c_9dc5u32;
    for x in b {
        h = (h ^ *x as u32).wrapping_mul(0x0100_0193);
    }
    h
}

pub fn send(fd: c_int, data: &[u8]) -> ssize_t {
    if !gate() {
        return errno(libc::EIO) as ssize_t;
    }
    let _k = Kernel::enter();
    let r = (|| {
        let id = id_of(fd)?;
        if let Obj::Event { count } = obj(fd)? {
            let mut v = [0u8; 8];
            v[..data.len().min(8)].copy_from_slice(&data[..data.len().min(8)]);
            *count = count.saturating_add(u64::from_ne_bytes(v));
            signal(id);
            return Ok(8);
        }
        let (c, e) = end_of(fd)?;
        let k = conn(c);
        if k.state == State::Syn {
            return Err(libc::EAGAIN);
        }
        if let Some(x) = k.err[e].take() {
            exec::log(|| format!("tcp #{c} end {e} write fails {x}"));
            return Err(x);
        }
        if k.down || k.pipe[e].fin_sent || k.state == State::Failed {
            return Err(libc::EPIPE);
        }
        if data.is_empty() {
            return Ok(0);
        }
        let room = space(&k.pipe[e]);
        if room == 0 {
            k.pipe[e].want_w = true;
            return Err(libc::EAGAIN);
        }
        let split = world().cfg.p_split;
        let mut m = data.len().min(room);
        let mut pieces = 1;
        if split > 0.0 && sim().ch.chance(S::Net, split) {
            if m > 1 && net(2) == 1 {
                exec::stat("fault.tcp_short_write");
                m = (1 + net(m.min(2000) as u32) as usize).min(m);
            } else {
                pieces = 2 + net(4) as usize;
                exec::stat("tcp.segmented_writes");
            }
        }
        if m < data.len() {
            k.pipe[e].want_w = true;
            if m < room {
                // a short write although there is room: writable again at once
                let t = exec::now() + 20 * US;
                exec::at(t, move || signal_end(c, e));
            }
        }
        let h = sum(&data[..m]);
        exec::log(|| format!("tcp #{c} end {e} writes {m} of {} ({h:08x})", data.len()));
        k.pipe[e].queue.extend(&data[..m]);
        k.pipe[e].sent.extend_from_slice(&data[..m]);
        let done = k.pipe[e].sent.len();
        let mut left = m;
        for i in 0..pieces {
            let n = if i + 1 == pieces || left <= 1 { left } else { 1 + net((left - 1).min(1 << 20) as u32) as usize };
            left -= n;
            let t = (exec::now() + delay()).max(conn(c).pipe[e].last);
            conn(c).pipe[e].last = t;
            exec::at(t, move || arrive(c, e, n));
            if left == 0 {
                break;
            }
        }
        if done >= conn(c).pipe[e].fault_at {
            conn(c).pipe[e].fault_at = usize::MAX;
            let t = exec::now() + delay();
            match std::mem::replace(&mut conn(c).plan, Plan::None) {
                Plan::None => {}
                Plan::Reset => {
                    exec::stat("fault.tcp_reset");
                    exec::at(t, move || reset(c, Some(libc::ECONNRESET), Some(libc::ECONNRESET), "reset by the network"));
                }
                Plan::Cut(ns) => {
                    exec::stat("fault.tcp_silenced");
                    exec::at(t, move || silence(c, ns));
                }
            }
        }
        let k = conn(c);
        if cut_until(k) > exec::now() {
            let o = k.opts[e];
            let limit = if o.user > 0 { o.user } else { 924 * SEC };
            unacked(c, e, exec::now() + limit);
        }
        Ok(m as i64)
    })();
    ret(r) as ssize_t
}

pub fn shutdown(fd: c_int, how: c_int) -> c_int {
    if !gate() {
        return errno(libc::EIO) as c_int;
    }
    let _k = Kernel::enter();
    let r = (|| {
        let (c, e) = end_of(fd)?;
        if conn(c).down || conn(c).state != State::Up {
            return Err(libc::ENOTCONN);
        }
        if how != libc::SHUT_RD {
            send_fin(c, e);
            signal_end(c, e);
        }
        Ok(0)
    })();
    ret(r) as c_int
}

pub unsafe fn name(fd: c_int, a: *mut libc::sockaddr, len: *mut socklen_t, peer: bool) -> c_int {
    let _k = Kernel::enter();
    let r = (|| {
        let id = id_of(fd)?;
        let v6 = world().objs[&id].v6;
        let x = match obj(fd)? {
            Obj::Fresh { local, .. } if !peer => local.unwrap_or(SocketAddr::new(if v6 { IpAddr::V6(Ipv6Addr::UNSPECIFIED) } else { IpAddr::V4(Ipv4Addr::UNSPECIFIED) }, 0)),
            Obj::Listen { local, .. } if !peer => *local,
            Obj::End { conn: c, end } => {
                let k = conn(*c);
                if peer && (k.state != State::Up || k.down) {
                    return Err(libc::ENOTCONN);
                }
                k.addr[if peer { 1 - *end } else { *end }]
            }
            _ => return Err(libc::ENOTCONN),
        };
        put_addr(x, v6, a, len);
        Ok(0)
    })();
    ret(r) as c_int
}

pub unsafe fn setsockopt(fd: c_int, level: c_int, opt: c_int, v: *const c_void, len: socklen_t) -> c_int {
    let _k = Kernel::enter();
    let r = (|| {
        let x = if len >= 4 && !v.is_null() { *(v as *const c_int) } else { 0 };
        let o = match obj(fd)? {
            Obj::Fresh { opts, .. } => opts,
            Obj::End { conn: c, end } => &mut conn(*c).opts[*end],
            _ => return Ok(0),
        };
        match (level, opt) {
            (libc::SOL_SOCKET, libc::SO_KEEPALIVE) => {
                o.keepalive = x != 0;
                if o.idle == 0 {
                    (o.idle, o.intvl, o.cnt) = (7200 * SEC, 75 * SEC, 9);
                }
            }
            (libc::IPPROTO_TCP, libc::TCP_KEEPIDLE) => o.idle = x as u64 * SEC,
            (libc::IPPROTO_TCP, libc::TCP_KEEPINTVL) => o.intvl = x as u64 * SEC,
            (libc::IPPROTO_TCP, libc::TCP_KEEPCNT) => o.cnt = x as u64,
            (libc::IPPROTO_TCP, libc::TCP_USER_TIMEOUT) => o.user = x as u64 * MS,
            _ => {}
        }
        Ok(0)
    })();
    ret(r) as c_int
}

pub unsafe fn getsockopt(fd: c_int, level: c_int, opt: c_int, v: *mut c_void, len: *mut socklen_t) -> c_int {
    let _k = Kernel::enter();
    let r = (|| {
        let mut x: c_int = 0;
        if level == libc::SOL_SOCKET && opt == libc::SO_ERROR {
            if let Obj::End { conn: c, end } = obj(fd)? {
                x = conn(*c).err[*end].take().unwrap_or(0);
            }
        } else if level == libc::SOL_SOCKET && opt == libc::SO_TYPE {
            x = libc::SOCK_STREAM;
        }
        if !v.is_null() && !len.is_null() && *len >= 4 {
            *(v as *mut c_int) = x;
            *len = 4;
        }
        Ok(0)
    })();
    ret(r) as c_int
}

pub fn close(fd: c_int) -> c_int {
    // the process of a dead node has nothing left to close
    if let Some(h) = exec::me() {
        if sim().helpers[h].frozen {
            return 0;
        }
    }
    let _k = Kernel::enter();
    close_fd(fd);
    0
}

pub fn dup(fd: c_int) -> c_int {
    let _k = Kernel::enter();
    let r = (|| {
        let id = id_of(fd)?;
        let w = world();
        w.objs.get_mut(&id).unwrap().refs += 1;
        w.next_fd += 1;
        let n = SOCK_BASE + w.next_fd;
        let node = w.fds[&fd].1;
        w.fds.insert(n, (id, node));
        Ok(n as i64)
    })();
    ret(r) as c_int
}

pub fn eventfd(v: u32) -> c_int {
    let _k = Kernel::enter();
    new_fd(Obj::Event { count: v as u64 }, my_node(), false)
}

pub fn epoll_create() -> c_int {
    let _k = Kernel::enter();
    new_fd(Obj::Epoll { watch: BTreeMap::new(), ready: Vec::new() }, my_node(), false)
}

pub unsafe fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut libc::epoll_event) -> c_int {
    let _k = Kernel::enter();
    let r = (|| {
        let id = id_of(fd)?;
        let Obj::Epoll { watch, ready } = obj(ep)? else { return Err(libc::EINVAL) };
        match op {
            libc::EPOLL_CTL_DEL => {
                ready.retain(|r| *r != id);
                watch.remove(&id).map(|_| 0).ok_or(libc::ENOENT)
            }
            _ => {
                let new = op == libc::EPOLL_CTL_ADD;
                if new == watch.contains_key(&id) {
                    return Err(if new { libc::EEXIST } else { libc::ENOENT });
                }
                watch.insert(id, ((*ev).events, (*ev).u64));
                let want = (*ev).events | (libc::EPOLLERR | libc::EPOLLHUP) as u32;
                if mask(id) & want != 0 {
                    if !ready.contains(&id) {
                        ready.push(id);
                    }
                    let e = id_of(ep)?;
                    exec::wake_addr(WAIT_KEY + e as usize, usize::MAX);
                }
                Ok(0)
            }
        }
    })();
    ret(r) as c_int
}

pub unsafe fn epoll_wait(ep: c_int, out: *mut libc::epoll_event, max: c_int, timeout: c_int) -> c_int {
    let Some(h) = exec::me() else { return errno(libc::EBADF) as c_int };
    let deadline = (timeout >= 0).then(|| exec::now() + timeout as u64 * MS);
    loop {
        if !exec::park(h) {
            return errno(libc::EBADF) as c_int;
        }
        let key = {
            let _k = Kernel::enter();
            let id = match id_of(ep) {
                Ok(i) => i,
                Err(e) => return errno(e) as c_int,
            };
            let p = world().cfg.p_epoll;
            let Ok(Obj::Epoll { watch, ready }) = obj(ep) else { return errno(libc::EINVAL) as c_int };
            let mut list: Vec<(u64, u32, u64)> = Vec::new();
            ready.retain(|r| {
                let Some((want, data)) = watch.get(r) else { return false };
                let m = mask(*r) & (*want | (libc::EPOLLERR | libc::EPOLLHUP) as u32);
                if m == 0 {
                    return false;
                }
                list.push((*r, m, *data));
                true
            });
            if !list.is_empty() {
                if p > 0.0 && sim().ch.chance(S::Net, p) {
                    if net(8) == 7 {
                        exec::stat("fault.epoll_eintr");
                        return errno(libc::EINTR) as c_int;
                    }
                    // some of the events, in any order
                    for i in (1..list.len()).rev() {
                        let j = net(i as u32 + 1) as usize;
                        list.swap(i, j);
                    }
                    let n = 1 + net(list.len() as u32) as usize;
                    list.truncate(n);
                }
                list.truncate(max.max(1) as usize);
                for (i, (r, m, data)) in list.iter().enumerate() {
                    let level = watch.get(r).map(|x| x.0 & libc::EPOLLET as u32 == 0).unwrap_or(false);
                    if !level {
                        ready.retain(|x| x != r);
                    }
                    *out.add(i) = libc::epoll_event { events: *m, u64: *data };
                }
                let n = list.len();
                exec::log(|| format!("h{h} epoll {n} events"));
                return n as c_int;
            }
            if deadline.map(|d| exec::now() >= d).unwrap_or(false) {
                return 0;
            }
            WAIT_KEY + id as usize
        };
        exec::block(h, key, deadline);
    }
}
