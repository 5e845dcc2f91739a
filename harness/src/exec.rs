//! The scheduler: one running thread at a time, chosen from the seed.
//!
//! All code under test runs on helper threads. A helper gives control back at every
//! intercepted call (file, contended lock, gateway call), at the end of a task poll and at the end of a
//! blocking job; whoever gives control back runs `pick` to choose what runs next.
//! Global state is touched only by the one thread that holds the baton.

use std::cell::{Cell, UnsafeCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use crate::choices::{Choices, S};
use crate::os::raw;
use crate::vfs::Vfs;

pub type Fut = Pin<Box<dyn Future<Output = ()> + Send>>;
pub type TaskId = usize;
pub type NodeId = usize;

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// Start of simulated wall-clock time (seconds since the epoch).
pub const EPOCH_S: u64 = 1_700_000_000;

thread_local! {
    static HELPER: Cell<usize> = const { Cell::new(usize::MAX) };
    static KERNEL: Cell<u32> = const { Cell::new(0) };
}

pub fn me() -> Option<usize> {
    if KERNEL.with(|k| k.get()) != 0 {
        return None;
    }
    let h = HELPER.with(|h| h.get());
    (h != usize::MAX).then_some(h)
}

/// The helper this thread is, in the simulator's own code as well.
pub fn helper() -> Option<usize> {
    let h = HELPER.with(|h| h.get());
    (h != usize::MAX && active()).then_some(h)
}

pub struct Kernel;
impl Kernel {
    pub fn enter() -> Kernel {
        KERNEL.with(|k| k.set(k.get() + 1));
        Kernel
    }
}
impl Drop for Kernel {
    fn drop(&mut self) {
        KERNEL.with(|k| k.set(k.get() - 1));
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum HState {
    Idle,
    Running,
    Parked,
    Blocked(usize),
    Asleep,
    Dead,
    Exited,
}

pub enum Work {
    Poll(TaskId),
    Drop(Fut),
    Job(NodeId, u64, Box<dyn FnOnce() + Send>),
    Exit,
}

pub struct Helper {
    pub state: HState,
    pub node: NodeId,
    pub frozen: bool,
    pub frozen_calls: u32,
    pub work: Option<Work>,
    pub task: Option<TaskId>,
    pub timed_out: bool,
    pub block_gen: u64,
    baton: Arc<AtomicU32>,
    thread: Option<std::thread::JoinHandle<()>>,
}

#[derive(PartialEq, Eq, Clone, Copy)]
enum TState {
    Idle,
    Ready,
    Polling,
}

struct TaskSlot {
    fut: Option<Fut>,
    node: NodeId,
    state: TState,
    renotify: bool,
    kill: bool,
    waker: Waker,
}

pub struct Node {
    pub alive: bool,
    pub epoch: u64,
    /// Wall clock offset against simulated time, in ns (may be negative).
    pub skew: i64,
    pub faults: bool,
    pub crashable: bool,
    pub disk_full: u32,
    pub name: String,
    /// restart by itself some time after a crash
    pub auto_restart: bool,
    /// (time, skew) history of the wall clock
    pub clock: Vec<(u64, i64)>,
}

#[derive(Clone, Default)]
pub struct FaultCfg {
    pub p_crash: f64,
    pub p_io: f64,
    /// enabled kinds (see os::FaultKind), index = kind
    pub kinds: [bool; 10],
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    Done,
    Deadlock,
    StepCap,
    Stopped,
}

type Event = Box<dyn FnOnce() + Send>;

pub struct Sim {
    pub ch: Choices,
    pub now: u64,
    pub vfs: Vfs,
    pub net: crate::net::Net,
    pub sock: crate::sock::World,
    pub nodes: Vec<Node>,
    pub helpers: Vec<Helper>,
    idle: Vec<usize>,
    last: usize,
    tasks: BTreeMap<TaskId, TaskSlot>,
    next_task: TaskId,
    ready: VecDeque<TaskId>,
    jobs: VecDeque<(NodeId, u64, Box<dyn FnOnce() + Send>)>,
    prio: VecDeque<Work>,
    events: BTreeMap<(u64, u64), Event>,
    next_ev: u64,
    pub steps: u64,
    pub step_cap: u64,
    pub stamp: u64,
    pub p_switch: f64,
    pub step_ns: u64,
    /// Granularity of the wall clock; divides a second.
    pub grain: u64,
    pub root_done: bool,
    pub stop: bool,
    ending: bool,
    pub end: End,
    pub run: u64,
    pub fcfg: FaultCfg,
    pub hash: u64,
    pub trace: Option<Vec<String>>,
    pub stats: BTreeMap<&'static str, u64>,
    pub panics: Vec<(NodeId, String)>,
    pub violations: Vec<Violation>,
    pub leaked: bool,
    pub on_crash: Vec<NodeId>,
    pub switches: u64,
    pub futexes: BTreeMap<usize, u32>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: &'static str,
    pub class: String,
    pub msg: String,
}

pub struct SimCell(UnsafeCell<Option<Box<Sim>>>);
unsafe impl Sync for SimCell {}
static SIM: SimCell = SimCell(UnsafeCell::new(None));
static MAIN: AtomicU32 = AtomicU32::new(0);
static RUN: AtomicU64 = AtomicU64::new(0);
static RT: std::sync::OnceLock<tokio::runtime::Runtime> = std::sync::OnceLock::new();

/// Access the simulation. Only the baton holder may call this; never keep the reference across a park.
#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).as_deref_mut().expect("no simulation") }
}

pub fn active() -> bool {
    unsafe { (*SIM.0.get()).is_some() }
}

pub fn now() -> u64 {
    sim().now
}

pub fn stat(k: &'static str) {
    *sim().stats.entry(k).or_insert(0) += 1;
}

pub fn stat_n(k: &'static str, n: u64) {
    *sim().stats.entry(k).or_insert(0) += n;
}

pub fn draw(s: S, n: u32) -> u32 {
    sim().ch.draw(s, n)
}

pub fn chance(s: S, p: f64) -> bool {
    sim().ch.chance(s, p)
}

pub fn violation(prop: &'static str, class: impl Into<String>, msg: impl Into<String>) {
    let _k = Kernel::enter();
    let v = Violation { prop, class: class.into(), msg: msg.into() };
    log(|| format!("VIOLATION {} {} {}", v.prop, v.class, v.msg));
    let s = sim();
    if s.violations.len() < 50 && !s.violations.iter().any(|o| o.prop == v.prop && o.class == v.class) {
        s.violations.push(v);
    }
}

fn mix(h: u64, b: &[u8]) -> u64 {
    let mut h = h;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    (h ^ 0xff).wrapping_mul(0x0000_0100_0000_01B3)
}

/// Append to the event log (hash always; text when tracing).
pub fn log(f: impl FnOnce() -> String) {
    let _k = Kernel::enter();
    let line = f();
    let s = sim();
    s.hash = mix(s.hash, line.as_bytes());
    let now = s.now;
    if let Some(t) = &mut s.trace {
        if t.len() < 20_000 {
            t.push(format!("{:>12.6} {line}", now as f64 / 1e9));
        }
    }
}

pub fn log_bytes(tag: u64, a: u64, b: &[u8]) {
    let s = sim();
    s.hash = mix(s.hash ^ tag.wrapping_mul(0x9E37_79B9) ^ a.wrapping_mul(0x85EB_CA6B), b);
}

pub fn tracing() -> bool {
    sim().trace.is_some()
}

// ---------------------------------------------------------------- tasks

struct TaskWaker {
    id: TaskId,
    run: u64,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if RUN.load(Ordering::Relaxed) == self.run && active() {
            wake_task(self.id);
        }
    }
}

pub fn wake_task(id: TaskId) {
    let s = sim();
    if let Some(t) = s.tasks.get_mut(&id) {
        match t.state {
            TState::Idle => {
                t.state = TState::Ready;
                s.ready.push_back(id);
            }
            TState::Polling => t.renotify = true,
            TState::Ready => {}
        }
    }
}

/// Start a task on a node.
pub fn spawn(node: NodeId, fut: impl Future<Output = ()> + Send + 'static) -> TaskId {
    let s = sim();
    let id = s.next_task;
    s.next_task += 1;
    let waker = Waker::from(Arc::new(TaskWaker { id, run: s.run }));
    if !s.nodes[node].alive {
        s.prio.push_back(Work::Drop(Box::pin(fut)));
        return id;
    }
    s.tasks.insert(id, TaskSlot { fut: Some(Box::pin(fut)), node, state: TState::Ready, renotify: false, kill: false, waker });
    s.ready.push_back(id);
    id
}

/// Cancel a task: its future is dropped where it stands.
pub fn cancel(id: TaskId) -> bool {
    let s = sim();
    let Some(t) = s.tasks.get_mut(&id) else { return false };
    if t.state == TState::Polling {
        t.kill = true;
        return true;
    }
    let t = s.tasks.remove(&id).unwrap();
    s.ready.retain(|r| *r != id);
    if let Some(f) = t.fut {
        s.prio.push_back(Work::Drop(f));
    }
    true
}

pub fn at(time: u64, f: impl FnOnce() + Send + 'static) {
    let s = sim();
    let k = (time.max(s.now), s.next_ev);
    s.next_ev += 1;
    s.events.insert(k, Box::new(f));
}

pub struct Sleep {
    until: u64,
    armed: bool,
}

pub fn sleep(ns: u64) -> Sleep {
    Sleep { until: now() + ns, armed: false }
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let _k = Kernel::enter();
        if now() >= self.until {
            return Poll::Ready(());
        }
        if !self.armed {
            self.armed = true;
            let w = cx.waker().clone();
            at(self.until, move || w.wake());
        }
        Poll::Pending
    }
}

/// One-shot cell; dropping the sender resolves the receiver with None.
pub struct Tx<T>(Arc<Slot<T>>);
pub struct Rx<T>(Arc<Slot<T>>);
struct Slot<T> {
    v: UnsafeCell<(Option<T>, bool, Option<Waker>)>,
}
unsafe impl<T: Send> Send for Slot<T> {}
unsafe impl<T: Send> Sync for Slot<T> {}

pub fn oneshot<T: Send>() -> (Tx<T>, Rx<T>) {
    let s = Arc::new(Slot { v: UnsafeCell::new((None, false, None)) });
    (Tx(s.clone()), Rx(s))
}

impl<T> Tx<T> {
    pub fn send(self, v: T) {
        unsafe { (*self.0.v.get()).0 = Some(v) };
    }
}
impl<T> Drop for Tx<T> {
    fn drop(&mut self) {
        let c = unsafe { &mut *self.0.v.get() };
        c.1 = true;
        if let Some(w) = c.2.take() {
            w.wake();
        }
    }
}
impl<T> Future for Rx<T> {
    type Output = Option<T>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let c = unsafe { &mut *self.0.v.get() };
        if c.1 {
            return Poll::Ready(c.0.take());
        }
        c.2 = Some(cx.waker().clone());
        Poll::Pending
    }
}

/// Run a future on a node; None if it was cancelled, crashed or panicked.
pub fn call<T: Send + 'static>(node: NodeId, fut: impl Future<Output = T> + Send + 'static) -> (TaskId, Rx<T>) {
    let (tx, rx) = oneshot();
    let id = spawn(node, async move {
        let v = fut.await;
        tx.send(v);
    });
    (id, rx)
}

// ---------------------------------------------------------------- nodes

pub fn add_node(name: &str) -> NodeId {
    let s = sim();
    s.nodes.push(Node {
        alive: true, epoch: 0, skew: 0, faults: false, crashable: false, disk_full: 0,
        name: name.to_string(), auto_restart: false, clock: vec![(0, 0)],
    });
    let id = s.nodes.len() - 1;
    s.vfs.roots.insert(id, vec![]);
    id
}

/// Kill a node: its threads and tasks stop having effects at this instant; only the disk survives.
pub fn crash(node: NodeId) {
    let _k = Kernel::enter();
    let s = sim();
    if !s.nodes[node].alive {
        return;
    }
    log(|| format!("CRASH node {node}"));
    stat("fault.crash");
    s.nodes[node].alive = false;
    s.nodes[node].epoch += 1;
    s.nodes[node].disk_full = 0;
    for i in 0..s.helpers.len() {
        let h = &mut s.helpers[i];
        if h.node == node && !matches!(h.state, HState::Idle | HState::Exited | HState::Dead) {
            h.frozen = true;
            if h.state == HState::Asleep {
                h.state = HState::Parked;
            }
            if let HState::Blocked(_) = h.state {
                // woken spuriously; it will block again only while the lock is held by a live thread
                h.state = HState::Parked;
            }
        }
    }
    s.vfs.close_node(node);
    crate::sock::close_node(node);
    let ids: Vec<TaskId> = s.tasks.iter().filter(|(_, t)| t.node == node).map(|(k, _)| *k).collect();
    for id in ids {
        cancel(id);
    }
    let jobs = std::mem::take(&mut s.jobs);
    for j in jobs {
        if j.0 == node {
            // never started: dropped with the process (leaked, so that no destructor acts)
            std::mem::forget(j);
        } else {
            s.jobs.push_back(j);
        }
    }
    s.on_crash.push(node);
    if s.nodes[node].auto_restart {
        let d = [MS, 100 * MS, 5 * SEC][s.ch.draw(S::Fault, 3) as usize];
        let t = s.now + d;
        at(t, move || restart(node));
    }
}

pub fn set_skew(node: NodeId, skew: i64) {
    let s = sim();
    let now = s.now;
    log(|| format!("CLOCK node {node} skew {skew}"));
    s.nodes[node].skew = skew;
    s.nodes[node].clock.push((now, skew));
}

/// Wall clock of a node in seconds.
pub fn wall(node: NodeId) -> u64 {
    let s = sim();
    (((EPOCH_S * SEC + s.now) as i64 + s.nodes[node].skew).max(0) as u64) / SEC
}

/// Could the node's wall clock have shown `v` seconds at some time in [a, b]?
pub fn wall_possible(node: NodeId, a: u64, b: u64, v: u64) -> bool {
    let c = &sim().nodes[node].clock;
    for (i, (t, skew)) in c.iter().enumerate() {
        let end = c.get(i + 1).map(|x| x.0).unwrap_or(u64::MAX);
        let (lo, hi) = (a.max(*t), b.min(end));
        if lo > hi {
            continue;
        }
        let f = |t: u64| ((EPOCH_S as i128 * SEC as i128 + t as i128 + *skew as i128).max(0) / SEC as i128) as u64;
        if f(lo) <= v && v <= f(hi.min(1 << 62)) {
            return true;
        }
    }
    false
}

pub fn restart(node: NodeId) {
    let s = sim();
    if s.nodes[node].alive {
        return;
    }
    s.nodes[node].alive = true;
    log(|| format!("RESTART node {node}"));
}

pub fn my_node() -> NodeId {
    let h = HELPER.with(|h| h.get());
    if h == usize::MAX { 0 } else { sim().helpers[h].node }
}

// ---------------------------------------------------------------- scheduling

pub enum Next {
    Helper(usize),
    Work(Work),
    End,
}

const MAX_BUSY: usize = 48;

fn pick(me: Option<usize>) -> Next {
    let _k = Kernel::enter();
    let s = sim();
    loop {
        if let Some(w) = s.prio.pop_front() {
            return Next::Work(w);
        }
        if let Some(h) = s.helpers.iter().position(|h| h.frozen && h.state == HState::Parked) {
            return Next::Helper(h);
        }
        if s.ending {
            return Next::End;
        }
        if s.root_done {
            s.end = End::Done;
            return Next::End;
        }
        if s.stop {
            s.end = End::Stopped;
            return Next::End;
        }
        s.steps += 1;
        if s.steps > s.step_cap {
            s.end = End::StepCap;
            return Next::End;
        }
        s.now += s.step_ns;
        while let Some(e) = s.events.first_entry() {
            if e.key().0 > s.now {
                break;
            }
            let f = e.remove();
            f();
        }
        if !s.prio.is_empty() {
            continue;
        }
        let mut hs: Vec<usize> = Vec::new();
        let last = s.last;
        if s.helpers.get(last).map(|h| h.state == HState::Parked).unwrap_or(false) {
            hs.push(last);
        }
        let mut busy = 0;
        for (i, h) in s.helpers.iter().enumerate() {
            if h.state == HState::Parked && i != last {
                hs.push(i);
            }
            if !matches!(h.state, HState::Idle | HState::Exited) && Some(i) != me {
                busy += 1;
            }
        }
        let room = busy < MAX_BUSY;
        let nt = if room { s.ready.len() } else { 0 };
        let nj = if room { s.jobs.len() } else { 0 };
        let n = hs.len() + nt + nj;
        if n == 0 {
            if let Some((k, _)) = s.events.first_key_value() {
                s.now = s.now.max(k.0);
                continue;
            }
            s.end = End::Deadlock;
            return Next::End;
        }
        let p = s.p_switch;
        let c = s.ch.draw_sticky(S::Sched, n as u32, p) as usize;
        if c < hs.len() {
            let h = hs[c];
            if Some(h) != me || h != s.last {
                s.switches += 1;
            }
            s.last = h;
            log_bytes(1, h as u64, &[]);
            return Next::Helper(h);
        }
        s.switches += 1;
        if c < hs.len() + nt {
            let id = s.ready.remove(c - hs.len()).unwrap();
            log_bytes(2, id as u64, &[]);
            if s.tasks.contains_key(&id) {
                return Next::Work(Work::Poll(id));
            }
            continue;
        }
        let (node, ep, f) = s.jobs.remove(c - hs.len() - nt).unwrap();
        log_bytes(3, node as u64, &[]);
        return Next::Work(Work::Job(node, ep, f));
    }
}

fn new_helper() -> usize {
    let _k = Kernel::enter();
    let s = sim();
    let idx = s.helpers.len();
    let baton = Arc::new(AtomicU32::new(0));
    let b2 = baton.clone();
    s.helpers.push(Helper {
        state: HState::Idle, node: 0, frozen: false, frozen_calls: 0, work: None, task: None,
        timed_out: false, block_gen: 0, baton, thread: None,
    });
    let t = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || helper_main(idx, b2))
        .expect("spawn helper");
    s.helpers[idx].thread = Some(t);
    idx
}

fn give(w: Work) -> usize {
    let s = sim();
    let h = match s.idle.pop() {
        Some(h) => h,
        None => new_helper(),
    };
    let s = sim();
    s.helpers[h].work = Some(w);
    s.helpers[h].state = HState::Running;
    s.last = h;
    h
}

fn resume(h: usize) {
    let b = {
        let s = sim();
        s.helpers[h].state = HState::Running;
        Arc::as_ptr(&s.helpers[h].baton)
    };
    raw::post(unsafe { &*b });
}

fn helper_main(idx: usize, baton: Arc<AtomicU32>) {
    raw::wait(&baton);
    HELPER.with(|h| h.set(idx));
    let _enter = RT.get().unwrap().enter();
    loop {
        let w = sim().helpers[idx].work.take();
        match w {
            Some(Work::Exit) => {
                HELPER.with(|h| h.set(usize::MAX));
                sim().helpers[idx].state = HState::Exited;
                raw::post(&MAIN);
                return;
            }
            Some(w) => exec_work(idx, w),
            None => {}
        }
        {
            let s = sim();
            let h = &mut s.helpers[idx];
            h.state = HState::Idle;
            h.frozen = false;
            h.frozen_calls = 0;
            h.node = 0;
            h.task = None;
        }
        match pick(None) {
            Next::Work(w) => {
                let s = sim();
                s.helpers[idx].work = Some(w);
                s.helpers[idx].state = HState::Running;
                s.last = idx;
                continue;
            }
            Next::Helper(o) => {
                sim().idle.push(idx);
                resume(o);
            }
            Next::End => {
                sim().idle.push(idx);
                raw::post(&MAIN);
            }
        }
        raw::wait(&baton);
    }
}

fn exec_work(idx: usize, w: Work) {
    match w {
        Work::Poll(id) => {
            let (mut fut, waker) = {
                let _k = Kernel::enter();
                let s = sim();
                let Some(t) = s.tasks.get_mut(&id) else { return };
                t.state = TState::Polling;
                t.renotify = false;
                let node = t.node;
                let r = (t.fut.take().unwrap(), t.waker.clone());
                let h = &mut s.helpers[idx];
                h.node = node;
                h.task = Some(id);
                r
            };
            let mut cx = Context::from_waker(&waker);
            let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
            let done = !matches!(r, Ok(Poll::Pending));
            let mut dropped = done;
            if !done {
                let _k = Kernel::enter();
                let s = sim();
                let t = s.tasks.get_mut(&id);
                match t {
                    Some(t) if !t.kill => {
                        t.fut = Some(fut);
                        if t.renotify {
                            t.renotify = false;
                            t.state = TState::Ready;
                            s.ready.push_back(id);
                        } else {
                            t.state = TState::Idle;
                        }
                        return;
                    }
                    _ => dropped = true,
                }
            }
            if dropped {
                let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                let _k = Kernel::enter();
                sim().tasks.remove(&id);
            }
        }
        Work::Drop(fut) => {
            {
                let s = sim();
                s.helpers[idx].frozen = true;
            }
            let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
        }
        Work::Job(node, ep, f) => {
            {
                let s = sim();
                s.helpers[idx].node = node;
                if s.nodes[node].epoch != ep {
                    std::mem::forget(f);
                    return;
                }
            }
            let _ = catch_unwind(AssertUnwindSafe(f));
        }
        Work::Exit => {}
    }
}

fn yield_with(h: usize, st: HState) {
    {
        let s = sim();
        s.helpers[h].state = st;
    }
    let next = pick(if st == HState::Parked { Some(h) } else { None });
    match next {
        Next::Helper(o) if o == h => {
            sim().helpers[h].state = HState::Running;
            return;
        }
        Next::Helper(o) => resume(o),
        Next::Work(w) => {
            let o = give(w);
            resume(o);
        }
        Next::End => raw::post(&MAIN),
    }
    let b = Arc::as_ptr(&sim_helper_baton(h));
    raw::wait(unsafe { &*b });
    sim().helpers[h].state = HState::Running;
}

fn sim_helper_baton(h: usize) -> Arc<AtomicU32> {
    sim().helpers[h].baton.clone()
}

/// Scheduling point. Returns false if the caller's node is dead (the call must have no effect).
pub fn park(h: usize) -> bool {
    if sim().helpers[h].frozen {
        return frozen_call(h);
    }
    yield_with(h, HState::Parked);
    if sim().helpers[h].frozen {
        return frozen_call(h);
    }
    true
}

pub fn frozen_call(h: usize) -> bool {
    let s = sim();
    s.helpers[h].frozen_calls += 1;
    if s.helpers[h].frozen_calls > 5_000 {
        // never gives up: abandon the thread
        s.leaked = true;
        yield_with(h, HState::Dead);
        unreachable!();
    }
    false
}

/// Block on an address until woken (or the deadline). Returns true if timed out.
pub fn block(h: usize, addr: usize, deadline: Option<u64>) -> bool {
    let gen = {
        let _k = Kernel::enter();
        let s = sim();
        s.helpers[h].block_gen += 1;
        s.helpers[h].timed_out = false;
        let gen = s.helpers[h].block_gen;
        log_bytes(4, h as u64, &[]);
        stat("sched.lock_waits");
        if let Some(d) = deadline {
            at(d, move || {
                let hh = &mut sim().helpers[h];
                if hh.block_gen == gen && matches!(hh.state, HState::Blocked(_)) {
                    hh.timed_out = true;
                    hh.state = HState::Parked;
                }
            });
        }
        gen
    };
    let _ = gen;
    if sim().helpers[h].frozen {
        let c = &mut sim().helpers[h].frozen_calls;
        *c += 1;
        if *c > 5_000 {
            sim().leaked = true;
            yield_with(h, HState::Dead);
        }
    }
    yield_with(h, HState::Blocked(addr));
    sim().helpers[h].timed_out
}

pub fn wake_addr(addr: usize, n: usize) -> usize {
    let s = sim();
    let mut left = n;
    // which waiter wakes is the scheduler's choice
    while left > 0 {
        let w: Vec<usize> = s.helpers.iter().enumerate().filter(|(_, h)| h.state == HState::Blocked(addr)).map(|(i, _)| i).collect();
        if w.is_empty() {
            break;
        }
        let i = if w.len() > 1 { s.ch.draw(S::Sched, w.len() as u32) as usize } else { 0 };
        s.helpers[w[i]].state = HState::Parked;
        left -= 1;
    }
    n - left
}

pub fn stall(h: usize, ns: u64) {
    let gen = {
        let _k = Kernel::enter();
        let s = sim();
        s.helpers[h].block_gen += 1;
        let gen = s.helpers[h].block_gen;
        let t = s.now + ns;
        at(t, move || {
            let hh = &mut sim().helpers[h];
            if hh.block_gen == gen && hh.state == HState::Asleep {
                hh.state = HState::Parked;
            }
        });
        gen
    };
    let _ = gen;
    yield_with(h, HState::Asleep);
}

fn blocking_hook(job: tokio::hypsim::Job) -> Option<tokio::hypsim::Job> {
    let h = HELPER.with(|h| h.get());
    if h == usize::MAX {
        return Some(job);
    }
    let _k = Kernel::enter();
    let s = sim();
    let node = s.helpers[h].node;
    if s.helpers[h].frozen {
        std::mem::forget(job);
        return None;
    }
    let ep = s.nodes[node].epoch;
    s.jobs.push_back((node, ep, job));
    None
}

/// Run a function on a thread of a node (it may block in simulated calls for as long as it likes).
pub fn thread(node: NodeId, f: impl FnOnce() + Send + 'static) {
    let s = sim();
    let ep = s.nodes[node].epoch;
    s.jobs.push_back((node, ep, Box::new(f)));
}

/// The calling thread belongs to a dead node: what it does from here on never happened.
pub fn ghost() -> bool {
    let h = HELPER.with(|h| h.get());
    h != usize::MAX && sim().helpers[h].frozen
}

fn seed_hook() -> Option<u64> {
    let h = HELPER.with(|h| h.get());
    (h != usize::MAX).then(|| sim().ch.env.next())
}

// ---------------------------------------------------------------- runs

pub struct RunCfg {
    pub seed: u64,
    pub trace: bool,
    pub step_cap: u64,
}

pub struct Outcome {
    pub end: End,
    pub hash: u64,
    pub steps: u64,
    pub switches: u64,
    pub now: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub panics: Vec<(NodeId, String)>,
    pub violations: Vec<Violation>,
    pub trace: Vec<String>,
    pub choices: [Vec<u32>; crate::choices::STREAMS],
    pub leaked: bool,
    pub escapes: Vec<(usize, &'static str, String)>,
}

pub fn init() {
    crate::os::init();
    tokio::hypsim::set_hook(blocking_hook);
    tokio::hypsim::set_seed_hook(seed_hook);
    // process-wide lazy state of the TLS library is set up outside the simulation
    let _ = hyperborealib::http::ReqwestHttpClient::default();
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
    let _ = RT.set(rt);
    std::panic::set_hook(Box::new(|info| {
        let h = HELPER.with(|h| h.get());
        if h == usize::MAX {
            eprintln!("harness panic: {info}");
            return;
        }
        let in_kernel = KERNEL.with(|k| k.get()) > 0;
        let _k = Kernel::enter();
        let s = sim();
        if s.helpers[h].frozen {
            return;
        }
        // panics of the harness's own hooks are not the node's
        let node = if in_kernel { 0 } else { s.helpers[h].node };
        let msg = info.to_string().replace('\n', " ");
        log(|| format!("PANIC node {node}: {msg}"));
        s.panics.push((node, msg));
    }));
}

/// Execute one simulated run; `root` builds the scenario's root task (node 0).
pub fn run<F>(cfg: &RunCfg, choices: Choices, root: F) -> Outcome
where
    F: FnOnce() -> Fut,
{
    let run = RUN.fetch_add(1, Ordering::Relaxed) + 1;
    tokio::hypsim::align_ids();
    let s = Sim {
        ch: choices,
        now: 0,
        vfs: Vfs::new(),
        net: Default::default(),
        sock: Default::default(),
        nodes: Vec::new(),
        helpers: Vec::new(),
        idle: Vec::new(),
        last: usize::MAX,
        tasks: BTreeMap::new(),
        next_task: 0,
        ready: VecDeque::new(),
        jobs: VecDeque::new(),
        prio: VecDeque::new(),
        events: BTreeMap::new(),
        next_ev: 0,
        steps: 0,
        step_cap: cfg.step_cap,
        stamp: 0,
        p_switch: 0.3,
        step_ns: 5 * US,
        grain: 1,
        root_done: false,
        stop: false,
        ending: false,
        end: End::Done,
        run,
        fcfg: FaultCfg::default(),
        hash: 0xcbf2_9ce4_8422_2325,
        trace: cfg.trace.then(Vec::new),
        stats: BTreeMap::new(),
        panics: Vec::new(),
        violations: Vec::new(),
        leaked: false,
        on_crash: Vec::new(),
        switches: 0,
        futexes: BTreeMap::new(),
    };
    unsafe { *SIM.0.get() = Some(Box::new(s)) };
    add_node("harness");
    sim().vfs.roots.remove(&0);
    let f = root();
    spawn(0, async move {
        f.await;
        sim().root_done = true;
    });
    MAIN.store(0, Ordering::SeqCst);
    drive();
    // wind down: nothing has effects any more
    {
        let s = sim();
        s.ending = true;
        for h in &mut s.helpers {
            if !matches!(h.state, HState::Idle | HState::Exited | HState::Dead) {
                h.frozen = true;
                h.state = HState::Parked;
            }
        }
        let ids: Vec<TaskId> = s.tasks.keys().copied().collect();
        for id in ids {
            cancel(id);
        }
        for j in std::mem::take(&mut s.jobs) {
            std::mem::forget(j);
        }
        let evs = std::mem::take(&mut s.events);
        drop(evs);
    }
    drive();
    {
        let s = sim();
        if s.helpers.iter().any(|h| !matches!(h.state, HState::Idle | HState::Exited)) {
            s.leaked = true;
        }
        let n = s.helpers.len();
        for i in 0..n {
            if sim().helpers[i].state == HState::Idle {
                sim().helpers[i].work = Some(Work::Exit);
                MAIN.store(0, Ordering::SeqCst);
                resume(i);
                raw::wait(&MAIN);
                let t = sim().helpers[i].thread.take();
                if let Some(t) = t {
                    let _ = t.join();
                }
            }
        }
    }
    let s = unsafe { (*SIM.0.get()).take().unwrap() };
    Outcome {
        end: s.end,
        hash: mix(s.hash, &s.now.to_le_bytes()),
        steps: s.steps,
        switches: s.switches,
        now: s.now,
        choices: s.ch.consumed(),
        stats: s.stats,
        panics: s.panics,
        violations: s.violations,
        trace: s.trace.unwrap_or_default(),
        leaked: s.leaked,
        escapes: s.vfs.escapes,
    }
}

fn drive() {
    match pick(None) {
        Next::End => {}
        Next::Helper(h) => {
            resume(h);
            raw::wait(&MAIN);
        }
        Next::Work(w) => {
            let h = give(w);
            resume(h);
            raw::wait(&MAIN);
        }
    }
}

pub fn rt() -> &'static tokio::runtime::Runtime {
    RT.get().unwrap()
}
