//! Drives the real client against a scripted server over loopback TCP, in one thread:
//! the event-loop future is polled by hand inside a tokio current-thread runtime whose clock
//! is paused, so every poll, wake-up, byte and (virtual) second is observed and ordered.
use crate::dbg::Notif;
use crate::rng::{mix, Rng};
use crate::wire::*;
use futures::channel::mpsc::Receiver;
use futures::Stream;
use ruq::{Client, Notification, Property, PublishBuilder, QoS};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant as StdInstant};

#[derive(Debug, Clone)]
pub enum Fail {
    Violation(String),
    Inconclusive(String),
}
pub type R<T = ()> = Result<T, Fail>;

pub fn viol<T>(s: impl Into<String>) -> R<T> {
    Err(Fail::Violation(s.into()))
}
pub fn ensure(c: bool, s: impl FnOnce() -> String) -> R {
    if c {
        Ok(())
    } else {
        Err(Fail::Violation(s()))
    }
}
pub fn incon(e: impl std::fmt::Display) -> Fail {
    Fail::Inconclusive(e.to_string())
}

// ---------------------------------------------------------------- watchdog slots
pub struct Slot {
    pub in_poll: AtomicBool,
    pub cpu_at_poll: AtomicU64, // ns of thread CPU when the poll began
    pub clock: AtomicU64,       // clockid
    pub scenario: AtomicU64,
    pub entries: AtomicU64,
}
pub fn thread_cpu_ns(clk: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(clk, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
pub fn my_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    c
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
    pub static MY_SLOT: RefCell<Option<Arc<Slot>>> = RefCell::new(None);
}
/// Runs code of the crate under the watchdog.
pub fn watched<T>(f: impl FnOnce() -> T) -> T {
    MY_SLOT.with(|s| {
        if let Some(s) = s.borrow().as_ref() {
            s.cpu_at_poll.store(thread_cpu_ns(s.clock.load(SeqCst) as u32 as libc::clockid_t), SeqCst);
            s.entries.fetch_add(1, SeqCst);
            s.in_poll.store(true, SeqCst);
        }
    });
    let r = f();
    MY_SLOT.with(|s| {
        if let Some(s) = s.borrow().as_ref() {
            s.in_poll.store(false, SeqCst);
        }
    });
    r
}

// ---------------------------------------------------------------- context of one scenario
pub struct Ctx {
    pub prop: &'static str,
    pub idx: u64,
    pub seed: u64,
    pub rng: Rng,
    pub thorough: bool,
    pub slot: Arc<Slot>,
    pub trace: Rc<RefCell<VecDeque<String>>>,
    pub stats: BTreeMap<&'static str, u64>,
    pub sig: Rc<Cell<u64>>,
    /// set by a scenario when it exercised what the property is about
    pub nontrivial: bool,
    pub label: String,
    /// sessions are polled with a new waker each time, and the earlier ones are dead
    pub fresh: bool,
    /// sessions are also polled when nothing asked for it
    pub spurious: bool,
}

impl Ctx {
    pub fn new(prop: &'static str, seed: u64, idx: u64, thorough: bool, slot: Arc<Slot>) -> Self {
        let mut h = mix(seed);
        for b in prop.bytes() {
            h = mix(h ^ b as u64);
        }
        let s = mix(h ^ mix(idx.wrapping_add(77)));
        slot.scenario.store(idx, SeqCst);
        Ctx {
            prop, idx, seed, rng: Rng::new(s), thorough, slot,
            trace: Default::default(), stats: Default::default(), sig: Rc::new(Cell::new(0)),
            nontrivial: false, label: String::new(), fresh: false, spurious: false,
        }
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.stats.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn note(&self, s: String) {
        let mut t = self.trace.borrow_mut();
        if t.len() >= 400 {
            t.pop_front();
        }
        t.push_back(s);
    }
}

pub fn absorb(sig: &Cell<u64>, x: u64) {
    sig.set(mix(sig.get() ^ x));
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ b.len() as u64;
    for c in b.iter().take(4096) {
        h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------- waker
pub struct Flag {
    set: AtomicBool,
    wakes: AtomicU64,
    /// the harness task, while it sleeps in `advance`
    outer: std::sync::Mutex<Option<Waker>>,
    /// number of the waker that counts
    gen: AtomicU64,
    dead_wakes: AtomicU64,
}
/// A waker that only works until the next poll.
struct Once {
    flag: Arc<Flag>,
    gen: u64,
}
impl Wake for Once {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if self.flag.gen.load(SeqCst) == self.gen {
            self.flag.wake_by_ref();
        } else {
            self.flag.dead_wakes.fetch_add(1, SeqCst);
        }
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.wakes.fetch_add(1, SeqCst);
        self.set.store(true, SeqCst);
        if let Some(w) = self.outer.lock().unwrap().take() {
            w.wake();
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Err { kind: Option<std::io::ErrorKind>, text: String },
    Panic(String),
}
impl Outcome {
    pub fn is_err(&self) -> bool {
        matches!(self, Outcome::Err { .. })
    }
}

// ---------------------------------------------------------------- API calls as data
#[derive(Clone, Debug, PartialEq)]
pub enum Pay {
    Text(String),
    Bytes(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Publish { topic: String, payload: Pay, props: Vec<Prop>, qos: u8, set_qos: bool },
    Subscribe(String, u8),
    Unsubscribe(String),
    Disconnect,
}
impl Call {
    pub fn brief(&self) -> String {
        match self {
            Call::Publish { topic, payload, props, qos, .. } => {
                let n = match payload {
                    Pay::Text(s) => s.len(),
                    Pay::Bytes(b) => b.len(),
                };
                format!("publish topic={} qos={} payload={}B props={}", clip(topic), qos, n, props.len())
            }
            Call::Subscribe(t, q) => format!("subscribe {} {}", clip(t), q),
            Call::Unsubscribe(t) => format!("unsubscribe {}", clip(t)),
            Call::Disconnect => "disconnect".into(),
        }
    }
    /// The packet this call must become (identifier filled in by the caller of `same`).
    pub fn matches(&self, p: &CPkt) -> Result<(), String> {
        let exp = match (self, p) {
            (Call::Publish { topic, payload, props, qos, .. }, CPkt::Publish { id, .. }) => {
                let (pfi, bytes) = match payload {
                    Pay::Text(s) => (1, s.as_bytes().to_vec()),
                    Pay::Bytes(b) => (0, b.clone()),
                };
                let mut ps = vec![Prop::Pfi(pfi)];
                ps.extend(props.iter().cloned());
                CPkt::Publish { dup: false, qos: *qos, retain: false, topic: topic.clone(), id: if *qos > 0 { *id } else { 0 }, props: ps, payload: bytes }
            }
            (Call::Subscribe(t, q), CPkt::Subscribe { id, .. }) => CPkt::Subscribe { id: *id, filters: vec![(t.clone(), *q)] },
            (Call::Unsubscribe(t), CPkt::Unsubscribe { id, .. }) => CPkt::Unsubscribe { id: *id, filters: vec![t.clone()] },
            (Call::Disconnect, CPkt::Disconnect { .. }) => CPkt::Disconnect { reason: 0 },
            _ => return Err(format!("call `{}` but the wire shows {}", self.brief(), p.brief())),
        };
        if &exp == p {
            Ok(())
        } else {
            Err(format!("call `{}` expected {} ; wire shows {} ({})", self.brief(), exp.brief(), p.brief(), diff(&exp, p)))
        }
    }
}
fn diff(a: &CPkt, b: &CPkt) -> String {
    match (a, b) {
        (
            CPkt::Publish { dup: d1, qos: q1, retain: r1, topic: t1, props: p1, payload: y1, .. },
            CPkt::Publish { dup: d2, qos: q2, retain: r2, topic: t2, props: p2, payload: y2, .. },
        ) => {
            let mut v = vec![];
            if d1 != d2 { v.push("DUP differs".to_string()) }
            if q1 != q2 { v.push(format!("QoS {} vs {}", q1, q2)) }
            if r1 != r2 { v.push("RETAIN differs".into()) }
            if t1 != t2 { v.push("topic differs".into()) }
            if p1 != p2 { v.push(format!("properties differ: {} vs {}", clip(&format!("{:?}", p1)), clip(&format!("{:?}", p2)))) }
            if y1 != y2 { v.push(format!("payload differs ({} vs {} bytes)", y1.len(), y2.len())) }
            v.join(", ")
        }
        _ => format!("{} vs {}", clip(&format!("{:?}", a)), clip(&format!("{:?}", b))),
    }
}

pub fn to_qos(q: u8) -> QoS {
    match q {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        _ => QoS::ExactlyOnce,
    }
}
pub fn to_property(p: &Prop) -> Property {
    match p {
        Prop::Pfi(v) => Property::PayloadFormatId(*v),
        Prop::Expiry(v) => Property::MessageExpiryInterval(*v),
        Prop::RespTopic(s) => Property::ResponseTopic(s.clone()),
        Prop::Corr(b) => Property::CorrelationData(b.clone()),
        Prop::User(k, v) => Property::UserProperty(k.clone(), v.clone()),
    }
}
pub fn do_call(c: &mut Client, call: &Call) -> bool {
    let small = match call {
        Call::Publish { topic, payload, props, .. } => topic.len() + payload_len(payload) < 2000 && props.len() < 20,
        Call::Subscribe(t, _) | Call::Unsubscribe(t) => t.len() < 2000,
        Call::Disconnect => true,
    };
    if !small {
        return watched(|| do_call_(c, call));
    }
    let (sw, wall, cpu) = (thread_switches(), StdInstant::now(), thread_cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID));
    let ok = watched(|| do_call_(c, call));
    let mut slept = 0;
    if thread_switches() > sw {
        slept = (wall.elapsed().as_nanos() as u64).saturating_sub(thread_cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID) - cpu) / 1_000_000;
    }
    SMALL_CALLS.with(|x| {
        let (n, k, ms) = x.get();
        x.set(if slept >= 5 { (n + 1, k + 1, ms + slept) } else { (n + 1, k, ms) });
    });
    ok
}
thread_local! {
    /// Of the calls this thread made with little data: how many, how many of them slept, how long.
    pub static SMALL_CALLS: std::cell::Cell<(u64, u64, u64)> = const { std::cell::Cell::new((0, 0, 0)) };
}
fn payload_len(p: &Pay) -> usize {
    match p {
        Pay::Text(s) => s.len(),
        Pay::Bytes(b) => b.len(),
    }
}
fn do_call_(c: &mut Client, call: &Call) -> bool {
    // `connect` has no effect, whenever it is called
    let odd = match call {
        Call::Publish { topic, payload, .. } => (topic.len() + 3 * payload_len(payload)) % 11 == 4,
        Call::Subscribe(t, _) | Call::Unsubscribe(t) => t.len() % 11 == 4,
        Call::Disconnect => true,
    };
    if odd {
        c.connect().ok();
    }
    match call {
        Call::Publish { topic, payload, props, qos, set_qos } => {
            let mut b = match payload {
                Pay::Text(s) => PublishBuilder::from_str(topic, s),
                Pay::Bytes(v) => PublishBuilder::from_bytes(topic, v),
            };
            // the position of .qos() in the chain must not matter
            let at = topic.len() % (props.len() + 1);
            // nor a value set before and replaced, nor a copy of the builder that goes another way
            let twist = (topic.len() + payload_len(payload)) % 7;
            if twist == 1 && *set_qos {
                b = b.qos(to_qos((*qos + 1) % 2));
            }
            for (i, p) in props.iter().enumerate() {
                if i == at && *set_qos {
                    b = b.qos(to_qos(*qos));
                }
                b = b.with_property(to_property(p));
            }
            if at == props.len() && *set_qos {
                b = b.qos(to_qos(*qos));
            }
            if twist == 2 {
                let other = b.clone().qos(QoS::AtLeastOnce).with_property(Property::MessageExpiryInterval(5));
                drop(other);
            }
            if twist == 3 {
                b = b.clone();
            }
            c.publish(b).is_ok()
        }
        Call::Subscribe(t, q) => c.subscribe(t, to_qos(*q)).is_ok(),
        Call::Unsubscribe(t) => c.unsubscribe(t).is_ok(),
        Call::Disconnect => c.disconnect().is_ok(),
    }
}

pub fn notif_of(n: Notification) -> Notif {
    match n {
        Notification::ConnAck(c) => Notif { kind: "ConnAck", text: format!("{:?}", c) },
        Notification::SubAck(s) => Notif { kind: "SubAck", text: s },
        Notification::Message(s) => Notif { kind: "Message", text: s },
        Notification::UnsubAck(s) => Notif { kind: "UnsubAck", text: s },
    }
}

// ---------------------------------------------------------------- one session
pub struct Opts {
    /// server does not exist (connection refused)
    pub no_server: bool,
    /// server-side receive buffer, to make the client hit back-pressure
    pub rcvbuf: Option<i32>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { no_server: false, rcvbuf: None }
    }
}

pub struct Sess {
    pub client: Option<Client>,
    pub ev: Option<Ev>,
    pub rx: Option<Receiver<Notification>>,
    listener: Option<TcpListener>,
    pub sock: Option<TcpStream>,
    flag: Arc<Flag>,
    nflag: Arc<Flag>,
    slot: Arc<Slot>,
    trace: Rc<RefCell<VecDeque<String>>>,
    sig: Rc<Cell<u64>>,
    t0: tokio::time::Instant,

    pub outq: VecDeque<Vec<u8>>,
    pub inbuf: Vec<u8>,
    pub read_enabled: bool,
    pub accept_enabled: bool,
    pub consume: bool,
    /// packets from the client, with virtual ms
    pub wire: Vec<(u64, CPkt)>,
    pub bad_wire: Option<String>,
    pub raw_in: u64,
    /// PINGREQs seen, and those answered by `pong`
    pub pings: u64,
    ponged: u64,
    pub srv_eof: bool,
    pub srv_rst: bool,
    pub notifs: Vec<Notif>,
    pub notif_end: bool,
    pub outcome: Option<Outcome>,
    pub outcome_at: u64,
    pub polls: u64,
    polls_since_ext: u64,
    pub max_polls_per_ext: u64,
    pub sent_bytes: u64,
    pub chunks: u64,
    cap: usize,
    cfd: Option<(i32, Ends)>,
    /// the server closes its side when it sees the client's close
    pub auto_close: bool,
    /// a finished event loop is kept around
    /// what the server sends next is still on its way
    pub hold_out: bool,
    /// other parts of the task use up most of its budget
    pub starve: Option<Rng>,
    /// in every poll, and a little is always left
    pub starve_always: bool,
    pub keep_ev: bool,
    kept: Option<Ev>,
    fresh: bool,
    spurious: Option<Rng>,
    pub unasked: u64,
    unasked_any_time: bool,
    /// polls during which the thread was put to sleep
    blocked_polls: u64,
    blocked_ms: u64,
    watch_sleep: bool,
}
/// Voluntary context switches of this thread, so far.
fn thread_switches() -> i64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_THREAD, &mut u);
        u.ru_nvcsw as i64
    }
}
type Ev = Pin<Box<dyn Future<Output = Result<(), (Option<std::io::ErrorKind>, String)>>>>;

pub fn set_opt(fd: i32, level: i32, name: i32, val: i32) {
    unsafe { libc::setsockopt(fd, level, name, &val as *const _ as *const libc::c_void, 4) };
}

#[derive(Debug)]
pub struct TcpCounts {
    /// bytes the peer sent that arrived here
    pub received: u64,
    /// bytes sent, without retransmissions
    pub sent: u64,
    /// bytes written but not yet sent
    pub notsent: u32,
}
pub fn tcp_info(fd: i32) -> Option<TcpCounts> {
    let mut b = [0u8; 256];
    let mut n: libc::socklen_t = 256;
    let r = unsafe { libc::getsockopt(fd, libc::IPPROTO_TCP, libc::TCP_INFO, b.as_mut_ptr() as *mut libc::c_void, &mut n) };
    if r != 0 || n < 216 {
        return None;
    }
    let u64at = |o: usize| u64::from_ne_bytes(b[o..o + 8].try_into().unwrap());
    let u32at = |o: usize| u32::from_ne_bytes(b[o..o + 4].try_into().unwrap());
    Some(TcpCounts { received: u64at(128), sent: u64at(200) - u64at(208), notsent: u32at(144) })
}
type Ends = (SocketAddr, SocketAddr);
/// Both ends of the connected IPv4 socket `fd`, as seen from it.
fn sock_ends(fd: i32) -> Option<Ends> {
    let ask = |f: unsafe extern "C" fn(i32, *mut libc::sockaddr, *mut libc::socklen_t) -> i32| {
        let mut a: libc::sockaddr_in = unsafe { std::mem::zeroed() };
        let mut n = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
        let r = unsafe { f(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut n) };
        if r != 0 || a.sin_family != libc::AF_INET as u16 {
            return None;
        }
        Some(SocketAddr::from((u32::from_be(a.sin_addr.s_addr).to_be_bytes(), u16::from_be(a.sin_port))))
    };
    Some((ask(libc::getsockname)?, ask(libc::getpeername)?))
}
/// The counters of descriptor `fd`, if it still is that connection.
fn tcp_info_of(fd: i32, ends: Ends) -> Option<TcpCounts> {
    if sock_ends(fd)? != ends {
        return None;
    }
    tcp_info(fd)
}
/// The descriptor in this process that is the other end of `server`.
fn find_fd(ends: Ends) -> Option<i32> {
    (3..8000).find(|fd| sock_ends(*fd) == Some(ends))
}

const SPIN_LIMIT: u64 = 20_000;
/// An expectation is given up (violated) only after this long without any progress at all
/// AND this many idle reactor turns AND empty kernel queues.
const IDLE_WALL: Duration = Duration::from_millis(2500);
const IDLE_TURNS: u64 = 600;

/// A listener on a loopback address of its own, so that neither sessions of other processes nor
/// lingering connections of earlier ones get in the way.
pub fn listen() -> std::io::Result<TcpListener> {
    static NEXT: AtomicU64 = AtomicU64::new(0);
    let n = NEXT.fetch_add(1, SeqCst);
    let base = {
        static BASE: std::sync::OnceLock<u64> = std::sync::OnceLock::new();
        *BASE.get_or_init(|| {
            let t = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map_or(0, |d| d.as_nanos() as u64);
            crate::rng::mix(t ^ ((std::process::id() as u64) << 40))
        })
    };
    let x = (base.wrapping_add(n)) % ((254 - 2) * 256 * 254);
    let (a, b, c) = (2 + x / (256 * 254), x / 254 % 256, 1 + x % 254);
    TcpListener::bind((std::net::Ipv4Addr::new(127, a as u8, b as u8, c as u8), 0))
        .or_else(|_| TcpListener::bind("127.0.0.1:0"))
}

/// See `Sess::behind_backlog`.
pub struct Busy {
    l: TcpListener,
    held: Vec<TcpStream>,
}
impl Busy {
    /// The server has time again. Waits (in real time, a second) for the client's kernel to try again.
    pub fn open(self, s: &mut Sess) -> R {
        unsafe { libc::listen(self.l.as_raw_fd(), 64) };
        for _ in &self.held {
            let mut tries = 0;
            while self.l.accept().is_err() {
                tries += 1;
                if tries > 5000 {
                    return Err(incon("the held connections never showed up"));
                }
                std::thread::sleep(Duration::from_micros(200));
            }
        }
        let mut p = libc::pollfd { fd: self.l.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, 40_000) } != 1 {
            return Err(incon("the kernel did not repeat the connection attempt"));
        }
        s.note("the server takes the connection at last".into());
        s.accept_enabled = true;
        Ok(())
    }
}

/// Takes the connections that wait at a non-blocking listener.
pub fn waiting(l: &TcpListener) -> usize {
    let mut n = 0;
    while let Ok((s, _)) = l.accept() {
        let lg = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
        }
        n += 1;
    }
    n
}

impl Sess {
    /// A session towards an address somebody else serves (or does not).
    pub fn new_at(ctx: &Ctx, addr: SocketAddr) -> R<Sess> {
        Ok(Sess::build(ctx, addr, None))
    }
    /// A session towards some form of address; `listener` is where it should connect to.
    pub fn with_address<A>(ctx: &Ctx, addr: A, listener: Option<TcpListener>) -> R<Sess>
    where
        A: ToOwned + 'static,
        A::Owned: tokio::net::ToSocketAddrs + Clone + Send + 'static,
    {
        if let Some(l) = &listener {
            l.set_nonblocking(true).map_err(incon)?;
        }
        Ok(Sess::build(ctx, addr, listener))
    }
    /// A session towards a server too busy to take the connection for now: its backlog is full, SYNs go unheard.
    pub fn behind_backlog(ctx: &Ctx) -> R<(Sess, Busy)> {
        let l = listen().map_err(incon)?;
        // backlog 0 holds one connection
        unsafe { libc::listen(l.as_raw_fd(), 0) };
        let addr = l.local_addr().map_err(incon)?;
        let mut held = vec![];
        for _ in 0..2 {
            if let Ok(c) = TcpStream::connect_timeout(&addr, Duration::from_millis(20)) {
                held.push(c);
            }
        }
        l.set_nonblocking(true).map_err(incon)?;
        let mut s = Sess::build(ctx, addr, Some(l.try_clone().map_err(incon)?));
        s.accept_enabled = false;
        Ok((s, Busy { l, held }))
    }
    pub fn new(ctx: &Ctx, o: Opts) -> R<Sess> {
        let listener = listen().map_err(incon)?;
        listener.set_nonblocking(true).map_err(incon)?;
        if let Some(n) = o.rcvbuf {
            set_opt(listener.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, n);
        }
        let addr: SocketAddr = listener.local_addr().map_err(incon)?;
        let listener = if o.no_server { None } else { Some(listener) };
        Ok(Sess::build(ctx, addr, listener))
    }
    fn build<A>(ctx: &Ctx, addr: A, listener: Option<TcpListener>) -> Sess
    where
        A: ToOwned + 'static,
        A::Owned: tokio::net::ToSocketAddrs + Clone + Send + 'static,
    {
        let (client, ev, rx) = watched(|| Client::new(addr));
        // polled in place, so that a finished event loop can be kept (as in `pin!` and `select!`)
        let mut ev = Box::pin(ev);
        let ev = Box::pin(futures::future::poll_fn(move |cx| {
            ev.as_mut().poll(cx).map(|r| r.map_err(|e| (e.downcast_ref::<std::io::Error>().map(|x| x.kind()), format!("{:#}", e))))
        }));
        let mk = || Arc::new(Flag { set: AtomicBool::new(true), wakes: AtomicU64::new(0), outer: Default::default(), gen: AtomicU64::new(0), dead_wakes: AtomicU64::new(0) });
        Sess {
            client: Some(client), ev: Some(ev), rx: Some(rx), listener, sock: None,
            flag: mk(), nflag: mk(), slot: ctx.slot.clone(), trace: ctx.trace.clone(), sig: ctx.sig.clone(),
            t0: tokio::time::Instant::now(),
            outq: VecDeque::new(), inbuf: vec![], read_enabled: true, accept_enabled: true, consume: true,
            wire: vec![], bad_wire: None, raw_in: 0, pings: 0, ponged: 0, srv_eof: false, srv_rst: false,
            notifs: vec![], notif_end: false, outcome: None, outcome_at: 0,
            polls: 0, polls_since_ext: 0, max_polls_per_ext: 0, sent_bytes: 0, chunks: 0, cap: 400, cfd: None, auto_close: true, starve: None, starve_always: false, hold_out: false, keep_ev: false, kept: None,
            fresh: ctx.fresh, spurious: ctx.spurious.then(|| Rng::new(mix(ctx.seed ^ mix(ctx.idx)))), unasked_any_time: mix(ctx.seed ^ mix(ctx.idx ^ 0x5157)) & 1 == 1, unasked: 0, blocked_polls: 0, blocked_ms: 0, watch_sleep: ctx.prop == "C15",
        }
    }

    /// Keeps only the last `n` trace lines (long histories).
    pub fn trace_cap(&mut self, n: usize) {
        self.cap = n;
    }
    pub fn forget_trace(&mut self) {
        *self.trace.borrow_mut() = Default::default();
    }
    pub fn now(&self) -> u64 {
        (tokio::time::Instant::now() - self.t0).as_millis() as u64
    }
    pub fn note(&self, s: String) {
        let mut t = self.trace.borrow_mut();
        while t.len() >= self.cap {
            t.pop_front();
        }
        t.push_back(format!("[{:>6}ms] {}", self.now(), s));
    }
    pub fn ext(&mut self) {
        self.max_polls_per_ext = self.max_polls_per_ext.max(self.polls_since_ext);
        self.polls_since_ext = 0;
    }

    /// Uses up tokio's cooperative budget but `left`, as another busy part of the same task would.
    fn burn_budget(&mut self, left: usize) {
        let mut cx = Context::from_waker(Waker::noop());
        for _ in left..128 {
            if !tokio::task::coop::has_budget_remaining() {
                return;
            }
            let mut f = std::pin::pin!(tokio::task::coop::consume_budget());
            let _ = f.as_mut().poll(&mut cx);
        }
    }

    fn poll_ev(&mut self) {
        if let Some(r) = self.starve.as_mut() {
            if self.starve_always {
                let left = r.range(1, 3);
                self.burn_budget(left);
            } else if r.chance(2, 3) {
                let left = r.below(5);
                self.burn_budget(left);
            }
        }
        let Some(f) = self.ev.as_mut() else { return };
        let waker: Waker = if self.fresh {
            let gen = self.flag.gen.fetch_add(1, SeqCst) + 1;
            Arc::new(Once { flag: self.flag.clone(), gen }).into()
        } else {
            self.flag.clone().into()
        };
        let mut cx = Context::from_waker(&waker);
        self.polls += 1;
        self.polls_since_ext += 1;
        let (sw, wall, cpu) = (thread_switches(), StdInstant::now(), thread_cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID));
        let r = watched(|| catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx))));
        if thread_switches() > sw {
            let slept = (wall.elapsed().as_nanos() as u64).saturating_sub(thread_cpu_ns(libc::CLOCK_THREAD_CPUTIME_ID) - cpu) / 1_000_000;
            if slept >= 5 {
                self.blocked_polls += 1;
                self.blocked_ms += slept;
            }
        }
        let o = match r {
            Ok(Poll::Pending) => return,
            Ok(Poll::Ready(Ok(()))) => Outcome::Ok,
            Ok(Poll::Ready(Err((kind, text)))) => Outcome::Err { kind, text },
            Err(_) => Outcome::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
        };
        self.note(format!("event loop ends: {:?}", o));
        absorb(&self.sig, match &o { Outcome::Ok => 1, Outcome::Err { .. } => 2, Outcome::Panic(_) => 3 });
        self.outcome = Some(o);
        self.outcome_at = self.now();
        // dropped, as an executor does with a finished future, or still in scope but never polled again
        let ev = self.ev.take();
        if self.keep_ev {
            self.kept = ev;
        }
    }

    fn poll_unasked(&mut self) {
        if self.ev.is_some() {
            self.poll_ev();
            self.polls_since_ext = self.polls_since_ext.saturating_sub(1);
            self.unasked += 1;
        }
    }

    fn broker_io(&mut self) -> bool {
        let mut prog = false;
        if self.sock.is_none() && self.accept_enabled {
            if let Some(l) = &self.listener {
                if let Ok((s, peer)) = l.accept() {
                    let ends = s.local_addr().ok().map(|me| (peer, me));
                    self.cfd = ends.and_then(|e| find_fd(e).map(|fd| (fd, e)));
                    s.set_nonblocking(true).ok();
                    s.set_nodelay(true).ok();
                    let lg = libc::linger { l_onoff: 1, l_linger: 0 };
                    unsafe {
                        libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
                    }
                    set_opt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, 1);
                    self.sock = Some(s);
                    self.ext();
                    prog = true;
                }
            }
        }
        let Some(s) = self.sock.as_mut() else { return prog };
        if self.hold_out {
        } else if let Some(c) = self.outq.front_mut() {
            if c.is_empty() {
                self.outq.pop_front();
                prog = true;
            } else {
                match s.write(c) {
                    Ok(n) => {
                        prog = true;
                        self.sent_bytes += n as u64;
                        self.chunks += 1;
                        if n == c.len() {
                            self.outq.pop_front();
                        } else {
                            c.drain(..n);
                        }
                        self.max_polls_per_ext = self.max_polls_per_ext.max(self.polls_since_ext);
                        self.polls_since_ext = 0;
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {}
                    Err(_) => {
                        // the client is gone; what it wrote before that is still to be read
                        self.outq.clear();
                        prog = true;
                    }
                }
            }
        }
        if self.read_enabled && !self.srv_eof && !self.srv_rst {
            let mut b = [0u8; 65536];
            let mut got = false;
            let mut rounds = 0;
            loop {
                match s.read(&mut b) {
                    Ok(0) => {
                        self.srv_eof = true;
                        prog = true;
                        break;
                    }
                    Ok(n) => {
                        self.inbuf.extend_from_slice(&b[..n]);
                        self.raw_in += n as u64;
                        got = true;
                        rounds += 1;
                        if n < b.len() || rounds >= 64 {
                            break;
                        }
                    }
                    Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                    Err(_) => {
                        self.srv_rst = true;
                        prog = true;
                        break;
                    }
                }
            }
            if got {
                prog = true;
                set_opt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, 1);
                self.ext();
                self.parse_in();
            }
            if prog && self.srv_eof {
                if let (true, Some(s)) = (self.auto_close, &self.sock) {
                    s.shutdown(std::net::Shutdown::Write).ok();
                }
                self.note("server sees the client close".into());
            }
        }
        prog
    }

    fn parse_in(&mut self) {
        let mut at = 0;
        while self.bad_wire.is_none() {
            match parse_client(&self.inbuf[at..]) {
                None => break,
                Some(Ok((p, n))) => {
                    at += n;
                    let t = self.now();
                    self.note(format!("client -> server {}", p.brief()));
                    absorb(&self.sig, hash_bytes(p.brief().as_bytes()));
                    self.pings += matches!(p, CPkt::Pingreq) as u64;
                    self.wire.push((t, p));
                }
                Some(Err(e)) => {
                    self.note(format!("client -> server MALFORMED: {} : {:02x?}", e, &self.inbuf[at..(at + 24).min(self.inbuf.len())]));
                    self.bad_wire = Some(e);
                }
            }
        }
        self.inbuf.drain(..at);
    }

    fn take_notifs(&mut self) -> bool {
        if !self.consume || self.notif_end {
            return false;
        }
        let mut prog = false;
        while let Some(rx) = self.rx.as_mut() {
            let waker: Waker = self.nflag.clone().into();
            let mut cx = Context::from_waker(&waker);
            match Pin::new(rx).poll_next(&mut cx) {
                Poll::Ready(Some(n)) => {
                    let n = notif_of(n);
                    self.note(format!("notified {} {}", n.kind, clip(&n.text)));
                    absorb(&self.sig, hash_bytes(n.text.as_bytes()) ^ 5);
                    self.notifs.push(n);
                    self.ext();
                    prog = true;
                }
                Poll::Ready(None) => {
                    self.notif_end = true;
                    prog = true;
                    break;
                }
                Poll::Pending => break,
            }
        }
        prog
    }
    /// Takes at most `n` notifications now.
    pub fn take_some(&mut self, n: usize) -> usize {
        let mut k = 0;
        while k < n {
            let Some(rx) = self.rx.as_mut() else { break };
            let waker: Waker = self.nflag.clone().into();
            let mut cx = Context::from_waker(&waker);
            match Pin::new(rx).poll_next(&mut cx) {
                Poll::Ready(Some(x)) => {
                    let x = notif_of(x);
                    self.note(format!("notified {} {}", x.kind, clip(&x.text)));
                    absorb(&self.sig, hash_bytes(x.text.as_bytes()) ^ 5);
                    self.notifs.push(x);
                    self.ext();
                    k += 1;
                }
                Poll::Ready(None) => {
                    self.notif_end = true;
                    break;
                }
                Poll::Pending => break,
            }
        }
        k
    }

    /// One reactor turn, one poll if woken, one round of server I/O. True if anything moved.
    pub async fn turn(&mut self) -> R<bool> {
        tokio::task::yield_now().await;
        let mut p = false;
        if self.ev.is_some() && self.flag.set.swap(false, SeqCst) {
            self.poll_ev();
            p = true;
            if !self.unasked_any_time {
                // at once again: nothing has happened since, so this cannot make up for a lost wake-up
                let n = self.spurious.as_mut().map_or(0, |r| if r.chance(1, 2) { r.range(1, 3) } else { 0 });
                for _ in 0..n {
                    self.poll_unasked();
                }
            }
        } else if self.ev.is_some() && self.unasked_any_time && self.spurious.as_mut().map_or(false, |r| r.chance(1, 3)) {
            self.poll_unasked();
        }
        p |= self.broker_io();
        p |= self.take_notifs();
        if let Some(Outcome::Panic(m)) = &self.outcome {
            return viol(format!("the event loop panicked: {}", m));
        }
        if let Some(m) = &self.bad_wire {
            return viol(format!("malformed packet on the wire: {}", m));
        }
        if self.watch_sleep && self.blocked_polls >= 3 && self.blocked_polls * 20 >= self.polls {
            return viol(format!("{} polls of the event loop put their thread to sleep, for {} ms altogether", self.blocked_polls, self.blocked_ms));
        }
        if self.polls_since_ext > SPIN_LIMIT {
            return viol(format!("the event loop is busy-waiting: {} polls without any external event", self.polls_since_ext));
        }
        Ok(p)
    }

    /// Has everything the server wrote reached the client's socket, and everything the client
    /// wrote the server's? Asks the kernel's counters of both sockets (the client's socket lives
    /// in this process too), so delayed acknowledgements do not blur the answer.
    fn kernel_quiet(&self) -> bool {
        let Some(s) = &self.sock else { return true };
        if self.srv_rst || self.srv_eof {
            return true;
        }
        let Some(c) = self.cfd.and_then(|(fd, ends)| tcp_info_of(fd, ends)) else {
            // the client closed its socket: the server has to see that, if it looks
            return !self.read_enabled || self.cfd.is_none();
        };
        let Some(me) = tcp_info(s.as_raw_fd()) else { return true };
        let to_client = if !self.outq.is_empty() {
            true // blocked writing: the client does not drain
        } else {
            c.received >= me.sent || me.notsent > 0
        };
        let to_server = !self.read_enabled || (c.sent <= me.received && c.notsent == 0 && me.received <= self.raw_in);
        to_client && to_server
    }

    /// Everything the server has sent is in the client's socket, or was read from there.
    pub fn arrived(&self) -> bool {
        let (Some(s), true) = (&self.sock, self.outq.is_empty()) else { return false };
        match (self.cfd.and_then(|(fd, ends)| tcp_info_of(fd, ends)), tcp_info(s.as_raw_fd())) {
            (Some(c), Some(me)) => c.received >= me.sent && me.notsent == 0,
            _ => false,
        }
    }

    /// Runs until nothing moves any more.
    pub async fn settle(&mut self) -> R {
        let mut idle = 0u64;
        let st = StdInstant::now();
        loop {
            if self.turn().await? {
                idle = 0;
                continue;
            }
            idle += 1;
            if idle > 2000 && std::env::var("RUQMON_SLOW").is_ok() && !self.kernel_quiet() {
                let c = self.cfd.and_then(|(fd, ends)| tcp_info_of(fd, ends));
                let me = self.sock.as_ref().and_then(|s| tcp_info(s.as_raw_fd()));
                eprintln!("kernel not quiet: client {:?} server {:?} raw_in {} outq {} read {} outcome {:?}", c, me, self.raw_in, self.outq.len(), self.read_enabled, self.outcome);
            }
            if idle >= 4 && (self.kernel_quiet() || idle > 2000) {
                return Ok(());
            }
            if idle % 100 == 60 {
                self.open_window();
            }
            if idle > 50 {
                std::thread::sleep(Duration::from_micros(100));
            }
            if st.elapsed() > Duration::from_secs(120) {
                return Err(Fail::Inconclusive("settle took over 120 s".into()));
            }
        }
    }

    /// Runs until `f` holds. If everything is quiet for long and it still does not: None.
    pub async fn until(&mut self, mut f: impl FnMut(&Sess) -> bool) -> R<bool> {
        let mut idle = 0u64;
        let mut since = StdInstant::now();
        let st = StdInstant::now();
        loop {
            if f(self) {
                return Ok(true);
            }
            if self.turn().await? {
                idle = 0;
                continue;
            }
            if idle == 0 {
                since = StdInstant::now();
            }
            idle += 1;
            if idle > IDLE_TURNS && since.elapsed() > IDLE_WALL {
                return Ok(f(self));
            }
            if idle % 100 == 70 {
                self.open_window();
            }
            if idle > 60 {
                std::thread::sleep(Duration::from_micros(200));
            }
            if st.elapsed() > Duration::from_secs(5) && std::env::var("RUQMON_SLOW").is_ok() {
                eprintln!("slow until: {:?} raw_in {} idle {}", st.elapsed(), self.raw_in, idle);
            }
            if st.elapsed() > Duration::from_secs(200) {
                return Err(Fail::Inconclusive("expectation still moving after 200 s".into()));
            }
        }
    }
    pub async fn expect(&mut self, what: &str, f: impl FnMut(&Sess) -> bool) -> R {
        if self.until(f).await? {
            Ok(())
        } else {
            viol(format!("{}: it never happened (event loop {}, {} client packets, {} notifications so far)", what,
                self.outcome.as_ref().map(|o| format!("ended {:?}", o)).unwrap_or("idle".into()), self.wire.len(), self.notifs.len()))
        }
    }

    // ------------------------------------------------ actions
    pub fn call(&mut self, c: &Call) -> bool {
        let ok = self.client.as_mut().map(|cl| do_call(cl, c)).unwrap_or(false);
        self.note(format!("call {} -> {}", c.brief(), if ok { "Ok" } else { "Err" }));
        absorb(&self.sig, hash_bytes(c.brief().as_bytes()) ^ ok as u64);
        self.ext();
        ok
    }
    pub fn send(&mut self, p: &SPkt) {
        self.note(format!("server -> client {}", clip(&format!("{:?}", p))));
        let b = p.encode();
        absorb(&self.sig, hash_bytes(&b));
        self.outq.push_back(b);
    }
    pub fn send_bytes(&mut self, b: Vec<u8>) {
        self.note(format!("server -> client {} raw bytes {:02x?}", b.len(), &b[..b.len().min(32)]));
        absorb(&self.sig, hash_bytes(&b));
        self.outq.push_back(b);
    }
    /// Lets virtual time pass; every timer fires at its own moment, none is skipped over.
    pub async fn advance(&mut self, ms: u64) -> R {
        self.settle().await?;
        self.ext();
        let target = tokio::time::Instant::now() + Duration::from_millis(ms);
        let mut k = 0u64;
        loop {
            let mut sleep = Box::pin(tokio::time::sleep_until(target));
            let flag = self.flag.clone();
            let done = futures::future::poll_fn(|cx| {
                *flag.outer.lock().unwrap() = Some(cx.waker().clone());
                if flag.set.load(SeqCst) && self.ev.is_some() {
                    return Poll::Ready(false);
                }
                sleep.as_mut().poll(cx).map(|_| true)
            })
            .await;
            *flag.outer.lock().unwrap() = None;
            self.settle().await?;
            if done {
                return Ok(());
            }
            k += 1;
            if k > 1_000_000 {
                return viol("virtual time does not advance: the event loop is woken without end");
            }
        }
    }
    /// Lets virtual time pass for several sessions at once, as `advance` does for one.
    pub async fn advance_all(v: &mut [&mut Sess], ms: u64) -> R {
        for s in v.iter_mut() {
            s.settle().await?;
            s.ext();
        }
        let target = tokio::time::Instant::now() + Duration::from_millis(ms);
        let mut k = 0u64;
        loop {
            let mut sleep = Box::pin(tokio::time::sleep_until(target));
            let flags: Vec<Arc<Flag>> = v.iter().filter(|s| s.ev.is_some()).map(|s| s.flag.clone()).collect();
            let done = futures::future::poll_fn(|cx| {
                for f in &flags {
                    *f.outer.lock().unwrap() = Some(cx.waker().clone());
                }
                if flags.iter().any(|f| f.set.load(SeqCst)) {
                    return Poll::Ready(false);
                }
                sleep.as_mut().poll(cx).map(|_| true)
            })
            .await;
            for f in &flags {
                *f.outer.lock().unwrap() = None;
            }
            for s in v.iter_mut() {
                if done || s.flag.set.load(SeqCst) {
                    s.settle().await?;
                }
            }
            if done {
                return Ok(());
            }
            k += 1;
            if k > 1_000_000 {
                return viol("virtual time does not advance: an event loop is woken without end");
            }
        }
    }
    /// The server answers the PINGREQs it has seen.
    pub async fn pong(&mut self) -> R<u64> {
        let n = self.send_pongs();
        self.settle().await?;
        Ok(n)
    }
    /// The same, without waiting.
    pub fn send_pongs(&mut self) -> u64 {
        let n = self.pings - self.ponged;
        while self.ponged < self.pings {
            self.ponged += 1;
            self.send(&SPkt::Pingresp);
        }
        n
    }
    /// Virtual time passes; the server answers every PINGREQ within 2 s. Only between packets.
    pub async fn pass(&mut self, ms: u64) -> R {
        self.settle().await?;
        self.note(format!("{} ms pass", ms));
        let end = self.now() + ms;
        self.pong().await?;
        while self.now() < end && self.outcome.is_none() {
            let n = (end - self.now()).min(2000);
            self.advance(n).await?;
            self.pong().await?;
        }
        if let Some(o) = &self.outcome {
            return viol(format!("the event loop ended {:?} by itself while time passed and every PINGREQ was answered", o));
        }
        Ok(())
    }
    /// Virtual time passes; the server answers every PINGREQ within 2 s. Only between packets.
    pub async fn pass_some(&mut self, ctx: &mut Ctx) -> R {
        let ms = *ctx.rng.pick(&[10u64, 900, 2500, 5100, 8100, 10_100, 15_100, 20_100, 30_100, 60_100, 61_000, 130_000, 301_000, 700_000]);
        ctx.add("pauses", 1);
        ctx.add("paused_virtual_s", ms / 1000);
        self.pass(ms).await
    }
    /// Virtual time passes but nobody polls the event loop meanwhile.
    pub async fn unpolled(&mut self, ms: u64) {
        self.note(format!("the event loop is not polled for {} ms", ms));
        self.ext();
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
    /// One turn of the server alone.
    pub fn server_turn(&mut self) {
        self.broker_io();
    }
    /// Lets the kernel take more from the client again: a receive window that was kept tiny may
    /// otherwise open by a kilobyte per window probe (200 ms) only, however fast the server reads.
    fn open_window(&self) {
        if let (true, Some(s)) = (self.read_enabled, &self.sock) {
            set_opt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, 4 << 20);
            set_opt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_WINDOW_CLAMP, 1 << 20);
        }
    }
    /// Limits what the kernel buffers for the client.
    pub fn limit_sndbuf(&mut self, n: i32) {
        if let Some((fd, ends)) = self.cfd {
            if sock_ends(fd) == Some(ends) {
                set_opt(fd, libc::SOL_SOCKET, libc::SO_SNDBUF, n);
            }
        }
    }
    /// Limits what the kernel buffers for the server's packets.
    pub fn limit_inbound(&mut self, n: i32) {
        if let Some((fd, ends)) = self.cfd {
            if sock_ends(fd) == Some(ends) {
                set_opt(fd, libc::SOL_SOCKET, libc::SO_RCVBUF, n);
            }
        }
        if let Some(s) = &self.sock {
            set_opt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_SNDBUF, n);
        }
    }
    /// Server bytes the connection has not taken yet.
    pub fn unsent(&self) -> usize {
        self.outq.iter().map(|c| c.len()).sum()
    }
    /// Connections that wait at the listener.
    pub fn waiting_connections(&self) -> usize {
        self.listener.as_ref().map_or(0, waiting)
    }
    pub fn wakes(&self) -> u64 {
        self.flag.wakes.load(SeqCst)
    }
    /// Half-close from the server: the client sees a clean end of stream.
    pub fn close_server(&mut self) {
        self.note("server closes".into());
        absorb(&self.sig, 99);
        if let Some(s) = &self.sock {
            s.shutdown(std::net::Shutdown::Write).ok();
        }
        self.ext();
    }
    pub fn reset_server(&mut self) {
        self.note("server resets".into());
        absorb(&self.sig, 98);
        self.sock = None; // linger 0: RST
        self.accept_enabled = false;
        self.srv_rst = true;
        self.ext();
    }
    pub fn drop_rx(&mut self) {
        self.note("application drops the notification receiver".into());
        self.rx = None;
        self.notif_end = true;
        self.ext();
    }
    pub fn drop_client(&mut self) {
        self.note("application drops its client handle".into());
        self.client = None;
        self.ext();
    }
    pub fn drop_ev(&mut self) {
        self.note("event loop dropped".into());
        self.ev = None;
        self.ext();
    }

    /// Packets from the client other than CONNECT and PINGREQ.
    pub fn traffic(&self) -> Vec<CPkt> {
        self.wire.iter().map(|x| x.1.clone()).filter(|p| !matches!(p, CPkt::Connect { .. } | CPkt::Pingreq)).collect()
    }
    pub fn pubacks(&self) -> usize {
        self.wire.iter().filter(|x| matches!(x.1, CPkt::Puback { .. })).count()
    }

    /// Session with a completed handshake; the CONNACK notification has been consumed.
    pub async fn connected(ctx: &Ctx, o: Opts) -> R<Sess> {
        Sess::connected_with(ctx, o, &SPkt::ok_connack()).await
    }
    pub async fn connected_with(ctx: &Ctx, o: Opts, ack: &SPkt) -> R<Sess> {
        let mut s = Sess::new(ctx, o)?;
        s.handshake(ack).await?;
        Ok(s)
    }
    pub async fn handshake(&mut self, ack: &SPkt) -> R {
        self.expect("CONNECT packet", |s| !s.wire.is_empty()).await?;
        ensure(matches!(self.wire[0].1, CPkt::Connect { .. }), || format!("first packet is {}", self.wire[0].1.brief()))?;
        self.send(ack);
        if self.consume && self.rx.is_some() {
            self.expect("CONNACK notification", |s| !s.notifs.is_empty()).await?;
            crate::dbg::match_notif(&self.notifs[0], ack).map_err(Fail::Violation)?;
        } else {
            self.settle().await?;
        }
        Ok(())
    }

    /// Sends a QoS 1 message and waits for its PUBACK: everything the client wrote in answer to
    /// earlier packets is now on record. Returns how many packets preceded the PUBACK.
    pub async fn fence(&mut self, id: u16) -> R<usize> {
        let before = self.pubacks();
        self.send(&SPkt::fence(id));
        self.expect("PUBACK for the fence message", |s| s.pubacks() > before || s.outcome.is_some()).await?;
        if let Some(o) = &self.outcome {
            return viol(format!("the connection did not survive: event loop ended {:?}", o));
        }
        Ok(self.wire.len() - 1)
    }

    pub fn finish(self, ctx: &mut Ctx) {
        ctx.add("client_packets", self.wire.len() as u64);
        ctx.add("notifications", self.notifs.len() as u64);
        ctx.add("server_bytes", self.sent_bytes);
        ctx.add("server_segments", self.chunks);
        ctx.add("polls", self.polls);
        ctx.max("max_polls_per_external_event", self.max_polls_per_ext.max(self.polls_since_ext));
        ctx.add("sessions", 1);
        ctx.add("polls_that_slept", self.blocked_polls);
        if self.fresh {
            ctx.add("dead_wakers_woken", self.flag.dead_wakes.load(SeqCst));
            ctx.add("unasked_polls", self.unasked);
        }
        match &self.outcome {
            Some(Outcome::Ok) => ctx.add("ended_ok", 1),
            Some(Outcome::Err { .. }) => ctx.add("ended_err", 1),
            _ => {}
        }
        // self is dropped: RST to the client, no TIME_WAIT
    }
}

impl Drop for Sess {
    fn drop(&mut self) {
        self.sock = None;
        self.listener = None;
        self.ev = None;
        self.kept = None;
    }
}
