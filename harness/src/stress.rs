//! Multi-threaded rounds on a real runtime and the real clock. Nothing is steered here: threads
//! race, every call and its return are stamped by one global counter, every packet and every
//! notification is logged, and the recorded history is judged after the round.
use crate::engine::*;
use crate::rng::{mix, Rng};
use crate::wire::*;
use futures::StreamExt;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::mpsc;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Longest time without any progress before a round is called stuck.
const STUCK: Duration = Duration::from_secs(25);

pub struct Round {
    pub verdict: R,
    pub stats: Vec<(&'static str, u64)>,
    pub sig: u64,
    pub sample: String,
}

enum Srv {
    Pkt(CPkt),
    Bad(String),
}

/// Server side: a reader thread with random stalls; it logs packets and answers them.
struct Server {
    log: Arc<Mutex<Vec<CPkt>>>,
    n: Arc<AtomicU64>,
    bad: Arc<Mutex<Option<String>>>,
    eof: Arc<AtomicBool>,
    stalls: Arc<AtomicU64>,
    wr: Arc<Mutex<Option<TcpStream>>>,
    th: Option<std::thread::JoinHandle<()>>,
    stop: Arc<AtomicBool>,
}

fn serve(listener: TcpListener, mut rng: Rng, stall: bool, answer: bool) -> Server {
    let log: Arc<Mutex<Vec<CPkt>>> = Default::default();
    let n: Arc<AtomicU64> = Default::default();
    let bad: Arc<Mutex<Option<String>>> = Default::default();
    let eof: Arc<AtomicBool> = Default::default();
    let stalls: Arc<AtomicU64> = Default::default();
    let wr: Arc<Mutex<Option<TcpStream>>> = Default::default();
    let stop: Arc<AtomicBool> = Default::default();
    let (l, k, b, e, st, w, sp) = (log.clone(), n.clone(), bad.clone(), eof.clone(), stalls.clone(), wr.clone(), stop.clone());
    listener.set_nonblocking(true).ok();
    let th = std::thread::spawn(move || {
        let t0 = Instant::now();
        let mut s = loop {
            match listener.accept() {
                Ok((s, _)) => break s,
                Err(_) if t0.elapsed() < STUCK && !sp.load(SeqCst) => std::thread::sleep(Duration::from_millis(1)),
                Err(_) => return,
            }
        };
        s.set_nonblocking(false).ok();
        s.set_nodelay(true).ok();
        let lg = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe {
            libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &lg as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
        }
        s.set_read_timeout(Some(Duration::from_millis(20))).ok();
        let mut buf: Vec<u8> = vec![];
        let mut tmp = vec![0u8; 65536];
        let mut first = true;
        loop {
            if sp.load(SeqCst) {
                return;
            }
            if stall && rng.chance(1, 40) {
                st.fetch_add(1, SeqCst);
                std::thread::sleep(Duration::from_millis(rng.range(1, 60) as u64));
            }
            let want = if stall { rng.range(1, tmp.len()) } else { tmp.len() };
            let got = match s.read(&mut tmp[..want]) {
                Ok(0) => {
                    s.shutdown(std::net::Shutdown::Both).ok();
                    e.store(true, SeqCst);
                    return;
                }
                Ok(x) => x,
                Err(x) if x.kind() == std::io::ErrorKind::WouldBlock || x.kind() == std::io::ErrorKind::TimedOut => {
                    // see Sess::open_window
                    set_opt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, 4 << 20);
                    set_opt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_WINDOW_CLAMP, 1 << 20);
                    continue;
                }
                Err(_) => {
                    e.store(true, SeqCst);
                    return;
                }
            };
            buf.extend_from_slice(&tmp[..got]);
            let mut at = 0;
            let mut replies: Vec<u8> = vec![];
            loop {
                let r = match parse_client(&buf[at..]) {
                    None => break,
                    Some(Ok((p, k))) => {
                        at += k;
                        Srv::Pkt(p)
                    }
                    Some(Err(m)) => Srv::Bad(m),
                };
                match r {
                    Srv::Bad(m) => {
                        *b.lock().unwrap() = Some(m);
                        return;
                    }
                    Srv::Pkt(p) => {
                        match &p {
                            CPkt::Connect { .. } if first => {
                                first = false;
                                replies.extend(SPkt::ok_connack().encode());
                            }
                            CPkt::Pingreq => replies.extend(SPkt::Pingresp.encode()),
                            p if answer => {
                                if let Some(a) = crate::gen::answer(&mut rng, p) {
                                    replies.extend(a.encode());
                                }
                            }
                            _ => {}
                        }
                        l.lock().unwrap().push(p);
                        k.fetch_add(1, SeqCst);
                    }
                }
            }
            buf.drain(..at);
            let mut w = w.lock().unwrap();
            if w.is_none() {
                if let Ok(c) = s.try_clone() {
                    *w = Some(c);
                }
            }
            if !replies.is_empty() {
                if let Some(x) = w.as_mut() {
                    x.write_all(&replies).ok();
                }
            }
        }
    });
    Server { log, n, bad, eof, stalls, wr, th: Some(th), stop }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, SeqCst);
        *self.wr.lock().unwrap() = None;
        if let Some(t) = self.th.take() {
            t.join().ok();
        }
    }
}

/// Waits for `f`, as long as `progress` keeps changing.
fn wait(mut progress: impl FnMut() -> u64, mut f: impl FnMut() -> bool) -> bool {
    let mut last = progress();
    let mut at = Instant::now();
    loop {
        if f() {
            return true;
        }
        let p = progress();
        if p != last {
            last = p;
            at = Instant::now();
        } else if at.elapsed() > STUCK {
            return f();
        }
        std::thread::sleep(Duration::from_micros(300));
    }
}

struct Called {
    thread: usize,
    k: usize,
    begin: u64,
    end: u64,
    call: Call,
    ok: bool,
}

/// An executor of its own: every poll happens on another thread than the one before, with a new
/// waker, and the wakers of earlier polls are dead.
struct Hop {
    m: Mutex<HopState>,
    cv: std::sync::Condvar,
}
struct HopState {
    woken: bool,
    gen: u64,
    next: usize,
    done: bool,
}
struct HopWaker {
    hop: Arc<Hop>,
    gen: u64,
}
impl std::task::Wake for HopWaker {
    fn wake(self: Arc<Self>) {
        let mut s = self.hop.m.lock().unwrap();
        if s.gen == self.gen {
            s.woken = true;
            self.hop.cv.notify_all();
        }
    }
}
/// Polls by the hopping executor, of all rounds so far.
pub static HOPS: AtomicU64 = AtomicU64::new(0);

fn hopping<F>(ev: F, threads: usize, spurious: bool) -> Result<(), String>
where
    F: std::future::Future<Output = Result<(), String>> + Send + 'static,
{
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().expect("runtime");
    let hop = Arc::new(Hop { m: Mutex::new(HopState { woken: true, gen: 0, next: 0, done: false }), cv: Default::default() });
    let fut = Arc::new(Mutex::new(Some(Box::pin(ev))));
    let res: Arc<Mutex<Option<Result<(), String>>>> = Default::default();
    let mut joins = vec![];
    for me in 0..threads {
        let (hop, fut, res, h) = (hop.clone(), fut.clone(), res.clone(), rt.handle().clone());
        joins.push(std::thread::spawn(move || {
            let _in = h.enter();
            loop {
                let gen = {
                    let mut s = hop.m.lock().unwrap();
                    while !s.done && !(s.woken && s.next == me) {
                        if spurious && s.next == me {
                            // polls for no reason every now and then
                            let (x, t) = hop.cv.wait_timeout(s, Duration::from_millis(3)).unwrap();
                            s = x;
                            if t.timed_out() && s.next == me {
                                break;
                            }
                        } else {
                            s = hop.cv.wait(s).unwrap();
                        }
                    }
                    if s.done {
                        return;
                    }
                    s.woken = false;
                    s.gen += 1;
                    s.gen
                };
                let w: std::task::Waker = Arc::new(HopWaker { hop: hop.clone(), gen }).into();
                let mut cx = std::task::Context::from_waker(&w);
                HOPS.fetch_add(1, SeqCst);
                let r = {
                    let mut f = fut.lock().unwrap_or_else(|e| e.into_inner());
                    let Some(x) = f.as_mut() else { return };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.as_mut().poll(&mut cx)));
                    if !matches!(r, Ok(std::task::Poll::Pending)) {
                        *f = None;
                    }
                    r
                };
                let mut s = hop.m.lock().unwrap();
                s.next = (me + 1) % threads;
                match r {
                    Ok(std::task::Poll::Pending) => {}
                    Ok(std::task::Poll::Ready(x)) => {
                        *res.lock().unwrap() = Some(x);
                        s.done = true;
                    }
                    // left without a result
                    Err(_) => s.done = true,
                }
                hop.cv.notify_all();
            }
        }));
    }
    for j in joins {
        j.join().ok();
    }
    let r = res.lock().unwrap().take();
    match r {
        Some(r) => r,
        None => std::panic::panic_any("a poll panicked".to_string()),
    }
}

fn run_loop<F>(ev: F, workers: usize) -> (std::thread::JoinHandle<()>, Arc<Mutex<Option<Outcome>>>)
where
    F: std::future::Future<Output = Result<(), String>> + Send + 'static,
{
    let out: Arc<Mutex<Option<Outcome>>> = Default::default();
    let o = out.clone();
    let th = std::thread::spawn(move || {
        if workers >= HOP {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| hopping(ev, workers / HOP + 1, workers % HOP == 1)));
            *o.lock().unwrap() = Some(match r {
                Ok(Ok(())) => Outcome::Ok,
                Ok(Err(text)) => Outcome::Err { kind: None, text },
                Err(_) => Outcome::Panic("in a poll".into()),
            });
            return;
        }
        let rt = if workers == 0 {
            tokio::runtime::Builder::new_current_thread().enable_all().build()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build()
        }
        .expect("runtime");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            if workers == 0 {
                rt.block_on(ev)
            } else {
                rt.block_on(async move {
                    match tokio::spawn(ev).await {
                        Ok(r) => r,
                        Err(e) => std::panic::panic_any(format!("{}", e)),
                    }
                })
            }
        }));
        *o.lock().unwrap() = Some(match r {
            Ok(Ok(())) => Outcome::Ok,
            Ok(Err(text)) => Outcome::Err { kind: None, text },
            Err(e) => Outcome::Panic(e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        });
    });
    (th, out)
}

fn seed_of(seed: u64, prop: u64, idx: u64) -> u64 {
    mix(seed ^ mix(prop ^ mix(idx + 1)))
}

const HOP: usize = 100;
const USUAL: &[usize] = &[0, 1, 2, 4];
const HOPPING: &[usize] = &[HOP, HOP + 1, 2 * HOP, 3 * HOP + 1];

pub fn round(prop: &str, seed: u64, idx: u64) -> Round {
    match prop {
        "C10" => c10(seed, idx, USUAL),
        "C11" => c11(seed, idx, USUAL),
        _ => {
            let at = HOPS.load(SeqCst);
            let mut r = if idx % 2 == 0 { c10(seed ^ 0x17, idx, HOPPING) } else { c11(seed ^ 0x17, idx, HOPPING) };
            // rounds run side by side: the largest difference is a bound, not a sum
            r.stats.push(("max_polls_on_changing_threads", HOPS.load(SeqCst) - at));
            r
        }
    }
}

fn c10(seed: u64, idx: u64, kinds: &[usize]) -> Round {
    let mut rng = Rng::new(seed_of(seed, 10, idx));
    let mut stats = vec![];
    let mut sig = 0u64;
    let mut sample = String::new();
    let verdict = (|| -> R {
        let listener = crate::engine::listen().map_err(incon)?;
        let small = rng.chance(1, 2);
        if small {
            set_opt(listener.as_raw_fd(), libc::SOL_SOCKET, libc::SO_RCVBUF, 4096);
        }
        let addr = listener.local_addr().map_err(incon)?;
        let (client, ev, rx) = ruq::Client::new(addr);
        let ev = async move { ev.await.map_err(|e| format!("{:#}", e)) };
        let srv = serve(listener, Rng::new(rng.u64()), rng.chance(2, 3), rng.chance(2, 3));
        let threads = rng.range(2, 8);
        let per = rng.range(60, 400);
        let early = rng.chance(1, 4);
        let seq = Arc::new(AtomicU64::new(1));
        let (tx, results) = mpsc::channel::<Vec<Called>>();
        let workers = *rng.pick(kinds);
        let mut ev = Some(ev);
        let mut lp = None;
        if !early {
            lp = Some(run_loop(ev.take().unwrap(), workers));
        }
        let notes = Arc::new(AtomicU64::new(0));
        let n2 = notes.clone();
        let cons = std::thread::spawn(move || {
            let mut rx = rx;
            futures::executor::block_on(async {
                while rx.next().await.is_some() {
                    n2.fetch_add(1, SeqCst);
                }
            })
        });
        let big = if small { 3000 } else { 300 };
        // one clone per thread, or two handles of which the thread alternates
        let mut joins = vec![];
        for t in 0..threads {
            let mut h = vec![client.clone()];
            if rng.chance(1, 2) {
                h.push(client.clone());
            }
            let mut r = Rng::new(rng.u64());
            let seq = seq.clone();
            let tx = tx.clone();
            joins.push(std::thread::spawn(move || {
                let mut v = Vec::with_capacity(per);
                let hn = h.len();
                for k in 0..per {
                    let tag = format!("{}:{}", t, k);
                    let call = match r.below(12) {
                        0 => Call::Subscribe(tag, (k % 3) as u8),
                        1 => Call::Unsubscribe(tag),
                        x => Call::Publish { topic: tag, payload: Pay::Bytes(vec![(k % 251) as u8; r.below(big)]), props: vec![], qos: (x % 2) as u8, set_qos: true },
                    };
                    let begin = seq.fetch_add(1, SeqCst);
                    let ok = do_call(&mut h[k % hn], &call);
                    let end = seq.fetch_add(1, SeqCst);
                    v.push(Called { thread: t, k, begin, end, call, ok });
                    match r.below(60) {
                        0 => std::thread::sleep(Duration::from_micros(r.range(1, 3000) as u64)),
                        1..=5 => std::thread::yield_now(),
                        _ => {}
                    }
                    if !ok && r.chance(3, 4) {
                        std::thread::sleep(Duration::from_micros(r.range(50, 1500) as u64));
                    }
                }
                tx.send(v).ok();
            }));
        }
        drop(tx);
        if early {
            std::thread::sleep(Duration::from_millis(rng.below(4) as u64));
            lp = Some(run_loop(ev.take().unwrap(), workers));
        }
        let (th, out) = lp.unwrap();
        let mut calls: Vec<Called> = vec![];
        for _ in 0..threads {
            match results.recv_timeout(Duration::from_secs(90)) {
                Ok(v) => calls.extend(v),
                Err(_) => return viol("a calling thread did not return from its calls within 90 s: it never happened"),
            }
        }
        for j in joins {
            j.join().ok();
        }
        let ok: usize = calls.iter().filter(|c| c.ok).count();
        // then disconnect, retried while the queue is full
        let mut client = client;
        let t0 = Instant::now();
        while client.disconnect().is_err() {
            if out.lock().unwrap().is_some() || t0.elapsed() > STUCK {
                break;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        let prog = || srv.n.load(SeqCst) + notes.load(SeqCst);
        let done = wait(prog, || out.lock().unwrap().is_some());
        if !done {
            return viol(format!("event loop to finish after disconnect: it never happened ({} packets arrived, {} calls accepted)", srv.n.load(SeqCst), ok));
        }
        th.join().ok();
        let eof = wait(prog, || srv.eof.load(SeqCst) || srv.bad.lock().unwrap().is_some());
        cons.join().ok();
        let o = out.lock().unwrap().clone();
        if let Some(Outcome::Panic(m)) = &o {
            return viol(format!("the event loop panicked: {}", m));
        }
        if let Some(m) = srv.bad.lock().unwrap().as_ref() {
            return viol(format!("malformed packet on the wire: {}", m));
        }
        ensure(o == Some(Outcome::Ok), || format!("event loop ended {:?} although the server was well-behaved", o))?;
        ensure(eof, || "the TCP connection to be closed: it never happened".into())?;
        // ---- offline check of the recorded history
        let log = srv.log.lock().unwrap().clone();
        stats.push(("accepted", ok as u64));
        stats.push(("refused", (calls.len() - ok) as u64));
        stats.push(("client_packets", log.len() as u64));
        stats.push(("stalls", srv.stalls.load(SeqCst)));
        stats.push(("threads_run", threads as u64));
        let pk: Vec<&CPkt> = log.iter().filter(|p| !matches!(p, CPkt::Connect { .. } | CPkt::Pingreq | CPkt::Puback { .. })).collect();
        ensure(matches!(pk.last(), Some(CPkt::Disconnect { .. })), || format!("last packet is {}, not DISCONNECT", pk.last().map(|p| p.brief()).unwrap_or_default()))?;
        let tag_of = |p: &CPkt| -> Option<String> {
            match p {
                CPkt::Publish { topic, .. } => Some(topic.clone()),
                CPkt::Subscribe { filters, .. } => filters.first().map(|f| f.0.clone()),
                CPkt::Unsubscribe { filters, .. } => filters.first().cloned(),
                _ => None,
            }
        };
        let mut at = std::collections::HashMap::new();
        for (i, c) in calls.iter().enumerate() {
            at.insert(format!("{}:{}", c.thread, c.k), i);
        }
        let mut order: Vec<usize> = vec![];
        let mut seen = vec![false; calls.len()];
        for (i, p) in pk[..pk.len() - 1].iter().enumerate() {
            let Some(j) = tag_of(p).and_then(|t| at.get(&t).copied()) else { return viol(format!("packet #{} {} stems from no call", i, p.brief())) };
            let c = &calls[j];
            ensure(c.ok, || format!("call `{}` was refused but its packet is on the wire", c.call.brief()))?;
            ensure(!seen[j], || format!("call `{}` was sent twice", c.call.brief()))?;
            seen[j] = true;
            c.call.matches(p).map_err(Fail::Violation)?;
            order.push(j);
        }
        if let Some(j) = (0..calls.len()).find(|j| calls[*j].ok && !seen[*j]) {
            return viol(format!("call `{}` was accepted but never sent ({} of {} accepted calls arrived before DISCONNECT)", calls[j].call.brief(), order.len(), ok));
        }
        let mut min_ret = u64::MAX;
        let mut min_j = 0;
        let mut switches = 0u64;
        for w in order.windows(2) {
            if calls[w[0]].thread != calls[w[1]].thread {
                switches += 1;
            }
        }
        for &j in order.iter().rev() {
            let c = &calls[j];
            ensure(min_ret > c.begin, || {
                let d = &calls[min_j];
                format!("order: `{}` returned (stamp {}) before `{}` began (stamp {}), but was sent after it", d.call.brief(), d.end, c.call.brief(), c.begin)
            })?;
            if c.end < min_ret {
                min_ret = c.end;
                min_j = j;
            }
            sig = mix(sig ^ (c.thread as u64) << 32 ^ c.k as u64);
        }
        stats.push(("thread_switches_on_wire", switches));
        sample = format!("stress round {}: {} threads x {} calls, runtime workers {}, {} accepted, {} refused, {} thread switches on the wire, {} server stalls", idx, threads, per, workers, ok, calls.len() - ok, switches, srv.stalls.load(SeqCst));
        Ok(())
    })();
    Round { verdict, stats, sig, sample }
}

fn c11(seed: u64, idx: u64, kinds: &[usize]) -> Round {
    let mut rng = Rng::new(seed_of(seed, 11, idx));
    let mut stats = vec![];
    let mut sig = 0u64;
    let mut sample = String::new();
    let verdict = (|| -> R {
        let listener = crate::engine::listen().map_err(incon)?;
        let addr = listener.local_addr().map_err(incon)?;
        let (client, ev, rx) = ruq::Client::new(addr);
        let ev = async move { ev.await.map_err(|e| format!("{:#}", e)) };
        let srv = serve(listener, Rng::new(rng.u64()), false, false);
        let workers = *rng.pick(kinds);
        let (th, out) = run_loop(ev, workers);
        let total = rng.range(200, 2500);
        // consumer thread
        let got: Arc<Mutex<Vec<crate::dbg::Notif>>> = Default::default();
        let count = Arc::new(AtomicU64::new(0));
        let (g, k) = (got.clone(), count.clone());
        let mut cr = Rng::new(rng.u64());
        let pace = rng.below(4);
        let mut budget = Duration::from_millis(1500); // total time the consumer may sleep
        let cons = std::thread::spawn(move || {
            let mut rx = rx;
            futures::executor::block_on(async {
                while let Some(n) = rx.next().await {
                    g.lock().unwrap().push(notif_of(n));
                    k.fetch_add(1, SeqCst);
                    let z = match pace {
                        0 => 0,
                        1 => cr.below(300),
                        2 => if cr.chance(1, 40) { cr.range(1000, 30_000) } else { 0 },
                        _ => if cr.chance(1, 200) { cr.range(1000, 150_000) } else { 0 },
                    };
                    let z = Duration::from_micros(z as u64).min(budget);
                    budget -= z;
                    if z > Duration::ZERO {
                        std::thread::sleep(z);
                    }
                }
            })
        });
        if !wait(|| srv.n.load(SeqCst), || srv.wr.lock().unwrap().is_some()) {
            return viol("CONNECT packet: it never happened");
        }
        // producer thread: the server's packets, in random segments
        let mut sent = vec![SPkt::ok_connack()];
        let mut bytes: Vec<u8> = vec![];
        for i in 0..total {
            let p = match rng.below(10) {
                0 => SPkt::Suback { id: (rng.below(65535) + 1) as u16, reason: 0, props: vec![AckProp::Reason(format!("n{}", i))] },
                1 => SPkt::Unsuback { id: (rng.below(65535) + 1) as u16, reason: 0, props: vec![AckProp::Reason(format!("n{}", i))] },
                2 => SPkt::Pingresp,
                x => SPkt::Publish(SPublish { dup: false, qos: (x % 2) as u8, retain: false, topic: "t".into(), id: (i + 1) as u16, props: vec![], payload: format!("{}", i).into_bytes() }),
            };
            bytes.extend(p.encode());
            sent.push(p);
        }
        let mut w = srv.wr.lock().unwrap().as_ref().unwrap().try_clone().map_err(incon)?;
        let mut pr = Rng::new(rng.u64());
        let seg = *pr.pick(&[7usize, 200, 4000, 60_000]);
        let wrote = Arc::new(AtomicU64::new(0));
        let wr2 = wrote.clone();
        let prod = std::thread::spawn(move || {
            let mut at = 0;
            while at < bytes.len() {
                let n = pr.range(1, seg).min(bytes.len() - at);
                if w.write_all(&bytes[at..at + n]).is_err() {
                    return;
                }
                wr2.fetch_add(n as u64, SeqCst);
                at += n;
                if pr.chance(1, 50) {
                    std::thread::sleep(Duration::from_micros(pr.range(1, 2000) as u64));
                }
            }
        });
        // caller threads at the same time
        let callers = rng.below(3);
        let mut joins = vec![];
        let seq = Arc::new(AtomicU64::new(0));
        for t in 0..callers {
            let mut h = client.clone();
            let seq = seq.clone();
            let mut r = Rng::new(rng.u64());
            joins.push(std::thread::spawn(move || {
                let mut v = vec![];
                for k in 0..60 {
                    let c = crate::gen::tagged(&format!("{}:{}", t, k), 0);
                    if do_call(&mut h, &c) {
                        seq.fetch_add(1, SeqCst);
                        v.push(c);
                    }
                    std::thread::sleep(Duration::from_micros(r.below(2000) as u64));
                }
                v
            }));
        }
        let want = n_notif(&sent);
        let prog = || srv.n.load(SeqCst) + count.load(SeqCst) + wrote.load(SeqCst);
        let fine = wait(prog, || count.load(SeqCst) >= want as u64 || out.lock().unwrap().is_some());
        let mut accepted = vec![];
        for j in joins {
            accepted.push(j.join().unwrap_or_default());
        }
        let n_acc: usize = accepted.iter().map(|v| v.len()).sum();
        let q = sent.iter().filter(|p| matches!(p, SPkt::Publish(x) if x.qos == 1)).count();
        let complete = wait(prog, || {
            let l = srv.log.lock().unwrap();
            (l.iter().filter(|p| matches!(p, CPkt::Puback { .. })).count() >= q && l.iter().filter(|p| matches!(p, CPkt::Publish { .. })).count() >= n_acc) || out.lock().unwrap().is_some()
        });
        // end of session by a close of the server's sending side
        if let Some(w) = srv.wr.lock().unwrap().as_ref() {
            w.shutdown(std::net::Shutdown::Write).ok();
        }
        let ended = wait(prog, || out.lock().unwrap().is_some());
        prod.join().ok();
        let o = out.lock().unwrap().clone();
        if let Some(Outcome::Panic(m)) = &o {
            return viol(format!("the event loop panicked: {}", m));
        }
        if let Some(m) = srv.bad.lock().unwrap().as_ref() {
            return viol(format!("malformed packet on the wire: {}", m));
        }
        ensure(fine, || format!("{} notifications: it never happened (stuck at {})", want, count.load(SeqCst)))?;
        ensure(complete, || "all PUBACKs and calls on the wire: it never happened".into())?;
        ensure(ended, || "the event loop to finish after the server closed: it never happened".into())?;
        ensure(o == Some(Outcome::Ok), || format!("event loop ended {:?}", o))?;
        th.join().ok();
        cons.join().ok();
        let got = got.lock().unwrap().clone();
        let exp: Vec<&SPkt> = sent.iter().filter(|p| crate::dbg::notifies(p)).collect();
        for (i, p) in exp.iter().enumerate() {
            match got.get(i) {
                None => return viol(format!("notification #{} of {} was lost", i, exp.len())),
                Some(n) => crate::dbg::match_notif(n, p).map_err(|e| Fail::Violation(format!("notification #{}: {}", i, e)))?,
            }
        }
        ensure(got.len() == exp.len(), || format!("{} notifications for {} packets", got.len(), exp.len()))?;
        let log = srv.log.lock().unwrap().clone();
        let acks: Vec<u16> = log.iter().filter_map(|p| if let CPkt::Puback { id, .. } = p { Some(*id) } else { None }).collect();
        let wantq: Vec<u16> = sent.iter().filter_map(|p| match p { SPkt::Publish(x) if x.qos == 1 => Some(x.id), _ => None }).collect();
        ensure(acks == wantq, || format!("PUBACKs differ: {} sent for {} messages", acks.len(), wantq.len()))?;
        for (t, v) in accepted.iter().enumerate() {
            let pre = format!("t/{}:", t);
            let tags: Vec<String> = log.iter().filter_map(|p| match p { CPkt::Publish { topic, .. } if topic.starts_with(&pre) => Some(topic.clone()), _ => None }).collect();
            let exp: Vec<String> = v.iter().map(|c| match c { Call::Publish { topic, .. } => topic.clone(), _ => String::new() }).collect();
            ensure(tags == exp, || format!("calls of thread {} on the wire: {:?} instead of {:?}", t, tags, exp))?;
        }
        for p in &log {
            sig = mix(sig ^ hash_bytes(p.brief().as_bytes()));
        }
        sig = mix(sig ^ total as u64);
        stats.push(("notifications", got.len() as u64));
        stats.push(("client_packets", log.len() as u64));
        stats.push(("threads_run", 3 + callers as u64));
        sample = format!("stress round {}: {} notifications to a consumer of pace {}, {} caller threads, runtime workers {}", idx, got.len(), pace, callers, workers);
        Ok(())
    })();
    Round { verdict, stats, sig, sample }
}
fn n_notif(sent: &[SPkt]) -> usize {
    sent.iter().filter(|p| crate::dbg::notifies(p)).count()
}
