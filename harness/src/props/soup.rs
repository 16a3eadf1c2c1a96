//! A random walk of one session through everything it can do, in any combination, with a model of
//! the whole session beside it. Used by several properties; each looks at its own part of the model.
use super::*;
use crate::props::c05::{bad_packet, BAD_KINDS};
use std::collections::{HashMap, HashSet};

/// What went wrong, and the properties whose business it is (none: everybody's).
type S<T = ()> = Result<T, (&'static [&'static str], Fail)>;

trait Of<T> {
    /// a failure that is the business of these properties
    fn of(self, who: &'static [&'static str]) -> S<T>;
}
impl<T> Of<T> for R<T> {
    fn of(self, who: &'static [&'static str]) -> S<T> {
        self.map_err(|e| (who, e))
    }
}
const ALL: &[&str] = &[];
const CALLS: &[&str] = &["C01", "C10"];
const NOTIFS: &[&str] = &["C03", "C11"];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Call,
    Burst,
    Refused,
    Packet,
    Answer,
    AnswerAll,
    Stray,
    Pause,
    Late,
    Stall,
    Resume,
    Take,
    Deafen,
    Unread,
    Read,
    Clone,
    DropOne,
    DropAll,
    Turns,
    Starve,
    /// a PINGREQ is under way
    Await,
    Flood,
    Held,
    Sync,
}
const OPS: &[(Op, usize)] = &[
    (Op::Call, 10), (Op::Burst, 2), (Op::Refused, 1), (Op::Packet, 12), (Op::Answer, 6), (Op::AnswerAll, 2), (Op::Stray, 3),
    (Op::Pause, 3), (Op::Late, 1), (Op::Stall, 2), (Op::Resume, 3), (Op::Take, 3), (Op::Deafen, 1), (Op::Unread, 2), (Op::Read, 3),
    (Op::Clone, 2), (Op::DropOne, 1), (Op::DropAll, 1), (Op::Turns, 10), (Op::Starve, 1), (Op::Await, 3), (Op::Flood, 1), (Op::Held, 1), (Op::Sync, 3),
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    Pub1,
    Pub2,
    Sub,
    Unsub,
}

struct M {
    s: Sess,
    clones: Vec<ruq::Client>,
    alone: bool,
    deaf: bool,
    calls: Vec<Call>,
    sent: Vec<SPkt>,
    /// wire packets looked at by `watch`
    seen: usize,
    /// calls compared with their packets
    checked: usize,
    /// requests on the wire without an answer
    out: HashMap<u16, Kind>,
    /// those that may have been answered, by an acknowledgement sent before they were seen
    doubtful: HashSet<u16>,
    /// acknowledgements on their way that answered nothing the server had seen
    early: HashSet<(u16, Kind)>,
    /// in the order they were made
    order: Vec<u16>,
    /// virtual time spent since the server stopped reading
    unread_ms: u64,
    /// ranges of virtual time in which something held up the client
    held: Vec<(u64, u64)>,
    held_since: Option<u64>,
    up_at: u64,
}

pub async fn soup(ctx: &mut Ctx) -> R {
    match walk(ctx).await {
        Ok(()) => {
            ctx.add("walks", 1);
            Ok(())
        }
        Err((who, Fail::Violation(m))) => {
            if who.is_empty() || ctx.prop == "C17" || who.contains(&ctx.prop) {
                Err(Fail::Violation(m))
            } else {
                if std::env::var("RUQMON_SLOW").is_ok() {
                    eprintln!("scenario {}: the business of {:?}: {}", ctx.idx, who, m);
                }
                ctx.note(format!("the business of {:?}: {}", who, m));
                ctx.add("walks_left_to_others", 1);
                Ok(())
            }
        }
        Err((_, e)) => Err(e),
    }
}

async fn walk(ctx: &mut Ctx) -> S {
    // every walk has its own mixture
    let mut w: Vec<(Op, usize)> = vec![];
    for (op, n) in OPS {
        let k = match ctx.rng.below(4) {
            0 => 0,
            1 => *n,
            2 => n * 3,
            _ => n * 2,
        };
        w.push((*op, k));
    }
    w.push((Op::Turns, 5));
    let total: usize = w.iter().map(|x| x.1).sum();
    let opts = Opts { rcvbuf: if ctx.rng.chance(1, 5) { Some(4096) } else { None }, ..Opts::default() };
    let mut s = Sess::new(ctx, opts).of(ALL)?;
    s.keep_ev = ctx.rng.chance(1, 2);
    let mut m = M {
        s, clones: vec![], alone: false, deaf: false, calls: vec![], sent: vec![], seen: 0, checked: 0, out: HashMap::new(), doubtful: HashSet::new(), early: HashSet::new(), order: vec![],
        unread_ms: 0, held: vec![], held_since: None, up_at: 0,
    };
    // before the handshake
    for _ in 0..if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.range(1, 100) } {
        let c = gen::call01(&mut ctx.rng);
        call(ctx, &mut m, c)?;
        if ctx.rng.chance(1, 3) {
            m.s.turn().await.of(ALL)?;
        }
    }
    m.s.expect("CONNECT", |s| !s.wire.is_empty()).await.of(&["C12"])?;
    if ctx.rng.chance(1, 4) {
        let ms = ctx.rng.range(1, 20_000) as u64;
        m.s.advance(ms).await.of(ALL)?;
    }
    ensure(m.s.wire.len() == 1 && matches!(m.s.wire[0].1, CPkt::Connect { .. }), || format!("before CONNACK the client sent {} packets", m.s.wire.len())).of(&["C12"])?;
    m.seen = 1;
    m.up_at = m.s.now();
    let p = gen::ok_connack(&mut ctx.rng);
    packet(ctx, &mut m, p);
    let all_ids = match (ctx.prop, ctx.idx / 7 % 300) {
        ("C08", _) => 2,
        (_, 50) => 1,
        (_, 51) => 2,
        _ => 0,
    };
    if all_ids == 1 {
        exhaust(ctx, &mut m).await?;
    }
    let steps = ctx.rng.range(5, 120);
    for _ in 0..steps {
        let mut k = ctx.rng.below(total);
        let mut op = Op::Turns;
        for (o, n) in &w {
            if k < *n {
                op = *o;
                break;
            }
            k -= n;
        }
        step(ctx, &mut m, op).await?;
        watch(&mut m)?;
    }
    if all_ids == 2 {
        exhaust(ctx, &mut m).await?;
    }
    sync(ctx, &mut m).await?;
    end(ctx, m).await
}

/// Every identifier in use, and more requests waiting.
async fn exhaust(ctx: &mut Ctx, m: &mut M) -> S {
    if m.alone {
        return Ok(());
    }
    sync(ctx, m).await?;
    let mut used = m.out.len();
    let mut calls = std::mem::take(&mut m.calls);
    hoard(ctx, &mut m.s, used, &mut calls).await.of(&["C08", "C07", "C01", "C10"])?;
    m.calls = calls;
    watch(m)?;
    for _ in 0..ctx.rng.range(1, 90) {
        let c = gen::request(&mut ctx.rng);
        call(ctx, m, c)?;
    }
    m.s.settle().await.of(ALL)?;
    used = m.out.len();
    ensure(used == 65535 || !m.doubtful.is_empty(), || format!("{} identifiers in use", used)).of(&["C08", "C07"])?;
    for _ in 0..ctx.rng.range(5, 60) {
        let mut p = gen::s_packet(&mut ctx.rng);
        if let SPkt::Puback { .. } | SPkt::Suback { .. } | SPkt::Unsuback { .. } = p {
            if ctx.rng.chance(3, 4) {
                p = SPkt::fence(*ctx.rng.pick(&[1u16, 65535, 65534, 32768]));
            }
        }
        packet(ctx, m, p);
    }
    Ok(())
}

fn free(m: &M) -> bool {
    m.out.len() < 65535
}

/// One call, through one of the handles.
fn call(ctx: &mut Ctx, m: &mut M, c: Call) -> S {
    let n = m.clones.len() + !m.alone as usize;
    if n == 0 {
        return Ok(());
    }
    let i = ctx.rng.below(n);
    let ok = if i < m.clones.len() {
        m.s.note(format!("call on clone {}: {}", i, c.brief()));
        m.s.ext();
        do_call(&mut m.clones[i], &c)
    } else {
        m.s.call(&c)
    };
    ctx.add("walk_calls", 1);
    if ok {
        m.calls.push(c);
    } else {
        let waiting = m.calls.len() - n_calls(&m.s);
        ensure(waiting >= 100, || format!("{} was refused although only {} accepted calls wait", c.brief(), waiting)).of(CALLS)?;
        ctx.add("refused", 1);
    }
    Ok(())
}

/// The server sends a packet, in pieces.
fn packet(ctx: &mut Ctx, m: &mut M, p: SPkt) {
    let b = p.encode();
    let mode = if b.len() > 3000 { *ctx.rng.pick(&[0usize, 4]) } else { ctx.rng.below(7) };
    if mode == 0 {
        m.s.send(&p);
    } else {
        m.s.note(format!("in pieces: {}", clip(&format!("{:?}", p))));
        for x in gen::cut(&mut ctx.rng, &b, mode) {
            m.s.send_bytes(x);
        }
    }
    release(m, &p);
    m.sent.push(p);
    ctx.add("server_packets", 1);
}

/// The request this packet answers is answered, if it is the right kind of answer.
fn release(m: &mut M, p: &SPkt) {
    let (id, k) = match p {
        SPkt::Puback { id, .. } => (*id, Kind::Pub1),
        SPkt::Suback { id, .. } => (*id, Kind::Sub),
        SPkt::Unsuback { id, .. } => (*id, Kind::Unsub),
        _ => return,
    };
    if m.out.get(&id) == Some(&k) {
        m.out.remove(&id);
        m.order.retain(|x| *x != id);
        if m.doubtful.remove(&id) {
            m.early.insert((id, k));
        }
    } else {
        m.early.insert((id, k));
    }
}

/// Looks at what the client has sent since.
fn watch(m: &mut M) -> S {
    while m.seen < m.s.wire.len() {
        let p = &m.s.wire[m.seen].1;
        m.seen += 1;
        if let Some(id) = p.needs_id() {
            let k = match p {
                CPkt::Publish { qos: 1, .. } => Kind::Pub1,
                CPkt::Publish { .. } => Kind::Pub2,
                CPkt::Subscribe { .. } => Kind::Sub,
                _ => Kind::Unsub,
            };
            ensure(id != 0, || format!("{} has identifier zero", p.brief())).of(&["C07"])?;
            let before = m.out.insert(id, k);
            if let (Some(k), false) = (before, m.doubtful.contains(&id)) {
                return viol(format!("{} has an identifier that a {:?} request uses", p.brief(), k)).of(&["C07"]);
            }
            if m.early.contains(&(id, k)) {
                m.doubtful.insert(id);
            }
            if before.is_none() {
                m.order.push(id);
            }
        }
        ensure(!matches!(p, CPkt::Connect { .. }), || "a second CONNECT".into()).of(&["C12", "C01"])?;
    }
    alive(m)
}
fn alive(m: &M) -> S {
    ensure(m.s.outcome.is_none(), || format!("the event loop ended {:?} by itself", m.s.outcome)).of(&["C14", "C03", "C07", "C08", "C09", "C11", "C13"])
}

fn hold(m: &mut M, on: bool) {
    let now = m.s.now();
    match (on, m.held_since) {
        (true, None) => m.held_since = Some(now),
        (false, Some(t)) => {
            m.held.push((t, now));
            m.held_since = None;
        }
        _ => {}
    }
}
fn held_now(m: &M) -> bool {
    !m.s.read_enabled || !m.s.consume
}

async fn step(ctx: &mut Ctx, m: &mut M, op: Op) -> S {
    match op {
        Op::Call => {
            let c = gen::call(&mut ctx.rng);
            call(ctx, m, c)?;
        }
        Op::Burst => {
            for i in 0..ctx.rng.range(2, 130) {
                let c = if ctx.rng.chance(1, 8) { gen::call01(&mut ctx.rng) } else { gen::tagged(&format!("b{}", i), (i % 2) as u8) };
                call(ctx, m, c)?;
            }
        }
        Op::Refused => {
            let big = || "x".repeat(65_536);
            let c = match ctx.rng.below(5) {
                0 => Call::Subscribe(big(), 1),
                1 => Call::Unsubscribe(big()),
                2 => Call::Publish { topic: big(), payload: Pay::Bytes(vec![]), props: vec![], qos: 1, set_qos: true },
                3 => Call::Publish { topic: "t".into(), payload: Pay::Bytes(vec![]), props: vec![Prop::RespTopic(big())], qos: 1, set_qos: true },
                _ => Call::Publish { topic: "t".into(), payload: Pay::Bytes(vec![]), props: vec![Prop::User("k".into(), big())], qos: 0, set_qos: true },
            };
            if !m.alone {
                ensure(!m.s.call(&c), || format!("{} was accepted", c.brief())).of(&["C02"])?;
                ctx.add("oversize_calls", 1);
            }
        }
        Op::Packet => {
            let p = gen::s_packet(&mut ctx.rng);
            packet(ctx, m, p);
        }
        Op::Answer | Op::AnswerAll => {
            watch(m)?;
            let n = if op == Op::Answer { ctx.rng.range(1, 4) } else { m.order.len().min(300) };
            for _ in 0..n {
                if m.order.is_empty() {
                    break;
                }
                let i = match ctx.rng.below(3) {
                    0 => 0,
                    1 => m.order.len() - 1,
                    _ => ctx.rng.below(m.order.len()),
                };
                let id = m.order[i];
                let p = match m.out[&id] {
                    Kind::Pub1 => gen::puback(&mut ctx.rng, Some(id)),
                    Kind::Sub => SPkt::Suback { id, reason: ctx.rng.pick(SUBACK_REASONS).0, props: gen::ack_props(&mut ctx.rng) },
                    Kind::Unsub => SPkt::Unsuback { id, reason: ctx.rng.pick(UNSUBACK_REASONS).0, props: gen::ack_props(&mut ctx.rng) },
                    Kind::Pub2 => continue,
                };
                packet(ctx, m, p);
                ctx.add("acks", 1);
            }
        }
        Op::Stray => {
            // for a request that waits for an acknowledgement of another kind, or for none at all
            watch(m)?;
            let id = if m.order.is_empty() || ctx.rng.chance(1, 3) { gen::any_id(&mut ctx.rng) } else { *ctx.rng.pick(&m.order) };
            let p = match ctx.rng.below(3) {
                0 => gen::puback(&mut ctx.rng, Some(id)),
                1 => SPkt::Suback { id, reason: 0, props: vec![] },
                _ => SPkt::Unsuback { id, reason: 0, props: vec![] },
            };
            packet(ctx, m, p);
            ctx.add("stray_acks", 1);
        }
        Op::Pause => {
            let ms = *ctx.rng.pick(&[1u64, 10, 100, 900, 2500, 7900, 8000, 8100, 20_100, 61_000]);
            if !m.s.read_enabled {
                let ms = ms.min(5000 - m.unread_ms.min(5000));
                m.unread_ms += ms;
                if ms > 0 {
                    m.s.advance(ms).await.of(ALL)?;
                }
            } else {
                m.s.pass(ms).await.of(&["C13", "C14"])?;
            }
            ctx.add("pauses", 1);
        }
        Op::Late => {
            if m.s.read_enabled {
                let mut ms = *ctx.rng.pick(&[50u64, 3000, 7990, 8010, 16_000, 40_000]);
                if ctx.rng.chance(1, 2) {
                    // the answer waits in the socket, perhaps with other things before it
                    for _ in 0..ctx.rng.below(4) {
                        let p = gen::s_packet(&mut ctx.rng);
                        packet(ctx, m, p);
                    }
                    if let (Some(x), true) = (m.s.wire.iter().rev().find(|x| matches!(x.1, CPkt::Pingreq)), ctx.rng.chance(1, 2)) {
                        // until just after the next PINGREQ is due
                        ms = (x.0 + 8000 + ctx.rng.below(60) as u64).saturating_sub(m.s.now()).max(1);
                    }
                    m.s.send_pongs();
                    let mut k = 0;
                    while !m.s.arrived() && k < 2000 {
                        m.s.server_turn();
                        k += 1;
                        if k > 100 {
                            std::thread::sleep(std::time::Duration::from_micros(20));
                        }
                    }
                    if m.s.arrived() {
                        ctx.add("late_with_answer_waiting", 1);
                    } else {
                        // the client must make room first
                        m.s.settle().await.of(ALL)?;
                        m.s.pong().await.of(ALL)?;
                    }
                } else {
                    m.s.settle().await.of(ALL)?;
                    m.s.pong().await.of(ALL)?;
                }
                hold(m, true);
                m.s.unpolled(ms).await;
                m.s.settle().await.of(ALL)?;
                m.s.pong().await.of(ALL)?;
                let on = held_now(m);
                hold(m, false);
                hold(m, on);
                ctx.add("late_polls", 1);
            }
        }
        Op::Await => {
            if m.s.read_enabled && m.s.consume {
                m.s.settle().await.of(ALL)?;
                m.s.pong().await.of(ALL)?;
                let at = m.s.pings;
                for _ in 0..18 {
                    if m.s.pings > at {
                        ctx.add("unanswered_pings", 1);
                        break;
                    }
                    m.s.advance(500).await.of(ALL)?;
                }
                ensure(m.s.pings > at, || "no PINGREQ for 9 s".into()).of(&["C13"])?;
            }
        }
        Op::Flood => flood(ctx, m),
        Op::Held => {
            // the application lags behind for a while, with calls and everything else waiting
            if m.s.read_enabled && m.s.consume {
                if ctx.rng.chance(1, 2) {
                    m.s.settle().await.of(ALL)?;
                    let ms = ctx.rng.below(8000) as u64;
                    m.s.pass(ms).await.of(&["C13", "C14"])?;
                    Box::pin(step(ctx, m, Op::Await)).await?;
                }
                m.s.consume = false;
                hold(m, true);
                flood(ctx, m);
                let calls = ctx.rng.chance(1, 2);
                for late in [false, true] {
                    if calls != late {
                        for _ in 0..ctx.rng.range(1, 20) {
                            let c = gen::call(&mut ctx.rng);
                            call(ctx, m, c)?;
                        }
                    }
                    if !late {
                        let ms = *ctx.rng.pick(&[50u64, 150, 1500, 4500, 6000, 7900, 8050, 15_000, 35_000]);
                        m.s.pass(ms).await.of(&["C13", "C14"])?;
                    }
                }
                m.s.consume = true;
                m.s.settle().await.of(ALL)?;
                m.s.pong().await.of(ALL)?;
                hold(m, false);
                ctx.add("lags", 1);
            }
        }
        Op::Stall => {
            m.s.consume = false;
            hold(m, true);
            ctx.add("stalls", 1);
        }
        Op::Take => {
            if !m.deaf && !m.s.consume {
                let n = ctx.rng.range(1, 30);
                m.s.take_some(n);
            }
        }
        Op::Resume => {
            m.s.consume = true;
            m.s.settle().await.of(ALL)?;
            m.s.pong().await.of(ALL)?;
            let on = held_now(m);
            hold(m, on);
        }
        Op::Deafen => {
            if !m.deaf && ctx.rng.chance(1, 6) {
                sync(ctx, m).await?;
                m.s.drop_rx();
                m.deaf = true;
                ctx.add("receiver_dropped", 1);
            }
        }
        Op::Unread => {
            if m.s.read_enabled {
                m.s.settle().await.of(ALL)?;
                m.s.pong().await.of(ALL)?;
                hold(m, true);
                m.s.read_enabled = false;
                m.unread_ms = 0;
            }
        }
        Op::Read => read_again(m).await?,
        Op::Clone => {
            if m.clones.len() < 6 {
                let c = if m.clones.is_empty() || ctx.rng.chance(1, 2) { m.s.client.clone() } else { Some(ctx.rng.pick(&m.clones).clone()) };
                m.clones.extend(c);
                ctx.add("handles_cloned", 1);
            }
        }
        Op::DropOne => {
            if !m.clones.is_empty() {
                let i = ctx.rng.below(m.clones.len());
                m.clones.swap_remove(i);
                ctx.add("handles_dropped", 1);
            } else if !m.alone && ctx.rng.chance(1, 4) {
                m.s.drop_client();
                m.alone = true;
            }
        }
        Op::DropAll => {
            if !m.alone && ctx.rng.chance(1, 10) {
                m.clones.clear();
                m.s.drop_client();
                m.alone = true;
                ctx.add("alone", 1);
            }
        }
        Op::Turns => {
            for _ in 0..ctx.rng.range(1, 8) {
                m.s.turn().await.of(ALL)?;
            }
        }
        Op::Starve => {
            m.s.starve = if m.s.starve.is_some() { None } else { Some(crate::rng::Rng::new(ctx.rng.below(1 << 30) as u64)) };
        }
        Op::Sync => sync(ctx, m).await?,
    }
    Ok(())
}

/// More messages than the notification queue holds.
fn flood(ctx: &mut Ctx, m: &mut M) {
    for i in 0..ctx.rng.range(100, 230) {
        let p = SPkt::Publish(SPublish { dup: false, qos: (i % 3 / 2) as u8, retain: false, topic: "f".into(), id: 1 + i as u16, props: vec![], payload: vec![i as u8] });
        m.s.send(&p);
        m.sent.push(p);
    }
}

async fn read_again(m: &mut M) -> S {
    if !m.s.read_enabled {
        m.s.read_enabled = true;
        m.s.settle().await.of(ALL)?;
        m.s.pong().await.of(ALL)?;
        let on = held_now(m);
        hold(m, on);
    }
    Ok(())
}

/// Everything so far has its effect, and no other.
async fn sync(ctx: &mut Ctx, m: &mut M) -> S {
    let stalled = !m.s.consume;
    m.s.consume = true;
    read_again(m).await?;
    let (nn, nq) = (if m.deaf { 0 } else { n_notifying(&m.sent) }, qos1_ids(&m.sent).len());
    let nc = m.calls.len();
    m.s.settle().await.of(ALL)?;
    watch(m)?;
    let full = !free(m);
    m.s.until(|s| s.notifs.len() >= nn && s.pubacks() >= nq && (full || n_calls(s) >= nc)).await.of(ALL)?;
    m.s.settle().await.of(ALL)?;
    m.s.pong().await.of(ALL)?;
    watch(m)?;
    let on = held_now(m);
    hold(m, on);
    m.early.clear();
    let have = n_calls(&m.s);
    if have < nc && !free(m) {
        // the next one waits for an identifier
        ctx.add("waits_for_identifier", 1);
        let c = m.calls[have].clone();
        let needs = !matches!(c, Call::Publish { qos: 0, .. } | Call::Disconnect);
        ensure(needs, || format!("`{}` is not sent although it needs no identifier", c.brief())).of(CALLS)?;
    } else {
        ensure(have >= nc, || format!("only {} of {} accepted calls were sent: it never happened", have, nc)).of(&["C01", "C10", "C08"])?;
    }
    let now = call_packets(&m.s);
    ensure(now.len() <= nc, || format!("{} packets for {} accepted calls; first extra: {}", now.len(), nc, now[nc].brief())).of(&["C01", "C02", "C10"])?;
    for i in m.checked..now.len() {
        m.calls[i].matches(&now[i]).map_err(|e| Fail::Violation(format!("packet #{}: {}", i, e))).of(CALLS)?;
        ctx.add("calls_checked", 1);
    }
    m.checked = now.len();
    same_pubacks(&m.s, &m.sent).of(&["C09"])?;
    ctx.add("qos1_received", nq as u64);
    if !m.deaf {
        same_notifs(ctx, &m.s.notifs, &m.sent).of(NOTIFS)?;
    }
    m.s.consume = !stalled;
    let on = held_now(m);
    hold(m, on);
    ctx.add("walk_syncs", 1);
    Ok(())
}

/// The silence between any two packets, unless something held up the client.
fn silence(m: &mut M) -> S {
    hold(m, false);
    let ka = match &m.s.wire[0].1 {
        CPkt::Connect { keep_alive, .. } => *keep_alive as u64 * 1000,
        _ => 0,
    };
    if ka == 0 {
        return Ok(());
    }
    let mut prev = m.up_at;
    for (t, p) in &m.s.wire[1..] {
        if *t > prev + ka + 20 && !m.held.iter().any(|h| h.0 < *t && h.1 > prev) {
            return viol(format!("{} ms of silence before {} at {} ms; keep-alive is {} ms", t - prev, p.brief(), t, ka)).of(&["C13"]);
        }
        prev = *t;
    }
    Ok(())
}

async fn end(ctx: &mut Ctx, mut m: M) -> S {
    m.s.consume = true;
    m.s.settle().await.of(ALL)?;
    m.s.pong().await.of(ALL)?;
    watch(&mut m)?;
    silence(&mut m)?;
    // with a PINGREQ unanswered
    if ctx.rng.chance(1, 4) {
        step(ctx, &mut m, Op::Await).await?;
    }
    // the application does not read its notifications until after the end
    let lag = !m.deaf && ctx.rng.chance(1, 4);
    if lag {
        m.s.consume = false;
        flood(ctx, &mut m);
        if ctx.rng.chance(1, 2) {
            let ms = *ctx.rng.pick(&[10u64, 3000, 8010, 20_000, 60_000]);
            m.s.pass(ms).await.of(&["C13", "C14"])?;
        }
        ctx.add("ends_while_stalled", 1);
    }
    ctx.nontrivial = m.checked > 0 || m.sent.len() > 1;
    if m.deaf {
        m.s.notif_end = true;
    }
    let waiting = n_calls(&m.s) < m.calls.len();
    let alone = m.alone && m.clones.is_empty();
    let M { mut s, clones, mut calls, mut sent, .. } = m;
    let mut how = if lag { *ctx.rng.pick(&[2usize, 3, 4, 6]) } else { ctx.rng.below(10) };
    if lag && how == 4 {
        s.settle().await.of(ALL)?;
        if s.unsent() > 0 {
            // there is more to send before the end
            how = 2;
        }
    }
    let ok;
    match how {
        0 | 1 if !alone && !waiting => {
            let c = if let (true, Some(c)) = (ctx.rng.chance(1, 2) || s.client.is_none(), clones.first()) {
                let mut c = c.clone();
                do_call(&mut c, &Call::Disconnect)
            } else {
                s.call(&Call::Disconnect)
            };
            ensure(c, || "disconnect refused".into()).of(&["C10", "C14"])?;
            calls.push(Call::Disconnect);
            s.expect("the event loop to end", |s| s.outcome.is_some()).await.of(&["C14"])?;
            s.expect("the end of the connection", |s| s.srv_eof || s.srv_rst).await.of(&["C14"])?;
            same_calls(&s, &calls).of(&["C01", "C10", "C14"])?;
            ensure(matches!(s.wire.last().map(|x| &x.1), Some(CPkt::Disconnect { .. })), || "the last packet is not DISCONNECT".into()).of(&["C14", "C10"])?;
            ok = true;
        }
        2 => {
            s.send(&SPkt::Disconnect { reason: None, props: None });
            ok = true;
        }
        3 => {
            let reason = *ctx.rng.pick(&DISCONNECT_REASONS[1..]);
            s.send(&SPkt::Disconnect { reason: Some(reason), props: Some(gen::ack_props(&mut ctx.rng)) });
            ok = false;
        }
        4 => {
            s.close_server();
            ok = true;
        }
        5 => {
            s.reset_server();
            ok = false;
        }
        6 => {
            let k = ctx.rng.below(BAD_KINDS);
            let (name, bad) = bad_packet(&mut ctx.rng, k);
            s.note(format!("bad packet: {}", name));
            s.send_bytes(bad);
            // what follows is not looked at
            s.send(&SPkt::fence(4711));
            let p = gen::s_packet(&mut ctx.rng);
            s.send(&p);
            if lag {
                resume(ctx, &mut s).await?;
            }
            s.expect("the event loop to end after a bad packet", |s| s.outcome.is_some()).await.of(&["C06", "C05"])?;
            ensure(s.outcome.as_ref().unwrap().is_err(), || format!("bad packet ({}) ended {:?}", name, s.outcome)).of(&["C06"])?;
            ctx.add("bad_packets", 1);
            ok = false;
        }
        9 => {
            // anything
            for _ in 0..ctx.rng.range(1, 10) {
                let b = match ctx.rng.below(4) {
                    0 => gen::ok_connack(&mut ctx.rng).encode(),
                    1 => {
                        let n = ctx.rng.range(1, 40);
                        ctx.rng.bytes(n)
                    }
                    2 => {
                        let mut b = gen::s_packet(&mut ctx.rng).encode();
                        let i = ctx.rng.below(b.len());
                        b[i] ^= 1 << ctx.rng.below(8);
                        b
                    }
                    _ => {
                        let k = ctx.rng.below(BAD_KINDS);
                        bad_packet(&mut ctx.rng, k).1
                    }
                };
                s.send_bytes(b);
            }
            s.settle().await.of(ALL)?;
            if ctx.rng.chance(1, 3) {
                s.reset_server();
            } else {
                s.close_server();
            }
            s.expect("the event loop to end", |s| s.outcome.is_some()).await.of(&["C05", "C14"])?;
            s.expect("the end of the notifications", |s| s.notif_end).await.of(&["C14", "C11"])?;
            ctx.add("hostile_ends", 1);
            s.finish(ctx);
            return Ok(());
        }
        7 => {
            // the server falls silent
            let at = s.now();
            for _ in 0..40 {
                if s.outcome.is_some() {
                    break;
                }
                s.advance(500).await.of(ALL)?;
            }
            ensure(matches!(s.outcome, Some(Outcome::Err { kind: Some(std::io::ErrorKind::TimedOut), .. })), || format!("silent server: outcome {:?} after {} ms", s.outcome, s.now() - at)).of(&["C13", "C05"])?;
            ctx.add("timeouts", 1);
            ok = false;
        }
        _ => {
            let p = SPkt::fence(4712);
            s.send(&p);
            sent.push(p);
            let nq = qos1_ids(&sent).len();
            s.expect("the fence", |s| s.pubacks() >= nq).await.of(&["C09"])?;
            s.settle().await.of(ALL)?;
            same_pubacks(&s, &sent).of(&["C09"])?;
            if !m.deaf {
                same_notifs(ctx, &s.notifs, &sent).of(NOTIFS)?;
            }
            s.drop_ev();
            s.expect("the connection to be closed", |s| s.srv_eof || s.srv_rst).await.of(&["C14"])?;
            s.expect("the end of the notifications", |s| s.notif_end).await.of(&["C14", "C11"])?;
            s.finish(ctx);
            return Ok(());
        }
    }
    if lag && !s.consume {
        resume(ctx, &mut s).await?;
    }
    s.expect("the event loop to end", |s| s.outcome.is_some()).await.of(&["C14", "C05"])?;
    ensure(matches!(s.outcome, Some(Outcome::Ok)) == ok, || format!("end of kind {}: {:?}", how, s.outcome)).of(&["C14"])?;
    s.expect("the connection to be closed", |s| s.srv_eof || s.srv_rst).await.of(&["C14"])?;
    s.expect("the end of the notifications", |s| s.notif_end).await.of(&["C14", "C11"])?;
    if how != 0 && how != 1 || !calls.iter().any(|c| *c == Call::Disconnect) {
        same_pubacks(&s, &sent).of(&["C09", "C06"])?;
    }
    if !m.deaf {
        same_notifs(ctx, &s.notifs, &sent).of(&["C03", "C11", "C06", "C14"])?;
    }
    let mut left = clones;
    left.extend(s.client.clone());
    for mut c in left {
        ensure(!do_call(&mut c, &gen::tagged("late", 1)) && !do_call(&mut c, &Call::Disconnect), || "a call was accepted after the end".into()).of(&["C14"])?;
        ctx.add("late_calls", 1);
    }
    s.finish(ctx);
    Ok(())
}

async fn resume(ctx: &mut Ctx, s: &mut Sess) -> S {
    let ms = *ctx.rng.pick(&[1u64, 500, 7000, 8100, 30_000]);
    s.advance(ms).await.of(ALL)?;
    s.consume = true;
    Ok(())
}
