//! C18: several sessions in one process, one thread, one task.
use super::*;
use crate::gen;
use crate::props::c05::{bad_packet, BAD_KINDS};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Role {
    /// traffic both ways, all the time
    Normal,
    /// the application stops taking notifications
    Stalled,
    /// the server stops reading
    Blocked,
    /// the server sends a malformed packet
    Hostile,
    /// the server closes
    Closed,
    /// the application drops the event loop
    Dropped,
    /// the server refuses the connection
    Refused,
    /// the application says goodbye
    Leaving,
    /// every packet identifier is in use
    Exhausted,
    /// the server answers no PINGREQ
    Silent,
    /// the server does not answer CONNECT until the others are done
    Waiting,
}

struct One {
    s: Sess,
    role: Role,
    up: bool,
    /// the session met its end, on purpose
    over: bool,
    sent: Vec<SPkt>,
    calls: Vec<Call>,
    /// accepted before the session ended, may not have been sent
    loose: bool,
    /// calls since the last time everything was on the wire
    open: usize,
    answered: usize,
    steps: usize,
    k: usize,
    /// identifier of a request that is outstanding
    pending: u16,
}

fn tag(name: &str, e: Fail) -> Fail {
    match e {
        Fail::Violation(m) => Fail::Violation(format!("{}: {}", name, m)),
        x => x,
    }
}

pub async fn c18(ctx: &mut Ctx) -> R {
    // many sessions: of all kinds, or most of them in the same trouble
    let trouble = match ctx.idx % 500 {
        107 => Some(Role::Waiting),
        207 => Some(Role::Silent),
        307 => Some(Role::Stalled),
        407 => Some(Role::Blocked),
        _ => None,
    };
    let crowd = ctx.idx % 500 == 7 || trouble.is_some();
    let timed = trouble == Some(Role::Silent) || (!crowd && ctx.rng.chance(1, 2));
    let n = match trouble {
        None if crowd => ctx.rng.range(300, 700),
        None => ctx.rng.range(2, 5),
        Some(Role::Waiting) => ctx.rng.range(80, 400),
        Some(Role::Blocked) => ctx.rng.range(20, 40),
        Some(_) => ctx.rng.range(60, 160),
    }
    .min(crate::most_files() / 30);
    let mut v: Vec<One> = vec![];
    let mut roles = vec![Role::Normal];
    for _ in 1..n {
        roles.push(if trouble.is_some() && ctx.rng.chance(4, 5) {
            trouble.unwrap()
        } else if timed {
            *ctx.rng.pick(&[Role::Normal, Role::Normal, Role::Stalled, Role::Silent, Role::Silent, Role::Waiting, Role::Hostile, Role::Closed, Role::Dropped, Role::Leaving])
        } else if crowd {
            if ctx.rng.chance(4, 5) {
                *ctx.rng.pick(&[Role::Normal, Role::Normal, Role::Normal, Role::Stalled])
            } else {
                *ctx.rng.pick(&[Role::Hostile, Role::Closed, Role::Dropped, Role::Refused, Role::Leaving])
            }
        } else {
            *ctx.rng.pick(&[Role::Normal, Role::Normal, Role::Stalled, Role::Stalled, Role::Blocked, Role::Hostile, Role::Hostile, Role::Closed, Role::Dropped, Role::Refused, Role::Leaving])
        });
    }
    if ctx.idx % 500 == 3 && !timed {
        roles[1] = Role::Exhausted;
    }
    ctx.rng.shuffle(&mut roles);
    ctx.label = if crowd { format!("{} sessions{}", n, trouble.map_or(String::new(), |r| format!(", most of them {:?}", r))) } else { format!("{:?}{}", roles, if timed { ", time passes" } else { "" }) };
    let label = ctx.label.clone();
    ctx.add("crowds", crowd as u64);
    ctx.add("crowds_in_trouble", trouble.is_some() as u64);
    for role in &roles {
        let o = if *role == Role::Blocked { Opts { rcvbuf: Some(2048), ..Opts::default() } } else { Opts::default() };
        let s = Sess::new(ctx, o)?;
        let steps = if crowd { ctx.rng.range(2, 4) } else { ctx.rng.range(2, 30) };
        v.push(One { s, role: *role, up: false, over: false, sent: vec![], calls: vec![], loose: false, open: 0, answered: 0, steps, k: 0, pending: 0 });
        match role {
            Role::Hostile => ctx.add("hostile_neighbours", 1),
            Role::Stalled | Role::Blocked => ctx.add("stalled_neighbours", 1),
            _ => {}
        }
    }
    ctx.max("max_sessions_at_once", n as u64);
    // steps and turns of all sessions, at random; some sessions are faster than others
    let bias = ctx.rng.below(n);
    let mut left = 20_000 + 100 * n;
    while v.iter().any(|o| o.k < o.steps && !o.over) && left > 0 {
        left -= 1;
        let i = if ctx.rng.chance(1, 3) { bias } else { ctx.rng.below(n) };
        let name = format!("session {} of {} ({:?})", i, label, roles[i]);
        let o = &mut v[i];
        if ctx.rng.chance(1, 3) {
            step(ctx, o).await.map_err(|e| tag(&name, e))?;
        } else {
            for _ in 0..ctx.rng.range(1, 6) {
                o.s.turn().await.map_err(|e| tag(&name, e))?;
            }
        }
        if timed && ctx.rng.chance(1, if crowd { 300 } else { 30 }) {
            let ms = *ctx.rng.pick(&[10u64, 900, 2500, 5100, 8100, 15_100, 20_100, 61_000]);
            pass_all(ctx, &mut v, ms).await.map_err(|e| tag(&label, e))?;
        }
    }
    if timed {
        pass_all(ctx, &mut v, 40_000).await.map_err(|e| tag(&label, e))?;
        for (i, o) in v.iter().enumerate() {
            ensure(o.over || !o.up || o.role != Role::Silent, || format!("session {} of {}: no PINGREQ was answered for 40 s and it goes on", i, label))?;
        }
    }
    let mut order: Vec<usize> = (0..n).collect();
    ctx.rng.shuffle(&mut order);
    for i in order.iter() {
        let name = format!("session {} of {} ({:?})", i, label, roles[*i]);
        close(ctx, &mut v[*i]).await.map_err(|e| tag(&name, e))?;
    }
    // those that live on still work
    for i in order.iter() {
        let name = format!("session {} of {} ({:?}), at the end", i, label, roles[*i]);
        let o = &mut v[*i];
        if !o.over {
            o.s.fence(777).await.map_err(|e| tag(&name, e))?;
        }
    }
    ctx.rng.shuffle(&mut v);
    for o in v {
        o.s.finish(ctx);
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Virtual time passes for all sessions at once. The servers answer the PINGREQs they have seen
/// within 2 s, but for the silent ones.
async fn pass_all(ctx: &mut Ctx, v: &mut [One], ms: u64) -> R {
    ctx.add("paused_virtual_s", ms / 1000);
    let mut left = ms;
    loop {
        for (i, o) in v.iter_mut().enumerate() {
            if o.s.outcome.is_some() && !o.over {
                ensure(o.role == Role::Silent && o.s.pings > 0 && o.s.outcome.as_ref().unwrap().is_err(), || {
                    format!("session {} ({:?}) ended {:?} while time passed", i, o.role, o.s.outcome)
                })?;
                o.over = true;
                ctx.add("silent_neighbours_timed_out", 1);
            }
            if o.role != Role::Silent && !o.over {
                ctx.add("pings_answered", o.s.pong().await? as u64);
            }
        }
        if left == 0 {
            return Ok(());
        }
        let n = left.min(2000);
        left -= n;
        let mut all: Vec<&mut Sess> = v.iter_mut().map(|o| &mut o.s).collect();
        Sess::advance_all(&mut all, n).await?;
    }
}

/// The next thing that happens to this session.
async fn step(ctx: &mut Ctx, o: &mut One) -> R {
    let s = &mut o.s;
    if o.over {
        ensure(!s.call(&gen::tagged("late", 0)), || "a call was accepted after the end".into())?;
        return Ok(());
    }
    if !o.up {
        // the application may call before the handshake
        if ctx.rng.chance(1, 3) && o.calls.len() < 20 {
            let c = gen::call01(&mut ctx.rng);
            ensure(s.call(&c), || format!("valid call refused: {}", c.brief()))?;
            o.calls.push(c);
            o.open += 1;
        }
        if o.role == Role::Waiting {
            o.k += 1;
            return Ok(());
        }
        if s.wire.is_empty() {
            return Ok(());
        }
        ensure(matches!(s.wire[0].1, CPkt::Connect { .. }), || format!("first packet is {}", s.wire[0].1.brief()))?;
        let refuse = o.role == Role::Refused;
        let p = if refuse { SPkt::Connack { sp: false, reason: ctx.rng.pick(&CONNACK_REASONS[1..]).0, props: gen::ack_props(&mut ctx.rng) } } else { gen::ok_connack(&mut ctx.rng) };
        pieces(ctx, s, p.encode());
        o.sent.push(p);
        o.up = true;
        if refuse {
            s.expect("the refused session to end", |s| s.outcome.is_some()).await?;
            ensure(s.outcome.as_ref().unwrap().is_err(), || format!("refused session ended {:?}", s.outcome))?;
            o.over = true;
            o.loose = true;
        }
        return Ok(());
    }
    o.k += 1;
    let last = o.k >= o.steps;
    match o.role {
        Role::Stalled if o.k == 1 => {
            s.expect("CONNACK notification", |s| !s.notifs.is_empty()).await?;
            s.consume = false;
            for i in 0..ctx.rng.range(101, 180) {
                let p = SPkt::Publish(SPublish { dup: false, qos: (i % 2) as u8, retain: false, topic: "x".into(), id: 1 + i as u16, props: vec![], payload: vec![i as u8] });
                s.send(&p);
                o.sent.push(p);
            }
            return s.settle().await;
        }
        Role::Blocked if o.k == 1 => {
            s.settle().await?;
            s.read_enabled = false;
            for i in 0..40 {
                let c = Call::Publish { topic: format!("{}", i), payload: Pay::Bytes(vec![i as u8; 300_000]), props: vec![], qos: 0, set_qos: true };
                if s.call(&c) {
                    o.calls.push(c);
                }
                s.turn().await?;
            }
            return Ok(());
        }
        Role::Exhausted if o.k == 1 => {
            s.expect("early calls on the wire", |s| n_calls(s) >= o.calls.len()).await?;
            same_calls(s, &o.calls)?;
            let used = call_packets(s).iter().filter(|p| p.needs_id().is_some()).count();
            s.wire.truncate(1);
            o.calls.clear();
            s.trace_cap(60);
            let mut m = used;
            while m < 65535 {
                let k = (65535 - m).min(90);
                for _ in 0..k {
                    ensure(s.call(&Call::Subscribe("s".into(), 0)), || "call refused".into())?;
                }
                s.expect("requests on the wire", |s| n_calls(s) >= k).await?;
                o.pending = call_packets(s).iter().filter_map(|p| p.needs_id()).last().unwrap_or(0);
                s.wire.truncate(1);
                m += k;
            }
            ctx.add("exhausted_neighbours", 1);
            // one more, which has to wait
            let c = Call::Subscribe("waits".into(), 1);
            ensure(s.call(&c), || "call refused".into())?;
            o.calls.push(c);
            s.settle().await?;
            ensure(n_calls(s) == 0, || "a request was sent although no identifier is free".into())?;
            o.steps = o.k;
            return Ok(());
        }
        Role::Hostile if last => {
            let (name, bad) = { let k = ctx.rng.below(BAD_KINDS); bad_packet(&mut ctx.rng, k) };
            s.note(format!("bad packet: {}", name));
            pieces(ctx, s, bad);
            s.expect("the session with the malformed packet to end", |s| s.outcome.is_some()).await?;
            ensure(s.outcome.as_ref().unwrap().is_err(), || format!("malformed packet ({}) ended {:?}", name, s.outcome))?;
            o.over = true;
            return Ok(());
        }
        Role::Closed if last => {
            s.settle().await?;
            s.close_server();
            s.expect("the closed session to end", |s| s.outcome.is_some()).await?;
            ensure(s.outcome == Some(Outcome::Ok), || format!("closed session ended {:?}", s.outcome))?;
            o.over = true;
            return Ok(());
        }
        Role::Leaving if last => {
            s.settle().await?;
            ensure(s.call(&Call::Disconnect), || "disconnect refused".into())?;
            o.calls.push(Call::Disconnect);
            s.expect("the session to end", |s| s.outcome.is_some() && s.srv_eof).await?;
            ensure(s.outcome == Some(Outcome::Ok), || format!("after a disconnect call: {:?}", s.outcome))?;
            o.over = true;
            return Ok(());
        }
        Role::Dropped if last => {
            s.settle().await?;
            s.drop_ev();
            s.expect("the connection to be closed", |s| s.srv_eof || s.srv_rst).await?;
            o.over = true;
            return Ok(());
        }
        _ => {}
    }
    if o.role == Role::Blocked || o.role == Role::Exhausted {
        return Ok(());
    }
    match ctx.rng.below(6) {
        0 | 1 if o.open < 40 => {
            let c = gen::call01(&mut ctx.rng);
            ensure(s.call(&c), || format!("valid call refused: {}", c.brief()))?;
            o.calls.push(c);
            o.open += 1;
        }
        2 if o.role != Role::Stalled => {
            // everything so far has its effect, whatever the others are doing
            let (nn, nc) = (n_notifying(&o.sent), o.calls.len());
            s.expect("everything so far", |s| s.notifs.len() >= nn && n_calls(s) >= nc).await?;
            o.open = 0;
            let t = s.traffic();
            for q in &t[o.answered..] {
                if let Some(a) = gen::answer(&mut ctx.rng, q) {
                    pieces(ctx, s, a.encode());
                    o.sent.push(a);
                }
            }
            o.answered = t.len();
        }
        _ => {
            let p = gen::s_packet(&mut ctx.rng);
            pieces(ctx, s, p.encode());
            o.sent.push(p);
        }
    }
    Ok(())
}

/// Queues the bytes in pieces, sent one per turn: other sessions get their turns in between.
fn pieces(ctx: &mut Ctx, s: &mut Sess, b: Vec<u8>) {
    let mode = if b.len() > 2000 { *ctx.rng.pick(&[0usize, 4]) } else { ctx.rng.below(7) };
    for p in gen::cut(&mut ctx.rng, &b, mode) {
        s.send_bytes(p);
    }
}

async fn close(ctx: &mut Ctx, o: &mut One) -> R {
    let s = &mut o.s;
    s.consume = true;
    s.read_enabled = true;
    if !o.up {
        s.expect("CONNECT", |s| !s.wire.is_empty()).await?;
        let p = SPkt::ok_connack();
        s.send(&p);
        o.sent.push(p);
        o.up = true;
    }
    if !o.over {
        let (nn, nq) = (n_notifying(&o.sent), qos1_ids(&o.sent).len());
        if o.role == Role::Exhausted {
            // one identifier is given back: the waiting request takes it
            s.expect("everything so far", |s| s.notifs.len() >= nn && s.pubacks() >= nq).await?;
            if o.pending != 0 {
                let p = SPkt::Suback { id: o.pending, reason: 0, props: vec![] };
                s.send(&p);
                o.sent.push(p);
            }
        }
        let (nn, nc) = (n_notifying(&o.sent), o.calls.len());
        s.expect("everything sent", |s| s.notifs.len() >= nn && s.pubacks() >= nq && n_calls(s) >= nc).await?;
        s.settle().await?;
        ensure(s.outcome.is_none(), || format!("the session ended by itself: {:?}", s.outcome))?;
        ctx.add("calls_checked", nc as u64);
        same_calls(s, &o.calls)?;
        same_pubacks(s, &o.sent)?;
    } else {
        s.settle().await?;
        s.expect("the end of the notifications", |s| s.notif_end).await?;
        let acked = s.wire.iter().filter(|x| matches!(x.1, CPkt::Puback { .. })).count();
        ensure(acked <= qos1_ids(&o.sent).len(), || "more PUBACKs than QoS 1 messages".into())?;
        if o.role == Role::Leaving || (o.role != Role::Hostile && !o.loose) {
            same_calls(s, &o.calls)?;
            same_pubacks(s, &o.sent)?;
        } else if o.loose {
            ensure(n_calls(s) == 0, || "a call was sent on a refused connection".into())?;
        }
    }
    same_notifs(ctx, &s.notifs, &o.sent)
}
