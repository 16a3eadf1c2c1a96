//! C15 (an idle event loop sleeps) and C16 (memory does not grow with the history).
use super::*;
use crate::gen;
use std::net::{TcpListener, TcpStream};

// ------------------------------------------------------------------------------ C15
/// Many reactor turns without any external event: the loop must stay asleep.
async fn window(ctx: &mut Ctx, s: &mut Sess, what: &str) -> R {
    s.settle().await?;
    s.settle().await?;
    let (p, w) = (s.polls, s.wakes());
    for i in 0..150 {
        s.turn().await?;
        if i % 30 == 29 {
            std::thread::sleep(std::time::Duration::from_micros(100));
        }
    }
    let (dp, dw) = (s.polls - p, s.wakes() - w);
    ctx.max("max_polls_in_idle_window", dp);
    ctx.add("idle_windows", 1);
    ensure(dp <= 6 && dw <= 12, || format!("{}: {} polls and {} wake-ups during an idle window of 150 reactor turns", what, dp, dw))
}

/// Lets `ms` of virtual time pass, answering PINGREQs; bounded work per interval.
async fn quiet_time(ctx: &mut Ctx, s: &mut Sess, what: &str, ms: u64, answer: bool) -> R {
    s.settle().await?;
    let (p, w) = (s.polls, s.wakes());
    let mut left = ms;
    let mut answered = s.wire.iter().filter(|x| matches!(x.1, CPkt::Pingreq)).count();
    let first = answered;
    while left > 0 {
        let n = left.min(1000);
        s.advance(n).await?;
        left -= n;
        let pings = s.wire.iter().filter(|x| matches!(x.1, CPkt::Pingreq)).count();
        while answered < pings {
            answered += 1;
            if answer {
                s.send(&SPkt::Pingresp);
                s.settle().await?;
            }
        }
        if s.outcome.is_some() {
            break;
        }
    }
    let pings = (answered - first) as u64;
    ctx.add("pingreqs", pings);
    let intervals = ms / 8000 + 2;
    let (dp, dw) = (s.polls - p, s.wakes() - w);
    ctx.add("idle_windows", 1);
    ctx.max("max_polls_per_idle_interval", dp / intervals);
    ensure(dp <= 5 * intervals && dw <= 10 * intervals, || format!("{}: {} polls and {} wake-ups in {} idle virtual ms", what, dp, dw, ms))
}

pub async fn c15(ctx: &mut Ctx) -> R {
    let state = ctx.idx % 10;
    ctx.nontrivial = true;
    if ctx.idx % 8 == 5 {
        return at_work(ctx).await;
    }
    match state {
        0 => {
            // the connection attempt hangs: a listener with a full backlog
            ctx.label = "connecting".into();
            return connecting(ctx).await;
        }
        1 => {
            ctx.label = "waiting for CONNACK".into();
            let mut s = Sess::new(ctx, Opts::default())?;
            let partial = ctx.rng.chance(1, 2);
            s.expect("CONNECT", |s| !s.wire.is_empty()).await?;
            if partial {
                s.send_bytes(vec![0x20]);
            }
            if ctx.rng.chance(1, 2) {
                s.call(&gen::tagged("early", 1));
            }
            if ctx.rng.chance(1, 3) {
                s.drop_client();
                ctx.add("handles_dropped", 1);
            }
            window(ctx, &mut s, "waiting for CONNACK").await?;
            quiet_time(ctx, &mut s, "waiting for CONNACK", 60_000, false).await?;
            window(ctx, &mut s, "waiting for CONNACK").await?;
            ensure(s.outcome.is_none(), || format!("ended {:?}", s.outcome))?;
            s.finish(ctx);
        }
        2 | 3 => {
            ctx.label = "connected".into();
            let mut s = Sess::connected(ctx, Opts::default()).await?;
            let partial = ctx.rng.chance(1, 2);
            for _ in 0..ctx.rng.below(20) {
                let c = gen::call01(&mut ctx.rng);
                s.call(&c);
                let p = gen::s_packet(&mut ctx.rng);
                s.send(&p);
            }
            if partial {
                // half a packet is no work either
                let b = gen::s_packet(&mut ctx.rng).encode();
                let n = ctx.rng.range(1, b.len() - 1);
                s.settle().await?;
                s.send_bytes(b[..n].to_vec());
                s.settle().await?;
                window(ctx, &mut s, "connected, half a packet received").await?;
                s.send_bytes(b[n..].to_vec());
            }
            window(ctx, &mut s, "connected").await?;
            let ms = ctx.rng.range(10_000, 120_000) as u64;
            quiet_time(ctx, &mut s, "connected", ms, true).await?;
            window(ctx, &mut s, "connected").await?;
            s.fence(3).await?;
            s.finish(ctx);
        }
        4 => {
            ctx.label = "blocked on a full notification queue".into();
            let mut s = Sess::connected(ctx, Opts::default()).await?;
            s.consume = false;
            let k = ctx.rng.range(102, 400);
            for i in 0..k {
                s.send(&SPkt::Publish(SPublish { dup: false, qos: (i % 2) as u8, retain: false, topic: "x".into(), id: 1 + i as u16, props: vec![], payload: vec![1] }));
            }
            s.settle().await?;
            for i in 0..ctx.rng.below(3) {
                s.call(&gen::tagged(&format!("{}", i), 0));
            }
            window(ctx, &mut s, "notification queue full").await?;
            s.take_some(3);
            s.settle().await?;
            window(ctx, &mut s, "notification queue full").await?;
            s.consume = true;
            s.expect("everything notified", |s| s.notifs.len() == k + 1).await?;
            s.fence(9).await?;
            s.finish(ctx);
        }
        5 => {
            ctx.label = "receiver dropped".into();
            let mut s = Sess::connected(ctx, Opts::default()).await?;
            s.drop_rx();
            window(ctx, &mut s, "receiver dropped").await?;
            let p = gen::s_packet(&mut ctx.rng);
            s.send(&p);
            s.fence(2).await?;
            window(ctx, &mut s, "receiver dropped").await?;
            quiet_time(ctx, &mut s, "receiver dropped", 30_000, true).await?;
            if ctx.rng.chance(1, 2) {
                s.drop_client();
                ctx.add("handles_dropped", 1);
                window(ctx, &mut s, "receiver and handles dropped").await?;
                quiet_time(ctx, &mut s, "receiver and handles dropped", 30_000, true).await?;
            }
            s.fence(4).await?;
            s.finish(ctx);
        }
        6 if ctx.idx % 300 == 6 => {
            ctx.label = "all identifiers outstanding".into();
            exhausted(ctx).await?;
        }
        6 => {
            // DISCONNECT is sent, the server does not close
            ctx.label = "saying goodbye".into();
            let mut s = Sess::connected(ctx, Opts::default()).await?;
            s.auto_close = false;
            for i in 0..ctx.rng.below(4) {
                s.call(&gen::tagged(&format!("{}", i), 1));
            }
            if ctx.rng.chance(1, 2) {
                // something that was never read
                let p = gen::s_packet(&mut ctx.rng);
                s.send(&p);
            }
            ensure(s.call(&Call::Disconnect), || "disconnect refused".into())?;
            s.expect("DISCONNECT", |s| s.srv_eof).await?;
            window(ctx, &mut s, "DISCONNECT sent").await?;
            if s.outcome.is_none() {
                let p0 = s.polls;
                s.advance(1500).await?;
                ensure(s.outcome.is_some() || s.polls - p0 <= 6, || format!("{} polls in 1.5 s while the server does not close", s.polls - p0))?;
                if ctx.rng.chance(1, 2) {
                    s.drop_client();
                    ctx.add("handles_dropped", 1);
                }
                for _ in 0..ctx.rng.below(4) {
                    let p = gen::s_packet(&mut ctx.rng);
                    s.send(&p);
                }
                window(ctx, &mut s, "DISCONNECT sent, handles dropped").await?;
                ctx.add("goodbyes", 1);
            }
            s.close_server();
            s.expect("the event loop to end", |s| s.outcome.is_some()).await?;
            ensure(s.outcome == Some(Outcome::Ok), || format!("after a disconnect call: {:?}", s.outcome))?;
            s.finish(ctx);
        }
        7 => {
            // back-pressure: the server does not read
            ctx.label = "server does not read".into();
            let mut s = Sess::connected(ctx, Opts { rcvbuf: Some(2048), ..Opts::default() }).await?;
            s.read_enabled = false;
            let mut acc = 0;
            for i in 0..60 {
                if s.call(&Call::Publish { topic: format!("{}", i), payload: Pay::Bytes(vec![0; 200_000]), props: vec![], qos: 0, set_qos: true }) {
                    acc += 1;
                }
                s.turn().await?;
            }
            for _ in 0..50 {
                s.turn().await?;
            }
            // the kernel may still be moving bytes: wait until it has nothing left to do
            std::thread::sleep(std::time::Duration::from_millis(5));
            for _ in 0..50 {
                s.turn().await?;
            }
            window(ctx, &mut s, "server does not read").await?;
            s.read_enabled = true;
            s.expect("all calls on the wire", |s| n_calls(s) == acc).await?;
            s.finish(ctx);
        }
        _ => {
            ctx.label = "all handles dropped".into();
            let mut s = Sess::new(ctx, Opts::default())?;
            let mut calls = vec![];
            let when = ctx.rng.below(3);
            for i in 0..ctx.rng.below(5) {
                let c = gen::tagged(&format!("c{}", i), 1);
                s.call(&c);
                calls.push(c);
            }
            let extra = s.client.clone();
            if when == 0 {
                drop(extra);
                s.drop_client();
                s.handshake(&SPkt::ok_connack()).await?;
            } else {
                s.handshake(&SPkt::ok_connack()).await?;
                if when == 1 {
                    s.settle().await?;
                }
                s.drop_client();
                if let Some(mut c) = extra {
                    let k = gen::tagged("last", 0);
                    if do_call(&mut c, &k) {
                        calls.push(k);
                    }
                }
            }
            ctx.add("handles_dropped", 1);
            window(ctx, &mut s, "all handles dropped").await?;
            let mut sent = vec![SPkt::ok_connack()];
            for _ in 0..ctx.rng.range(1, 6) {
                let p = gen::s_packet(&mut ctx.rng);
                s.send(&p);
                sent.push(p);
                if ctx.rng.chance(1, 3) {
                    window(ctx, &mut s, "all handles dropped, between packets").await?;
                }
            }
            s.fence(6).await?;
            sent.push(SPkt::fence(6));
            notified(ctx, &mut s, &sent).await?;
            same_pubacks(&s, &sent)?;
            same_calls(&s, &calls)?;
            quiet_time(ctx, &mut s, "all handles dropped", 40_000, true).await?;
            let pings = s.wire.iter().filter(|x| matches!(x.1, CPkt::Pingreq)).count();
            ensure(pings >= 4, || format!("only {} PINGREQs in 40 s after all handles were dropped", pings))?;
            window(ctx, &mut s, "all handles dropped").await?;
            s.fence(7).await?;
            s.close_server();
            s.expect("the event loop to end", |s| s.outcome.is_some()).await?;
            s.finish(ctx);
        }
    }
    Ok(())
}

/// One kind of event again and again: bounded work for each, and the thread is never put to sleep.
async fn at_work(ctx: &mut Ctx) -> R {
    let kind = ctx.rng.below(12);
    ctx.label = format!("one kind of event again and again: {}", kind);
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    s.settle().await?;
    let n = ctx.rng.range(12, 40);
    let p0 = s.polls;
    for i in 0..n {
        let p = s.polls;
        match kind {
            0..=4 => {
                let c = match kind {
                    0 => gen::tagged(&format!("w{}", i), 0),
                    1 => gen::tagged(&format!("w{}", i), 1),
                    2 => Call::Subscribe("s".into(), 1),
                    3 => Call::Unsubscribe("s".into()),
                    _ => Call::Publish { topic: "t".into(), payload: Pay::Bytes(vec![1; 100_000]), props: vec![], qos: 1, set_qos: true },
                };
                ensure(s.call(&c), || "call refused".into())?;
                s.settle().await?;
                if let Some(a) = s.wire.last().and_then(|x| gen::answer(&mut ctx.rng, &x.1)) {
                    s.send(&a);
                }
            }
            5 => s.send(&SPkt::Publish(gen::s_publish(&mut ctx.rng, 0))),
            6 => s.send(&SPkt::Publish(gen::s_publish(&mut ctx.rng, 1))),
            7 => s.send(&SPkt::Suback { id: 60_000, reason: 0, props: vec![] }),
            8 => s.send(&SPkt::puback(60_000)),
            9 => s.send(&SPkt::Pingresp),
            10 => {
                let b = SPkt::Publish(SPublish { payload: vec![3; 50_000], ..gen::s_publish(&mut ctx.rng, 0) }).encode();
                for x in gen::cut(&mut ctx.rng, &b, 4) {
                    s.send_bytes(x);
                }
            }
            _ => s.pass(8000).await?,
        }
        s.settle().await?;
        ctx.max("max_polls_per_event", s.polls - p);
        let limit = if kind == 10 || kind == 4 { 400 } else { 40 };
        ensure(s.polls - p <= limit, || format!("{} polls for one event of kind {}", s.polls - p, kind))?;
        ensure(s.outcome.is_none(), || format!("ended {:?}", s.outcome))?;
    }
    ctx.add("events_at_work", n as u64);
    ctx.add("polls_at_work", s.polls - p0);
    window(ctx, &mut s, "after work").await?;
    s.finish(ctx);
    Ok(())
}

async fn connecting(ctx: &mut Ctx) -> R {
    let (mut s, busy) = Sess::behind_backlog(ctx)?;
    for i in 0..ctx.rng.below(3) {
        s.call(&gen::tagged(&format!("{}", i), 0));
    }
    window(ctx, &mut s, "connecting").await?;
    let alone = ctx.rng.chance(1, 2);
    if alone {
        s.drop_client();
        ctx.add("handles_dropped", 1);
        window(ctx, &mut s, "connecting").await?;
    }
    if ctx.rng.chance(1, 2) {
        quiet_time(ctx, &mut s, "connecting", 60_000, false).await?;
    }
    if ctx.rng.chance(1, 4) {
        // only this long: the attempt is repeated after a real second
        busy.open(&mut s)?;
        let p = s.polls;
        s.expect("CONNECT", |s| !s.wire.is_empty()).await?;
        ensure(s.polls - p <= 12, || format!("{} polls for one connection that was accepted", s.polls - p))?;
        window(ctx, &mut s, "waiting for CONNACK").await?;
        s.send(&SPkt::ok_connack());
        s.settle().await?;
        window(ctx, &mut s, "connected").await?;
        ctx.add("slow_connections", 1);
    }
    s.finish(ctx);
    Ok(())
}

async fn exhausted(ctx: &mut Ctx) -> R {
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    s.trace_cap(40);
    let mut n = 0;
    while n < 65535 {
        let k = (65535 - n).min(90);
        for _ in 0..k {
            ensure(s.call(&Call::Subscribe("s".into(), 0)), || "call refused".into())?;
        }
        s.expect("requests on the wire", |s| n_calls(s) >= k).await?;
        s.wire.clear();
        n += k;
    }
    window(ctx, &mut s, "all identifiers outstanding").await?;
    for i in 0..5 {
        s.call(&gen::tagged(&format!("w{}", i), 1));
    }
    window(ctx, &mut s, "all identifiers outstanding, requests waiting").await?;
    quiet_time(ctx, &mut s, "all identifiers outstanding, requests waiting", 40_000, true).await?;
    s.fence(8).await?;
    s.wire.clear();
    for id in 1..=5u16 {
        s.send(&SPkt::Suback { id, reason: 0, props: vec![] });
    }
    s.expect("waiting requests on the wire", |s| n_calls(s) == 5).await?;
    s.finish(ctx);
    Ok(())
}

// ------------------------------------------------------------------------------ C16
fn live(s: &mut Sess) -> i64 {
    // drop what the harness itself recorded
    s.wire = vec![];
    s.notifs = vec![];
    s.inbuf = vec![];
    s.outq = Default::default();
    s.forget_trace();
    crate::alloc::live()
}

/// `n` rounds of requests of every kind, each answered; messages, each consumed.
async fn work(ctx: &mut Ctx, s: &mut Sess, n: usize, style: usize, varied: bool) -> R {
    // requests that stay unanswered for some cycles
    let mut held: Vec<CPkt> = vec![];
    for i in 0..n {
        let base = n_calls(s);
        let many = if i == 0 { true } else { ctx.rng.chance(1, 40) };
        let k = if many { 95 } else { 3 + ctx.rng.below(4) };
        for j in 0..k {
            if varied && ctx.rng.chance(1, 10) {
                let c = gen::call01(&mut ctx.rng);
                ensure(s.call(&c), || "call refused".into())?;
                continue;
            }
            let c = match if style == 3 { j % 4 } else { style } {
                0 => Call::Publish { topic: "topic/of/some/length".into(), payload: Pay::Bytes(vec![7; 300]), props: vec![Prop::User("k".into(), "v".into())], qos: 1, set_qos: true },
                1 => Call::Subscribe("filter/of/some/length/#".into(), 1),
                2 => Call::Unsubscribe("filter/of/some/length/#".into()),
                _ => Call::Publish { topic: "t".into(), payload: Pay::Text("x".repeat(200)), props: vec![], qos: 0, set_qos: true },
            };
            ensure(s.call(&c), || "call refused".into())?;
        }
        s.expect("requests on the wire", |s| n_calls(s) >= base + k).await?;
        let mut t = call_packets(s);
        t.drain(..base);
        let fresh = t.len();
        t.append(&mut held);
        match ctx.rng.below(5) {
            0 => {}
            1 => t.reverse(),
            2 => {
                // every other identifier first
                t.sort_by_key(|p| (p.needs_id().unwrap_or(0) % 2, p.needs_id()));
            }
            _ => ctx.rng.shuffle(&mut t),
        }
        if i + 1 < n && ctx.rng.chance(1, 2) {
            let keep = ctx.rng.below(8).min(fresh);
            held = t.split_off(t.len() - keep);
            ctx.add("answered_later", held.len() as u64);
        }
        for p in &t {
            // plain success, or any reason code and properties
            let varied = varied && ctx.rng.chance(1, 2);
            let a = match p {
                _ if varied => match gen::answer(&mut ctx.rng, p) {
                    Some(a) => a,
                    None => continue,
                },
                CPkt::Publish { qos: 1, id, .. } => SPkt::puback(*id),
                CPkt::Subscribe { id, .. } => SPkt::Suback { id: *id, reason: 0, props: vec![] },
                CPkt::Unsubscribe { id, .. } => SPkt::Unsuback { id: *id, reason: 0, props: vec![] },
                _ => continue,
            };
            s.send(&a);
            if varied && ctx.rng.chance(1, 8) {
                // the same answer again, or one nobody waits for: everything it names has been released or is unknown
                if !matches!(a, SPkt::Puback { .. }) || ctx.rng.chance(1, 2) {
                    s.send(&a);
                } else {
                    s.send(&SPkt::Suback { id: 40_000, reason: 0, props: gen::ack_props(&mut ctx.rng) });
                }
            }
        }
        if varied {
            match ctx.rng.below(6) {
                0 => {
                    let p = gen::s_publish(&mut ctx.rng, (i % 2) as u8);
                    s.send(&SPkt::Publish(p));
                }
                1 => {
                    // refused at the call
                    let c = Call::Publish { topic: "x".repeat(65_536 + ctx.rng.below(100)), payload: Pay::Bytes(vec![]), props: vec![], qos: 1, set_qos: true };
                    ensure(!s.call(&c), || "an oversized call was accepted".into())?;
                    ensure(!s.call(&Call::Subscribe("x".repeat(70_000), 1)), || "an oversized call was accepted".into())?;
                }
                3 if !many => {
                    // more calls than the queue takes
                    s.settle().await?;
                    let base = n_calls(s);
                    let mut taken = 0;
                    for _ in 0..140 {
                        taken += s.call(&Call::Publish { topic: "flood/of/calls".into(), payload: Pay::Bytes(vec![9; 200]), props: vec![], qos: 0, set_qos: true }) as usize;
                    }
                    ctx.add("refused_for_want_of_room", 140 - taken as u64);
                    s.expect("the calls that were accepted", |s| n_calls(s) >= base + taken).await?;
                }
                2 => {
                    // handles come and go
                    let c = s.client.clone();
                    drop(c);
                    s.send(&SPkt::Pingresp);
                }
                _ => {}
            }
        }
        s.send(&SPkt::Publish(SPublish { dup: false, qos: 0, retain: false, topic: "in".into(), id: 0, props: vec![Prop::Corr(vec![1; 40])], payload: vec![2; 150] }));
        s.fence((i % 65535 + 1) as u16).await?;
        s.settle().await?;
        ctx.add("cycles", 1);
        if i % 16 == 15 {
            s.wire.clear();
            s.notifs.clear();
        }
        if i % 200 == 199 {
            // keep-alive traffic as well
            s.advance(8000).await?;
            s.send(&SPkt::Pingresp);
            s.settle().await?;
        }
    }
    Ok(())
}

/// Nothing but time and keep-alive.
async fn pings_only(ctx: &mut Ctx) -> R {
    ctx.label = "pings only".into();
    let before = crate::alloc::live();
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    s.trace_cap(10);
    if ctx.rng.chance(1, 3) {
        s.settle().await?;
        s.drop_rx();
    }
    if ctx.rng.chance(1, 3) {
        s.drop_client();
    }
    s.pass(8000 * 60).await?;
    let m1 = live(&mut s);
    let n = if ctx.thorough { 40_000 } else { 3_000 };
    for _ in 0..n / 50 {
        s.pass(8000 * 50).await?;
        s.wire.clear();
    }
    let m2 = live(&mut s);
    ctx.add("cycles", n);
    ctx.add("ping_intervals", n);
    ctx.add("measurements", 2);
    ctx.max("max_growth_bytes", (m2 - m1).max(0) as u64);
    ensure(m2 - m1 < 8_000, || format!("live heap grew by {} bytes over {} keep-alive intervals ({} -> {})", m2 - m1, n, m1, m2))?;
    s.close_server();
    s.expect("the event loop to end", |s| s.outcome.is_some()).await?;
    live(&mut s);
    s.finish(ctx);
    ensure(crate::alloc::live() - before < 60_000, || "a finished session leaves bytes behind".into())?;
    ctx.nontrivial = true;
    Ok(())
}

/// One session that ends in some state; everything of it is dropped.
async fn short_life(ctx: &mut Ctx) -> R {
    let mut s = Sess::new(ctx, Opts::default())?;
    s.trace_cap(10);
    let some_calls = |ctx: &mut Ctx, s: &mut Sess, most: usize| {
        for _ in 0..ctx.rng.below(most) {
            let c = gen::call01(&mut ctx.rng);
            s.call(&c);
        }
    };
    some_calls(ctx, &mut s, 3);
    let stage = ctx.rng.below(5);
    if stage == 0 {
        // never got anywhere
        for _ in 0..ctx.rng.below(6) {
            s.turn().await?;
        }
    } else {
        s.expect("CONNECT", |s| !s.wire.is_empty()).await?;
    }
    if stage >= 2 {
        s.handshake(&SPkt::ok_connack()).await?;
        some_calls(ctx, &mut s, 12);
        for _ in 0..ctx.rng.below(6) {
            let p = gen::s_packet(&mut ctx.rng);
            s.send(&p);
        }
        s.settle().await?;
    }
    if stage >= 3 {
        // the application stops reading, the loop holds a notification
        s.consume = false;
        if ctx.rng.chance(1, 3) {
            for i in 0..130 {
                s.send(&SPkt::Publish(SPublish { dup: false, qos: (i % 2) as u8, retain: false, topic: "q".into(), id: if i % 2 == 1 { 7 } else { 0 }, props: vec![], payload: vec![1; 50] }));
            }
            s.settle().await?;
        }
        some_calls(ctx, &mut s, 40);
    }
    if ctx.rng.chance(1, 3) {
        // part of a packet
        let b = gen::s_packet(&mut ctx.rng).encode();
        let n = ctx.rng.range(1, b.len() - 1);
        s.send_bytes(b[..n].to_vec());
        s.settle().await?;
    }
    match ctx.rng.below(6) {
        0 => s.drop_ev(),
        1 => s.drop_rx(),
        2 => s.drop_client(),
        3 => s.close_server(),
        4 => s.reset_server(),
        _ => s.send(&SPkt::Disconnect { reason: Some(0x8b), props: None }),
    }
    for _ in 0..ctx.rng.below(20) {
        s.turn().await?;
    }
    s.finish(ctx);
    Ok(())
}

/// Many sessions come and go, none leaves anything.
async fn come_and_go(ctx: &mut Ctx) -> R {
    ctx.label = "many sessions, one after the other".into();
    let n = if ctx.thorough { 2000 } else { 400 };
    for _ in 0..80 {
        short_life(ctx).await?;
    }
    settle_runtime().await;
    let m1 = crate::alloc::live();
    for _ in 0..n {
        short_life(ctx).await?;
    }
    settle_runtime().await;
    let m2 = crate::alloc::live();
    ctx.add("measurements", 2);
    ctx.add("sessions_come_and_gone", n as u64 + 80);
    ctx.max("max_growth_per_100_sessions", ((m2 - m1).max(0) as u64) * 100 / n as u64);
    ensure(m2 - m1 < 3_000 + 4 * n as i64, || format!("{} bytes are left by {} sessions whose every part was dropped", m2 - m1, n))?;
    ctx.nontrivial = true;
    Ok(())
}

/// The runtime forgets closed sockets when it next looks.
async fn settle_runtime() {
    for _ in 0..50 {
        tokio::task::yield_now().await;
    }
}

pub async fn c16(ctx: &mut Ctx) -> R {
    if ctx.idx % 8 == 3 {
        return come_and_go(ctx).await;
    }
    if ctx.idx % 8 == 6 {
        return pings_only(ctx).await;
    }
    let style = (ctx.idx % 5) as usize;
    let varied = ctx.idx % 2 == 1;
    let burst = ctx.idx % 3 == 0;
    ctx.label = format!("style {}, burst {}, varied answers {}", style, burst, varied);
    // what one scenario leaves behind in the runtime is not the session's
    let before = crate::alloc::live();
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    s.trace_cap(10);
    let style = style.min(3);
    if ctx.rng.chance(1, 4) {
        ctx.add("receivers_dropped", 1);
        s.settle().await?;
        s.drop_rx();
    }
    if varied {
        // buffers keep their capacity: let them reach it first
        for n in [200_000, 100_000, 200_000] {
            s.send(&SPkt::Publish(SPublish { dup: false, qos: 1, retain: false, topic: "big".into(), id: 7, props: vec![], payload: vec![0; n] }));
            s.fence(1).await?;
        }
        let big = Call::Publish { topic: "t".into(), payload: Pay::Bytes(vec![0; 200_000]), props: vec![], qos: 0, set_qos: true };
        ensure(s.call(&big), || "call refused".into())?;
        s.settle().await?;
    }
    work(ctx, &mut s, 250, style, varied).await?;
    let m1 = live(&mut s);
    let n = if ctx.thorough { 20_000 } else { 3_000 };
    work(ctx, &mut s, n, style, varied).await?;
    let m2 = live(&mut s);
    ctx.add("measurements", 2);
    let grown = m2 - m1;
    ctx.max("max_growth_bytes", grown.max(0) as u64);
    // 3,000 cycles of 3-6 requests: one leaked byte per request is 12 KB, one small allocation 200 KB
    ensure(grown < 8_000, || format!("live heap grew by {} bytes over {} cycles in which everything was answered and consumed ({} -> {})", grown, n, m1, m2))?;
    if burst {
        // a large number outstanding, then answered
        let mut ids = vec![];
        let total = ctx.rng.range(2_000, 8_000);
        while ids.len() < total {
            let base = n_calls(&s);
            for _ in 0..80 {
                ensure(s.call(&Call::Publish { topic: "b".into(), payload: Pay::Bytes(vec![1; 500]), props: vec![], qos: 1, set_qos: true }), || "call refused".into())?;
            }
            s.expect("requests on the wire", |s| n_calls(s) >= base + 80).await?;
            ids.extend(call_packets(&s).drain(base..).filter_map(|p| p.needs_id()));
            s.wire.clear();
        }
        if ctx.rng.chance(1, 2) {
            ctx.rng.shuffle(&mut ids);
        }
        for (i, id) in ids.iter().enumerate() {
            s.send(&SPkt::puback(*id));
            if i % 100 == 99 {
                s.settle().await?;
            }
        }
        s.fence(1).await?;
        let held = ids.len();
        drop(ids);
        work(ctx, &mut s, 20, style, varied).await?;
        let m3 = live(&mut s);
        ctx.add("measurements", 1);
        // index structures may keep their capacity, the messages themselves must be gone
        let cap = 20_000 + held as i64 * 120;
        ensure(m3 - m2 < cap, || format!("{} bytes more than before a burst of {} messages that have all been acknowledged", m3 - m2, held))?;
        work(ctx, &mut s, 300, style, varied).await?;
    }
    // dropped: back to where we started
    s.close_server();
    s.expect("the event loop to end", |s| s.outcome.is_some()).await?;
    s.settle().await?;
    live(&mut s);
    s.finish(ctx);
    let after = crate::alloc::live();
    ctx.add("measurements", 1);
    ensure(after - before < 60_000, || format!("a finished session leaves {} bytes behind", after - before))?;
    ctx.nontrivial = true;
    Ok(())
}
