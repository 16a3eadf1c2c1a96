//! C10 (accepted calls: exactly once, in order) and C11 (notifications: exactly once, in order).
//! The multi-threaded rounds are in stress.rs.
use super::*;
use crate::gen;
use ruq::Client;

// ------------------------------------------------------------------------------ C10
/// A call returns without waiting for anything.
pub async fn c10(ctx: &mut Ctx) -> R {
    crate::engine::SMALL_CALLS.with(|x| x.set((0, 0, 0)));
    c10_(ctx).await?;
    let (n, k, ms) = crate::engine::SMALL_CALLS.with(|x| x.get());
    ctx.add("calls_timed", n);
    ctx.max("max_calls_that_slept", k);
    ensure(k < 4 || k * 30 < n, || format!("{} of {} calls put their thread to sleep, for {} ms altogether", k, n, ms))
}

async fn c10_(ctx: &mut Ctx) -> R {
    if ctx.idx == 11 {
        super::marathon::marathon(ctx).await?;
    }
    let small = ctx.rng.chance(1, 2);
    let mut s = Sess::new(ctx, Opts { rcvbuf: if small { Some(2048) } else { None }, ..Opts::default() })?;
    let mut handles: Vec<Client> = vec![];
    for _ in 0..ctx.rng.range(1, 6) {
        handles.push(s.client.clone().unwrap());
    }
    let mut exp: Vec<Call> = vec![];
    let mut n = 0u64;
    let mut refused = 0u64;
    let early = ctx.rng.below(3);
    if early > 0 {
        // before the connection exists, sometimes until the queue is full
        let k = if early == 1 { ctx.rng.range(1, 60) } else { ctx.rng.range(100, 260) };
        burst(ctx, &mut s, &mut handles, &mut exp, &mut n, &mut refused, k, 100);
    }
    s.handshake(&SPkt::ok_connack()).await?;
    let rounds = ctx.rng.range(1, 6);
    let mut answered = 0usize;
    for _ in 0..rounds {
        match ctx.rng.below(5) {
            // server stops reading; the application goes on until the queue refuses
            0 | 1 => {
                s.settle().await?;
                s.read_enabled = false;
                s.note("server stops reading".into());
                let size = if small { 20_000 } else { 200_000 };
                let before = refused;
                for _ in 0..ctx.rng.range(3, 9) {
                    let k = ctx.rng.range(10, 60);
                    burst(ctx, &mut s, &mut handles, &mut exp, &mut n, &mut refused, k, size);
                    for _ in 0..20 {
                        s.turn().await?;
                    }
                }
                if refused > before {
                    ctx.add("stalls", 1);
                }
                if ctx.rng.chance(1, 2) {
                    // for less than a keep-alive interval
                    let ms = ctx.rng.range(100, 7500) as u64;
                    s.advance(ms).await?;
                    ensure(s.outcome.is_none(), || format!("the event loop ended {:?} because the server did not read for {} ms", s.outcome, ms))?;
                    ctx.add("long_stalls", 1);
                }
                // server traffic meanwhile
                if ctx.rng.chance(1, 2) {
                    for _ in 0..5 {
                        let p = gen::s_packet(&mut ctx.rng);
                        s.send(&p);
                        s.turn().await?;
                    }
                }
                s.note("server reads again".into());
                s.read_enabled = true;
            }
            2 => {
                let k = ctx.rng.range(80, 200);
                burst(ctx, &mut s, &mut handles, &mut exp, &mut n, &mut refused, k, 50);
            }
            _ => {
                for _ in 0..ctx.rng.range(1, 10) {
                    let k = ctx.rng.range(1, 12);
                    burst(ctx, &mut s, &mut handles, &mut exp, &mut n, &mut refused, k, 300);
                    s.turn().await?;
                    if ctx.rng.chance(1, 3) {
                        let p = gen::s_packet(&mut ctx.rng);
                        s.send(&p);
                    }
                    if ctx.rng.chance(1, 4) && handles.len() > 1 {
                        let i = ctx.rng.below(handles.len());
                        handles.remove(i);
                    } else if ctx.rng.chance(1, 4) {
                        let h = ctx.rng.pick(&handles).clone();
                        handles.push(h);
                    }
                }
            }
        }
        let want = exp.len();
        s.expect("every accepted call on the wire", |s| n_calls(s) >= want).await?;
        let t = call_packets(&s);
        for p in &t[answered..] {
            if ctx.rng.chance(1, 2) {
                if let Some(a) = gen::answer(&mut ctx.rng, p) {
                    s.send(&a);
                }
            }
        }
        answered = t.len();
        s.pong().await?;
        if ctx.rng.chance(1, 20) {
            s.pass_some(ctx).await?;
        }
    }
    // a last burst directly followed by disconnect, then calls that come too late
    let mut late: Vec<(Call, bool)> = vec![];
    if ctx.rng.chance(1, 2) {
        let k = ctx.rng.range(0, 90);
        burst(ctx, &mut s, &mut handles, &mut exp, &mut n, &mut refused, k, 100);
        let i = ctx.rng.below(handles.len());
        if do_call(&mut handles[i], &Call::Disconnect) {
            s.note("call disconnect -> Ok".into());
            exp.push(Call::Disconnect);
            for _ in 0..ctx.rng.below(4) {
                let c = gen::tagged(&format!("late{}", n), 0);
                n += 1;
                let mut h = ctx.rng.pick(&handles).clone();
                let ok = do_call(&mut h, &c);
                late.push((c, ok));
            }
            s.expect("the event loop to finish after disconnect", |s| s.outcome.is_some() && (s.srv_eof || s.srv_rst)).await?;
            ensure(s.outcome == Some(Outcome::Ok), || format!("disconnect ended with {:?}", s.outcome))?;
        }
    } else {
        s.fence(12).await?;
    }
    let want = exp.len();
    s.expect("every accepted call on the wire", |s| n_calls(s) >= want).await?;
    s.settle().await?;
    same_calls(&s, &exp)?;
    ctx.add("accepted", exp.len() as u64);
    ctx.add("refused", refused);
    ctx.nontrivial = !exp.is_empty();
    s.finish(ctx);
    Ok(())
}

fn burst(ctx: &mut Ctx, s: &mut Sess, handles: &mut [Client], exp: &mut Vec<Call>, n: &mut u64, refused: &mut u64, k: usize, size: usize) {
    for _ in 0..k {
        let i = ctx.rng.below(handles.len());
        let tag = format!("{}:{}", i, n);
        *n += 1;
        let c = match ctx.rng.below(10) {
            0 => Call::Subscribe(tag, (*n % 3) as u8),
            1 => Call::Unsubscribe(tag),
            x => {
                let len = if size > 1000 { size } else { ctx.rng.below(size) };
                Call::Publish { topic: tag, payload: Pay::Bytes(vec![(*n % 251) as u8; len]), props: vec![], qos: (x % 2) as u8, set_qos: true }
            }
        };
        let ok = do_call(&mut handles[i], &c);
        absorb(&ctx.sig, hash_bytes(c.brief().as_bytes()) ^ ok as u64);
        if ok {
            s.note(format!("call {} -> Ok", c.brief()));
            exp.push(c);
        } else {
            *refused += 1;
            s.note(format!("call {} -> Err", c.brief()));
        }
    }
    s.ext();
}

// ------------------------------------------------------------------------------ C11
pub async fn c11(ctx: &mut Ctx) -> R {
    if ctx.idx == 11 {
        super::marathon::marathon(ctx).await?;
    }
    let mut s = Sess::new(ctx, Opts::default())?;
    let early_stall = ctx.rng.chance(1, 6);
    s.consume = !early_stall;
    let no_receiver = ctx.rng.chance(1, 16);
    if no_receiver {
        // gone before there was anything to notify
        s.drop_rx();
        ctx.add("receiver_dropped", 1);
    }
    let ack = gen::ok_connack(&mut ctx.rng);
    s.handshake(&ack).await?;
    let mut sent = vec![ack];
    let mut calls: Vec<Call> = vec![];
    let big = ctx.idx % 6 == 0;
    let rounds = if no_receiver { 0 } else { ctx.rng.range(1, 4) };
    let mut full = false;
    let tag = ctx.rng.u64();
    for _ in 0..rounds {
        s.consume = ctx.rng.chance(1, 3);
        s.note(format!("application {}", if s.consume { "reads" } else { "stops reading" }));
        let k = if big { ctx.rng.range(150, 700) } else { ctx.rng.range(1, 130) };
        for i in 0..k {
            let p = match ctx.rng.below(8) {
                0 => SPkt::Suback { id: gen::any_id(&mut ctx.rng), reason: 0, props: gen::ack_props(&mut ctx.rng) },
                1 => SPkt::Unsuback { id: gen::any_id(&mut ctx.rng), reason: 0, props: vec![] },
                2 => gen::s_packet(&mut ctx.rng),
                x => SPkt::Publish(SPublish { dup: false, qos: (x % 2) as u8, retain: false, topic: "n".into(), id: (i % 65535 + 1) as u16, props: vec![], payload: format!("{}-{}", tag, sent.len()).into_bytes() }),
            };
            s.send(&p);
            sent.push(p);
            if ctx.rng.chance(1, 20) {
                s.turn().await?;
            }
            if !s.consume && ctx.rng.chance(1, 60) {
                let k = ctx.rng.range(1, 5);
                s.take_some(k);
            }
            if ctx.rng.chance(1, 30) && calls.len() < 60 {
                let c = gen::tagged(&format!("c{}", calls.len()), 0);
                ensure(s.call(&c), || "call refused".into())?;
                calls.push(c);
            }
        }
        for _ in 0..30 {
            s.turn().await?;
        }
        s.settle().await?;
        if !s.consume {
            let pending = n_notifying(&sent) - s.notifs.len();
            if pending > 101 {
                full = true;
            }
            if ctx.rng.chance(1, if pending > 101 { 3 } else { 20 }) {
                // the application does something else for a while
                s.pass_some(ctx).await?;
                ctx.add("long_absences", 1);
            }
            // irregular draining
            for _ in 0..ctx.rng.range(0, 40) {
                let k = *ctx.rng.pick(&[1usize, 1, 2, 3, 10, 100, 101, 102]);
                s.take_some(k);
                s.turn().await?;
            }
        }
    }
    if full {
        ctx.add("queue_full", 1);
    }
    match if no_receiver { 0 } else { ctx.rng.below(5) } {
        // the receiver goes away, whatever is pending
        0 => {
            s.consume = false;
            if ctx.rng.chance(1, 2) {
                s.drop_rx();
            } else {
                s.settle().await?;
                s.drop_rx();
            }
            ctx.add("receiver_dropped", 1);
            for _ in 0..ctx.rng.range(1, 150) {
                let p = gen::s_packet(&mut ctx.rng);
                s.send(&p);
                sent.push(p);
            }
            let c = gen::tagged("after", 1);
            ensure(s.call(&c), || "call refused after the receiver was dropped".into())?;
            calls.push(c);
            let q = qos1_ids(&sent).len();
            s.expect("PUBACKs after the receiver was dropped", |s| s.pubacks() >= q || s.outcome.is_some()).await?;
            s.fence(60_000).await?;
            sent.push(SPkt::fence(60_000));
            let want = calls.len();
            s.expect("calls on the wire after the receiver was dropped", |s| n_calls(s) >= want).await?;
            same_pubacks(&s, &sent)?;
            same_calls(&s, &calls)?;
            // what was taken before is a prefix of what was sent
            let n = s.notifs.len();
            let mut k = 0;
            let part: Vec<SPkt> = sent.iter().take_while(|p| { if notifies(p) { k += 1; } k <= n }).cloned().collect();
            let got = s.notifs.clone();
            same_notifs(ctx, &got, &part)?;
        }
        // the session ends while notifications are pending
        1 | 2 => {
            s.consume = false;
            let kind = ctx.rng.below(3);
            match kind {
                0 => s.close_server(),
                1 => s.send(&SPkt::Disconnect { reason: Some(0), props: None }),
                _ => s.send(&SPkt::Disconnect { reason: Some(0x8b), props: None }),
            }
            s.settle().await?;
            let ended_first = s.outcome.is_some();
            let total = n_notifying(&sent);
            let mut guard = 0;
            while !s.notif_end && guard < 100_000 {
                guard += 1;
                let k = *ctx.rng.pick(&[1usize, 1, 5, 50, 200]);
                if s.take_some(k) == 0 {
                    s.consume = true;
                    s.expect("the end of the notification stream", |s| s.notif_end).await?;
                }
                if ctx.rng.chance(1, 2) {
                    s.turn().await?;
                }
            }
            s.settle().await?;
            s.note(format!("stream ended after {} of {} (loop ended first: {})", s.notifs.len(), total, ended_first));
            ensure(s.outcome.is_some(), || "notification stream ended before the event loop".into())?;
            let got = s.notifs.clone();
            same_notifs(ctx, &got, &sent)?;
            if ended_first {
                ctx.add("read_after_end", 1);
            }
        }
        _ => {
            s.consume = true;
            s.settle().await?;
            s.fence(60_001).await?;
            sent.push(SPkt::fence(60_001));
            notified(ctx, &mut s, &sent).await?;
            let want = calls.len();
            s.expect("calls on the wire", |s| n_calls(s) >= want).await?;
            same_pubacks(&s, &sent)?;
            same_calls(&s, &calls)?;
        }
    }
    ctx.nontrivial = full || sent.len() > 20;
    s.finish(ctx);
    Ok(())
}
