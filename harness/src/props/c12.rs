//! C12 (handshake) and C13 (keep-alive).
use super::*;
use crate::gen;
use crate::rng::Rng;

// ------------------------------------------------------------------------------ C12
pub async fn c12(ctx: &mut Ctx) -> R {
    let kind = ctx.idx % 16;
    let mut s = Sess::new(ctx, Opts::default())?;
    let mut early: Vec<Call> = vec![];
    let ncalls = match ctx.rng.below(4) {
        0 => 0,
        1 => ctx.rng.range(50, 100),
        _ => ctx.rng.range(1, 12),
    };
    let when = ctx.rng.below(3);
    let no_receiver = ctx.rng.chance(1, 16);
    if no_receiver {
        s.drop_rx();
        ctx.add("receivers_dropped", 1);
    }
    let mut mk = |ctx: &mut Ctx, s: &mut Sess, k: usize| -> R {
        for _ in 0..k {
            let c = if early.len() < 40 { gen::call(&mut ctx.rng) } else { gen::tagged(&format!("{}", early.len()), 1) };
            ensure(s.call(&c), || format!("valid call refused before CONNACK: {}", c.brief()))?;
            early.push(c);
            ctx.add("early_calls", 1);
        }
        Ok(())
    };
    if when == 0 {
        mk(ctx, &mut s, ncalls)?;
    }
    s.expect("CONNECT", |s| !s.wire.is_empty()).await?;
    match &s.wire[0].1 {
        CPkt::Connect { clean, .. } => ensure(*clean, || "CONNECT does not ask for a clean start".into())?,
        p => return viol(format!("the first packet is {}", p.brief())),
    }
    ctx.add("connects", 1);
    if when == 1 {
        mk(ctx, &mut s, ncalls)?;
    }
    // a pause, sometimes of many virtual seconds, in which nothing may be sent
    if ctx.rng.chance(1, 3) {
        let ms = *ctx.rng.pick(&[10u64, 5000, 8001, 20_000, 100_000]);
        s.advance(ms).await?;
    }
    s.settle().await?;
    ensure(s.wire.len() == 1, || format!("{} sent before CONNACK", s.wire[1].1.brief()))?;
    ensure(s.outcome.is_none(), || format!("event loop ended while waiting for CONNACK: {:?}", s.outcome))?;
    if when == 2 {
        mk(ctx, &mut s, ncalls)?;
    }
    let mut bytes;
    let mut notif: Vec<SPkt> = vec![];
    let mut eof = false;
    let mut rst = false;
    let mut good = false;
    let mut after: Vec<SPkt> = vec![];
    match kind {
        0..=3 => {
            let p = SPkt::Connack { sp: ctx.rng.chance(1, 4), reason: 0, props: gen::ack_props(&mut ctx.rng) };
            bytes = p.encode();
            notif.push(p);
            good = true;
            // glued traffic right behind it
            for _ in 0..ctx.rng.below(4) {
                after.push(gen::s_packet(&mut ctx.rng));
            }
            for p in &after {
                bytes.extend(p.encode());
            }
        }
        4..=6 => {
            ctx.add("refusals", 1);
            let r = CONNACK_REASONS[1 + (ctx.idx / 16 * 3 + kind - 4) as usize % (CONNACK_REASONS.len() - 1)].0;
            ctx.label = format!("refused with {}", r);
            let p = SPkt::Connack { sp: false, reason: r, props: gen::ack_props(&mut ctx.rng) };
            bytes = p.encode();
            notif.push(p);
            if ctx.rng.chance(1, 2) {
                // traffic behind a refusal must be ignored
                bytes.extend(gen::s_packet(&mut ctx.rng).encode());
            }
            eof = ctx.rng.chance(1, 3);
        }
        7 | 8 => {
            ctx.label = "another packet first".into();
            let p = match ctx.rng.below(3) {
                0 => SPkt::Disconnect { reason: Some(*ctx.rng.pick(DISCONNECT_REASONS)), props: None },
                _ => gen::s_packet(&mut ctx.rng),
            };
            bytes = p.encode();
            bytes.extend(SPkt::ok_connack().encode());
            eof = ctx.rng.chance(1, 3);
        }
        9 | 10 => {
            ctx.label = "malformed CONNACK".into();
            bytes = bad_connack(&mut ctx.rng);
            if ctx.rng.chance(1, 2) {
                bytes.extend(SPkt::ok_connack().encode());
            }
            eof = ctx.rng.chance(1, 3);
        }
        11 | 12 => {
            ctx.label = "malformed bytes first".into();
            let k = ctx.rng.below(super::c05::BAD_KINDS);
            bytes = super::c05::bad_packet(&mut ctx.rng, k).1;
            eof = ctx.rng.chance(1, 3);
        }
        13 => {
            ctx.label = "close before CONNACK".into();
            bytes = vec![];
            eof = true;
            ctx.add("eof_before_connack", 1);
        }
        14 => {
            ctx.label = "close inside CONNACK".into();
            let b = SPkt::Connack { sp: false, reason: *ctx.rng.pick(&[0u8, 0x87]), props: gen::ack_props(&mut ctx.rng) }.encode();
            let n = ctx.rng.range(1, b.len() - 1);
            bytes = b[..n].to_vec();
            eof = true;
            ctx.add("eof_before_connack", 1);
        }
        _ => {
            ctx.label = "reset before CONNACK".into();
            bytes = vec![];
            rst = true;
        }
    }
    let mode = if bytes.len() > 1000 { 4 } else { ctx.rng.below(7) };
    for piece in gen::cut(&mut ctx.rng, &bytes, mode) {
        s.send_bytes(piece);
        if ctx.rng.chance(1, 2) {
            s.turn().await?;
        }
    }
    if eof || rst {
        s.settle().await?;
        if eof {
            s.close_server();
        } else {
            s.reset_server();
        }
    }
    if good {
        let want = early.len();
        s.expect("early calls on the wire after CONNACK", |s| n_calls(s) >= want || s.outcome.is_some()).await?;
        notif.extend(after.iter().cloned());
        s.fence(8).await?;
        notif.push(SPkt::fence(8));
        let acks = qos1_ids(&notif).len();
        s.expect("a PUBACK for every QoS 1 message", |s| s.pubacks() >= acks).await?;
        if !no_receiver {
            notified(ctx, &mut s, &notif).await?;
        }
        if ctx.rng.chance(1, 30) {
            s.pass_some(ctx).await?;
        }
        same_pubacks(&s, &notif)?;
        same_calls(&s, &early)?;
        let n = s.wire.iter().filter(|x| matches!(x.1, CPkt::Connect { .. })).count();
        ensure(n == 1, || format!("{} CONNECT packets", n))?;
    } else {
        if !s.until(|s| s.outcome.is_some()).await? {
            return viol(format!("the event loop keeps running although the handshake failed ({}; {})", ctx.label, super::c05::hex(&bytes)));
        }
        s.settle().await?;
        ensure(s.outcome.as_ref().unwrap().is_err(), || format!("event loop ended {:?} although the handshake failed ({}; {})", s.outcome, ctx.label, super::c05::hex(&bytes)))?;
        ensure(s.wire.len() == 1, || format!("{} was sent although the handshake failed ({})", s.wire[1].1.brief(), ctx.label))?;
        let got = s.notifs.clone();
        if !no_receiver {
            same_notifs(ctx, &got, &notif)?;
        }
    }
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

fn bad_connack(r: &mut crate::rng::Rng) -> Vec<u8> {
    match r.below(9) {
        0 => {
            // unknown reason
            let mut x = r.u64() as u8;
            while CONNACK_REASONS.iter().any(|k| k.0 == x) {
                x = r.u64() as u8;
            }
            frame(0x20, &[0, x, 0])
        }
        1 => frame(0x20, &[r.range(2, 255) as u8, 0, 0]),
        2 => {
            let n = r.below(3);
            frame(0x20, &[0, 0, 0][..n])
        }
        3 => {
            // property section overruns
            let n = r.range(1, 127) as u8;
            frame(0x20, &[0, 0, n])
        }
        4 => {
            // string overruns its section
            frame(0x20, &[0, 0, 4, 0x1f, 0, 5, b'a'])
        }
        5 => frame(0x20, &[0, 0, 4, 0x1f, 0, 1, 0xff]),
        6 => frame(0x20, &[0, 0, 2, 0x01, 1]),
        7 => frame(0x20, &[0, 0, 6, 0x26, 0, 1, b'k', 0, 2]),
        _ => vec![0x20, 0xff, 0xff, 0xff, 0xff, 0x7f, 0, 0, 0],
    }
}

// ------------------------------------------------------------------------------ C13
#[derive(Clone, Copy, Debug, PartialEq)]
enum Policy {
    Prompt,
    Late,
    /// answers until the n-th PINGREQ, which it ignores
    Stops(u64),
    Duplicate,
}

async fn keep_alive_of(s: &mut Sess) -> R<u64> {
    s.expect("CONNECT", |s| !s.wire.is_empty()).await?;
    match &s.wire[0].1 {
        CPkt::Connect { keep_alive, .. } => Ok(*keep_alive as u64 * 1000),
        p => viol(format!("first packet {}", p.brief())),
    }
}
fn n_pings(s: &Sess) -> usize {
    s.wire.iter().filter(|x| matches!(x.1, CPkt::Pingreq)).count()
}
fn timed_out(s: &Sess) -> bool {
    matches!(&s.outcome, Some(Outcome::Err { kind: Some(std::io::ErrorKind::TimedOut), .. }))
}

/// The server stays silent from now on: the event loop must time out, not before a PINGREQ
/// has been unanswered for an interval and not long after.
async fn dies(ctx: &mut Ctx, s: &mut Sess, ka: u64, what: &str) -> R {
    let start = s.now();
    while s.outcome.is_none() && s.now() < start + 3 * ka {
        s.advance(250).await?;
    }
    ensure(timed_out(s), || format!("{}: the server has answered no PINGREQ for {} ms, outcome {:?}", what, s.now() - start, s.outcome))?;
    let last = s.wire.iter().filter(|x| matches!(x.1, CPkt::Pingreq)).map(|x| x.0).max().unwrap_or(0);
    ensure(s.outcome_at + 20 >= last + ka, || format!("{}: timed out {} ms after the last PINGREQ", what, s.outcome_at - last))?;
    ctx.add("timeouts", 1);
    Ok(())
}

/// This side is slow: the event loop is not polled for a while. The server answers at once.
async fn c13_unpolled(ctx: &mut Ctx) -> R {
    let mut s = Sess::new(ctx, Opts::default())?;
    let ka = keep_alive_of(&mut s).await?;
    s.handshake(&SPkt::ok_connack()).await?;
    s.settle().await?;
    let mut answered = 0;
    if ctx.rng.chance(1, 2) {
        s.starve = Some(Rng::new(ctx.rng.range(0, 1 << 30) as u64));
        ctx.add("starved", 1);
    }
    for _ in 0..ctx.rng.range(3, 12) {
        // lets the server answer (or not yet) what the client sent, without the client seeing it
        let d = match ctx.rng.below(4) {
            0 => ctx.rng.range(1, 3 * ka as usize),
            1 => ka as usize + ctx.rng.range(1, 2000),
            _ => ctx.rng.range(2 * ka as usize, 6 * ka as usize),
        } as u64;
        s.unpolled(d).await;
        for _ in 0..if s.starve.is_some() { 120 } else { 40 } {
            s.turn().await?;
            while answered < n_pings(&s) {
                answered += 1;
                s.send(&SPkt::Pingresp);
                ctx.add("pingreqs", 1);
                if ctx.rng.chance(1, 2) {
                    // it arrives, but the event loop is busy elsewhere again
                    s.server_turn();
                    let d = ctx.rng.range(1, 3 * ka as usize) as u64;
                    s.unpolled(d).await;
                }
            }
            if s.outcome.is_some() {
                break;
            }
        }
        ensure(s.outcome.is_none(), || format!("event loop ended {:?} although every PINGREQ was answered at once; it was only polled late", s.outcome))?;
        s.settle().await?;
        let last = s.wire.last().unwrap().0;
        ensure(s.now() <= last + ka + 20, || format!("polled again, but still no packet from the client for {} ms", s.now() - last))?;
        if ctx.rng.chance(1, 3) {
            let ms = ctx.rng.range(1, 2 * ka as usize) as u64;
            let mut left = ms;
            while left > 0 {
                let n = left.min(500);
                s.advance(n).await?;
                left -= n;
                while answered < n_pings(&s) {
                    answered += 1;
                    s.send(&SPkt::Pingresp);
                    s.settle().await?;
                }
                ensure(s.outcome.is_none(), || format!("event loop ended {:?} although every PINGREQ was answered at once", s.outcome))?;
            }
        }
    }
    ctx.add("late_polls", 1);
    s.settle().await?;
    dies(ctx, &mut s, ka, "after late polls").await?;
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

/// The server sends more than the event loop can take in one go, all the time, so that reading
/// never comes to an end. It answers PINGREQs at once, behind a moderate backlog.
async fn c13_flood(ctx: &mut Ctx) -> R {
    let mut s = Sess::new(ctx, Opts::default())?;
    let ka = keep_alive_of(&mut s).await?;
    s.handshake(&SPkt::ok_connack()).await?;
    s.settle().await?;
    let step = *ctx.rng.pick(&[50u64, 100, 250]);
    let marks = ctx.rng.range(2, 20);
    let end = s.now() + ka * ctx.rng.range(3, 6) as u64;
    let (mut answered, mut sent, mut polls) = (0, 0usize, 0u64);
    let mut last_ping = s.now();
    if ctx.rng.chance(1, 2) {
        return c13_torrent(ctx, s, ka, step).await;
    }
    while s.now() < end {
        // one poll cannot take more than some hundred packets; every now and then one is notified
        let target = ctx.rng.range(500, 800);
        let mut b = vec![];
        while (sent + 1 - s.notifs.len()) * marks < target {
            for _ in 1..marks {
                b.extend(SPkt::Puback { id: ctx.rng.range(1, 65535) as u16, reason: None, props: None }.encode());
            }
            b.extend(SPkt::Publish(SPublish { dup: false, qos: 0, retain: false, topic: "x".into(), id: 0, props: vec![], payload: vec![1; 3] }).encode());
            sent += 1;
        }
        s.send_bytes(b);
        s.server_turn();
        let before = s.polls;
        for _ in 0..ctx.rng.range(1, 4) {
            s.turn().await?;
        }
        polls += s.polls - before;
        while answered < n_pings(&s) {
            answered += 1;
            last_ping = s.wire.iter().filter(|x| matches!(x.1, CPkt::Pingreq)).map(|x| x.0).max().unwrap();
            s.send(&SPkt::Pingresp);
            s.server_turn();
            ctx.add("pingreqs", 1);
        }
        ensure(s.outcome.is_none(), || format!("event loop ended {:?} although every PINGREQ was answered at once", s.outcome))?;
        ensure(s.now() <= last_ping + ka + 20 * step, || format!("no packet from the client for {} ms while the server kept sending; keep-alive is {} ms", s.now() - last_ping, ka))?;
        s.unpolled(step).await;
    }
    s.settle().await?;
    while answered < n_pings(&s) {
        answered += 1;
        s.send(&SPkt::Pingresp);
    }
    s.expect("everything notified", |s| s.notifs.len() == sent + 1).await?;
    ensure(s.outcome.is_none(), || format!("event loop ended {:?} although every PINGREQ was answered at once", s.outcome))?;
    ctx.add("floods", 1);
    ctx.max("max_flood_polls", polls);
    dies(ctx, &mut s, ka, "after a flood").await?;
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

/// As above, with a task that leaves the event loop few reads per poll, all of which find data.
async fn c13_torrent(ctx: &mut Ctx, mut s: Sess, ka: u64, step: u64) -> R {
    let size = *ctx.rng.pick(&[900usize, 2000, 4000]);
    let backlog = ctx.rng.range(90_000, 200_000);
    let end = s.now() + ka * ctx.rng.range(3, 5) as u64;
    let (mut answered, mut sent, mut polls) = (0, 0usize, 0u64);
    let mut last_ping = s.now();
    s.starve = Some(Rng::new(ctx.rng.u64()));
    s.starve_always = true;
    let msg = SPkt::Publish(SPublish { dup: false, qos: 0, retain: false, topic: "x".into(), id: 0, props: vec![Prop::Pfi(1)], payload: vec![b'x'; size] }).encode();
    while s.now() < end {
        for _ in 0..ctx.rng.range(2, 5) {
            let mut b = vec![];
            while (sent + 1 - s.notifs.len()) * msg.len() < backlog {
                b.extend_from_slice(&msg);
                sent += 1;
            }
            if !b.is_empty() {
                s.send_bytes(b);
            }
            for _ in 0..3 {
                s.server_turn();
            }
            let before = s.polls;
            s.turn().await?;
            polls += s.polls - before;
            while answered < n_pings(&s) {
                answered += 1;
                last_ping = s.wire.iter().filter(|x| matches!(x.1, CPkt::Pingreq)).map(|x| x.0).max().unwrap();
                s.send(&SPkt::Pingresp);
                ctx.add("pingreqs", 1);
            }
            ensure(s.outcome.is_none(), || format!("event loop ended {:?} although every PINGREQ was answered at once", s.outcome))?;
        }
        ensure(s.now() <= last_ping + ka + 20 * step, || format!("no packet from the client for {} ms while the server kept sending; keep-alive is {} ms", s.now() - last_ping, ka))?;
        s.unpolled(step).await;
    }
    s.starve = None;
    s.settle().await?;
    while answered < n_pings(&s) {
        answered += 1;
        s.send(&SPkt::Pingresp);
    }
    s.expect("everything notified", |s| s.notifs.len() == sent + 1).await?;
    ensure(s.outcome.is_none(), || format!("event loop ended {:?} although every PINGREQ was answered at once", s.outcome))?;
    ctx.add("torrents", 1);
    ctx.max("max_flood_polls", polls);
    dies(ctx, &mut s, ka, "after a torrent").await?;
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

/// The application reads its notifications slowly, or not at all for a while, so that a PINGRESP
/// waits behind a backlog. The server answers at once.
async fn c13_slow_app(ctx: &mut Ctx) -> R {
    let mut s = Sess::new(ctx, Opts::default())?;
    let ka = keep_alive_of(&mut s).await?;
    s.handshake(&SPkt::ok_connack()).await?;
    s.settle().await?;
    s.consume = false;
    // the window closes on what is not read, and what follows needs a while to arrive
    let lag = ctx.rng.chance(1, 2);
    if lag {
        s.limit_inbound(2048);
    }
    let mut answered = 0;
    let mut sent = 1usize;
    let end = s.now() + ka * ctx.rng.range(4, 12) as u64;
    let per_step = ctx.rng.range(0, 4);
    let stall_at = ctx.rng.below(100) as u64 * ka / 10;
    let stall_for = ctx.rng.range(1, 40) as u64 * ka / 10;
    let mut k = 0;
    while s.now() < end {
        let backlog = sent - s.notifs.len();
        if backlog < 600 {
            for _ in 0..ctx.rng.range(1, 40) {
                let p = SPkt::Publish(SPublish { dup: false, qos: 0, retain: false, topic: "x".into(), id: 0, props: vec![], payload: vec![1; 10] });
                s.send(&p);
                sent += 1;
            }
        }
        s.settle().await?;
        while answered < n_pings(&s) {
            answered += 1;
            s.send(&SPkt::Pingresp);
            ctx.add("pingreqs", 1);
        }
        s.settle().await?;
        s.hold_out = lag;
        ctx.add("window_closed", (s.hold_out && s.unsent() > 0) as u64);
        let t = s.now();
        let stalled = t >= stall_at && t < stall_at + stall_for;
        if !stalled {
            s.take_some(if k % 37 == 36 { 500 } else { per_step });
        }
        k += 1;
        s.advance(ctx.rng.range(50, 400) as u64).await?;
        s.hold_out = false;
        ensure(s.outcome.is_none(), || format!("event loop ended {:?} although every PINGREQ was answered at once; the application was only slow ({} notifications behind)", s.outcome, sent - s.notifs.len()))?;
    }
    ctx.add("slow_consumers", 1);
    s.consume = true;
    s.expect("everything notified", |s| s.notifs.len() == sent).await?;
    // caught up: the usual rules again
    for _ in 0..2 * ka / 500 {
        while answered < n_pings(&s) {
            answered += 1;
            s.send(&SPkt::Pingresp);
        }
        s.settle().await?;
        let last = s.wire.last().unwrap().0;
        ensure(s.now() <= last.max(end) + ka + 520, || format!("no packet from the client for {} ms", s.now() - last))?;
        s.advance(500).await?;
        ensure(s.outcome.is_none(), || format!("event loop ended {:?} although every PINGREQ was answered at once", s.outcome))?;
    }
    while answered < n_pings(&s) {
        answered += 1;
        s.send(&SPkt::Pingresp);
    }
    s.settle().await?;
    dies(ctx, &mut s, ka, "after a slow application").await?;
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

/// The server dies while the client has more to write than the connection takes.
async fn c13_blocked(ctx: &mut Ctx) -> R {
    let mut s = Sess::new(ctx, Opts { rcvbuf: Some(2048), ..Opts::default() })?;
    let ka = keep_alive_of(&mut s).await?;
    s.handshake(&SPkt::ok_connack()).await?;
    s.settle().await?;
    s.limit_sndbuf(65536);
    // the last thing the server does may be to answer a PINGREQ, or to leave one unanswered
    let t = ctx.rng.range(0, 2 * ka as usize) as u64;
    let mut answered = 0;
    let mut left = t;
    while left > 0 {
        let n = left.min(500);
        s.advance(n).await?;
        left -= n;
        if answered < n_pings(&s) && s.now() < ka + 100 {
            answered += 1;
            s.send(&SPkt::Pingresp);
        }
    }
    s.read_enabled = false;
    let (n, size) = *ctx.rng.pick(&[(1usize, 3_000_000usize), (30, 200_000), (90, 60_000)]);
    for i in 0..n {
        ensure(s.call(&Call::Publish { topic: format!("{}", i), payload: Pay::Bytes(vec![0; size]), props: vec![], qos: (i % 2) as u8, set_qos: true }), || "call refused".into())?;
    }
    let start = s.now();
    while s.outcome.is_none() && s.now() < start + 3 * ka {
        s.advance(500).await?;
    }
    ensure(timed_out(&s), || format!("the server has read and sent nothing for {} ms while the client had packets to send and PINGREQs due, outcome {:?}", s.now() - start, s.outcome))?;
    ctx.add("timeouts", 1);
    ctx.add("blocked_writes", 1);
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

/// The server reads slowly but steadily, and answers every PINGREQ when it has read it.
async fn c13_slow_server(ctx: &mut Ctx) -> R {
    let mut s = Sess::new(ctx, Opts { rcvbuf: Some(2048), ..Opts::default() })?;
    let ka = keep_alive_of(&mut s).await?;
    s.handshake(&SPkt::ok_connack()).await?;
    s.settle().await?;
    s.limit_sndbuf(8192);
    let mut answered = 0;
    let mut accepted = 0;
    let one_big = ctx.rng.chance(1, 3);
    let end = s.now() + ka * ctx.rng.range(3, 8) as u64;
    s.read_enabled = false;
    while s.now() < end {
        while accepted < n_calls(&s) + if one_big { 1 } else { 12 } {
            let size = if one_big { 2_000_000 } else { ctx.rng.range(1, 30_000) };
            ensure(s.call(&Call::Publish { topic: "x".into(), payload: Pay::Bytes(vec![0; size]), props: vec![], qos: 0, set_qos: true }), || "call refused".into())?;
            accepted += 1;
        }
        // empties what the kernel holds, so that every step lets the client write some more
        for _ in 0..ctx.rng.range(1, 6) {
            s.read_enabled = true;
            s.server_turn();
            s.read_enabled = false;
            s.turn().await?;
        }
        while answered < n_pings(&s) {
            answered += 1;
            s.send(&SPkt::Pingresp);
            ctx.add("pingreqs", 1);
        }
        s.settle().await?;
        if ctx.rng.chance(1, 12) {
            // reads nothing for a while; more than the kernel holds before and after, so that the
            // client has certainly written something then
            for k in 0..2 {
                let want = s.raw_in + 60_000;
                s.read_enabled = true;
                s.expect("more data while the server reads", |s| s.raw_in >= want || n_calls(s) >= accepted || s.outcome.is_some()).await?;
                s.read_enabled = false;
                if k == 0 {
                    while answered < n_pings(&s) {
                        answered += 1;
                        s.send(&SPkt::Pingresp);
                        ctx.add("pingreqs", 1);
                    }
                    let ms = ctx.rng.range(ka as usize / 3, ka as usize - 1200) as u64;
                    s.advance(ms).await?;
                }
            }
            ctx.add("server_pauses", 1);
        } else {
            s.advance(ctx.rng.range(20, 600) as u64).await?;
        }
        ensure(s.outcome.is_none(), || format!("event loop ended {:?} although the server reads on and answers every PINGREQ it gets", s.outcome))?;
    }
    s.read_enabled = true;
    s.expect("all calls on the wire", |s| n_calls(s) == accepted).await?;
    while answered < n_pings(&s) {
        answered += 1;
        s.send(&SPkt::Pingresp);
    }
    s.settle().await?;
    ctx.add("slow_servers", 1);
    dies(ctx, &mut s, ka, "after a slow server").await?;
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

pub async fn c13(ctx: &mut Ctx) -> R {
    if ctx.idx == 11 {
        super::marathon::marathon(ctx).await?;
    }
    match ctx.idx % 16 {
        1 => {
            ctx.label = "flooding server".into();
            return c13_flood(ctx).await;
        }
        3 => {
            ctx.label = "event loop polled late".into();
            return c13_unpolled(ctx).await;
        }
        7 => {
            ctx.label = "slow application".into();
            return c13_slow_app(ctx).await;
        }
        11 => {
            ctx.label = "server dies while a write is blocked".into();
            return c13_blocked(ctx).await;
        }
        15 => {
            ctx.label = "slow server".into();
            return c13_slow_server(ctx).await;
        }
        _ => {}
    }
    let pre = if ctx.rng.chance(1, 3) { ctx.rng.range(1, 30_000) as u64 } else { 0 };
    let mut s = Sess::new(ctx, Opts::default())?;
    s.expect("CONNECT", |s| !s.wire.is_empty()).await?;
    if pre > 0 {
        s.advance(pre).await?;
    }
    let ka = match &s.wire[0].1 {
        CPkt::Connect { keep_alive, .. } => *keep_alive as u64 * 1000,
        p => return viol(format!("first packet {}", p.brief())),
    };
    s.handshake(&SPkt::ok_connack()).await?;
    s.settle().await?;
    let t_conn = s.now();
    if ka == 0 {
        // nothing is promised; then nothing may time out either
        s.advance(100_000).await?;
        ensure(s.outcome.is_none(), || format!("{:?} without a keep-alive", s.outcome))?;
        s.finish(ctx);
        return Ok(());
    }
    let intervals = ctx.rng.range(2, 14) as u64;
    let policy = match ctx.rng.below(4) {
        0 => Policy::Prompt,
        1 => Policy::Late,
        2 => Policy::Stops(ctx.rng.range(1, 6) as u64),
        _ => Policy::Duplicate,
    };
    let busy = ctx.rng.below(4); // 0: silent, 1: client calls, 2: server traffic, 3: both
    let stray_resp = ctx.rng.chance(1, 4);
    let drop_rx = ctx.rng.chance(1, 6);
    let drop_client = busy & 1 == 0 && ctx.rng.chance(1, 5);
    let step = *ctx.rng.pick(&[50u64, 100, 250, 500, 900, 1000, 1700]);
    ctx.label = format!("keep-alive {} ms, {:?}, busy {}, step {}", ka, policy, busy, step);
    // no request can be sent any more, and one waits
    if ctx.idx % 500 == 5 {
        hoard(ctx, &mut s, 0, &mut vec![]).await?;
        s.call(&gen::tagged("waits", 1));
        s.settle().await?;
        ctx.label += ", every identifier in use";
        s.wire.truncate(1);
    }
    if drop_rx {
        s.drop_rx();
    }
    if drop_client {
        s.drop_client();
    }
    let end = t_conn + intervals * ka;
    let mut pings_seen = 0u64;
    let mut answers: Vec<u64> = vec![]; // virtual times at which to send PINGRESP
    let mut dead_since: Option<u64> = None;
    let eps = 20;
    loop {
        // new PINGREQs
        let pings: Vec<u64> = s.wire.iter().filter(|x| matches!(x.1, CPkt::Pingreq)).map(|x| x.0).collect();
        for &t in &pings[pings_seen as usize..] {
            pings_seen += 1;
            match policy {
                Policy::Prompt => answers.push(t),
                Policy::Late => {
                    let max = ka - 200;
                    answers.push(t + match ctx.rng.below(3) { 0 => max, _ => ctx.rng.range(0, max as usize) as u64 });
                }
                Policy::Duplicate => {
                    for _ in 0..ctx.rng.range(1, 4) {
                        answers.push(t + ctx.rng.range(0, 500) as u64);
                    }
                }
                Policy::Stops(n) => {
                    if pings_seen < n {
                        answers.push(t);
                    } else if dead_since.is_none() {
                        dead_since = Some(t);
                    }
                }
            }
        }
        let now = s.now();
        let mut sent_any = false;
        answers.sort();
        while answers.first().map_or(false, |t| *t <= now) {
            answers.remove(0);
            s.send(&SPkt::Pingresp);
            sent_any = true;
        }
        if sent_any {
            s.settle().await?;
        }
        // silence check: at every moment, the last packet is at most one interval old
        let last = s.wire.last().unwrap().0.max(t_conn);
        if s.outcome.is_none() {
            ensure(now <= last.max(t_conn) + ka + eps, || format!("no packet from the client for {} ms, keep-alive announced is {} ms", now - last, ka))?;
        }
        if let Some(t) = dead_since {
            if now > t + ka + eps {
                match &s.outcome {
                    Some(Outcome::Err { kind: Some(std::io::ErrorKind::TimedOut), .. }) => {}
                    o => return viol(format!("PINGREQ sent at {} ms was never answered, but at {} ms the outcome is {:?}", t, now, o)),
                }
            }
        }
        if let Some(o) = &s.outcome {
            match (dead_since, o) {
                (Some(t), Outcome::Err { kind: Some(std::io::ErrorKind::TimedOut), .. }) => {
                    ensure(s.outcome_at + eps >= t + ka, || format!("timed out {} ms after an unanswered PINGREQ, earlier than the keep-alive interval of {} ms", s.outcome_at - t, ka))?;
                    ctx.add("timeouts", 1);
                }
                _ => return viol(format!("event loop ended {:?} at {} ms although every PINGREQ was answered in time ({})", o, s.outcome_at, ctx.label)),
            }
            break;
        }
        if now >= end && dead_since.is_none() {
            break;
        }
        if now > end + 3 * ka {
            break;
        }
        // traffic
        if busy & 1 == 1 && !drop_client && ctx.rng.chance(1, 3) {
            for _ in 0..ctx.rng.range(1, 3) {
                let c = gen::call01(&mut ctx.rng);
                s.call(&c);
            }
        }
        if busy & 2 == 2 && ctx.rng.chance(1, 3) {
            for _ in 0..ctx.rng.range(1, 3) {
                let mut p = gen::s_packet(&mut ctx.rng);
                while p == SPkt::Pingresp {
                    p = gen::s_packet(&mut ctx.rng);
                }
                s.send(&p);
            }
        }
        // a PINGRESP nobody asked for, well before the next PINGREQ, must not count for it
        if stray_resp && dead_since.is_none() && answers.is_empty() && ctx.rng.chance(1, 5) {
            s.send(&SPkt::Pingresp);
        }
        s.settle().await?;
        let mut n = ctx.rng.range(1, step as usize) as u64;
        if let Some(t) = answers.first() {
            n = n.min(t.saturating_sub(s.now())).max(1);
        }
        s.advance(n).await?;
    }
    // gaps over the whole record
    let mut prev = t_conn;
    for (t, p) in &s.wire[1..] {
        if *t > prev {
            ensure(*t - prev <= ka + eps, || format!("{} ms of silence before {} at {} ms; keep-alive is {} ms", t - prev, p.brief(), t, ka))?;
            prev = *t;
        }
    }
    if let Policy::Stops(_) = policy {
        ensure(dead_since.is_none() || s.outcome.is_some(), || "dead server never detected".into())?;
    }
    ctx.add("pingreqs", pings_seen);
    ctx.add("intervals", (s.now() - t_conn) / ka);
    ctx.nontrivial = pings_seen > 0;
    s.finish(ctx);
    Ok(())
}
