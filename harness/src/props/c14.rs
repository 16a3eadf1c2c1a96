//! C14: every way a session can end, at every point.
use super::*;
use crate::gen;

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Disconnect,
    ServerNormal,
    ServerReason,
    Eof,
    EofInside,
    Reset,
    Refused,
    DropLoop,
    None,
}

pub async fn c14(ctx: &mut Ctx) -> R {
    if ctx.idx == 11 {
        super::marathon::marathon(ctx).await?;
    }
    let how = match ctx.idx % 12 {
        0 | 1 => How::Disconnect,
        2 => How::ServerNormal,
        3 => How::ServerReason,
        4 => How::Eof,
        5 => How::EofInside,
        6 => How::Reset,
        7 if ctx.idx % 24 == 7 => How::Refused,
        7 => How::None,
        8 => How::None,
        _ => How::DropLoop,
    };
    ctx.label = format!("{:?}", how);
    if how == How::Refused {
        let mut s = Sess::new(ctx, Opts { no_server: true, ..Opts::default() })?;
        s.keep_ev = ctx.rng.chance(1, 2);
        for i in 0..ctx.rng.below(5) {
            let c = gen::tagged(&format!("x{}", i), 1);
            ensure(s.call(&c), || "call refused".into())?;
        }
        s.expect("the event loop to report the failed connect", |s| s.outcome.is_some()).await?;
        ensure(s.outcome.as_ref().unwrap().is_err(), || format!("failed connect ended {:?}", s.outcome))?;
        aftermath(ctx, &mut s, &[], false).await?;
        ctx.nontrivial = true;
        s.finish(ctx);
        return Ok(());
    }
    // for DropLoop: the turn after which it happens, enumerated
    let drop_turn = ctx.idx / 12 * 3 % 40 + ctx.idx % 12 % 3;
    let drop_turn = if ctx.rng.chance(1, 2) { drop_turn } else { ctx.rng.below(120) as u64 };
    let mut s = Sess::new(ctx, Opts::default())?;
    s.consume = !ctx.rng.chance(1, 5);
    s.keep_ev = ctx.rng.chance(1, 2);
    let mut clones = vec![];
    for _ in 0..ctx.rng.below(3) {
        clones.push(s.client.clone().unwrap());
    }
    let mut sent: Vec<SPkt> = vec![];
    let mut calls: Vec<Call> = vec![];
    let mut turns = 0u64;
    let dropping = how == How::DropLoop;
    let connect_only = dropping && ctx.rng.chance(1, 6);
    // a random session body
    let steps = ctx.rng.range(0, 30);
    let mut connected = false;
    let mut k = 0;
    while k < steps || (dropping && turns < drop_turn) {
        k += 1;
        if k > 2000 {
            break;
        }
        if !connected && !connect_only && !s.wire.is_empty() {
            let p = gen::ok_connack(&mut ctx.rng);
            s.send(&p);
            sent.push(p);
            connected = true;
        }
        match ctx.rng.below(5) {
            0 if calls.len() < 90 => {
                let c = gen::call01(&mut ctx.rng);
                ensure(s.call(&c), || "valid call refused".into())?;
                calls.push(c);
            }
            1 | 2 if connected && sent.len() < 90 => {
                let p = gen::s_packet(&mut ctx.rng);
                s.send(&p);
                sent.push(p);
            }
            _ => {}
        }
        if dropping {
            s.turn().await?;
            turns += 1;
            if turns >= drop_turn {
                break;
            }
        } else if ctx.rng.chance(1, 2) {
            s.turn().await?;
        }
    }
    if dropping {
        ensure(s.outcome.is_none(), || format!("ended by itself: {:?}", s.outcome))?;
        s.drop_ev();
        ctx.add("drops", 1);
        let before = s.notifs.len();
        drop_aftermath(ctx, &mut s, &sent, &calls, clones, before).await?;
        ctx.nontrivial = true;
        s.finish(ctx);
        return Ok(());
    }
    if !connected {
        s.expect("CONNECT", |s| !s.wire.is_empty()).await?;
        let p = gen::ok_connack(&mut ctx.rng);
        s.send(&p);
        sent.push(p);
    }
    // every identifier in use
    let full = ctx.idx % 4801 == 100;
    if full {
        s.consume = true;
        s.settle().await?;
        let used = call_packets(&s).iter().filter(|p| p.needs_id().is_some()).count();
        hoard(ctx, &mut s, used, &mut calls).await?;
        if how != How::Disconnect {
            for i in 0..3 {
                ensure(s.call(&gen::tagged(&format!("waits{}", i), 1)), || "call refused".into())?;
            }
        }
        s.settle().await?;
        ctx.label += ", every identifier in use";
    }
    // the application keeps nothing but the event loop
    let alone = how != How::Disconnect && ctx.rng.chance(1, 5);
    if alone {
        clones.clear();
        s.drop_client();
        ctx.add("alone", 1);
    }
    let deaf = ctx.rng.chance(1, 10);
    if deaf {
        s.settle().await?;
        s.drop_rx();
    }
    let quiesce = full || !s.consume || ctx.rng.chance(1, 2) || how == How::Reset || how == How::None;
    if quiesce {
        s.settle().await?;
    }
    let mut normal_end_is_client = false;
    let mut lazy_server = false;
    match how {
        How::Disconnect => {
            lazy_server = ctx.rng.chance(1, 3);
            s.auto_close = !lazy_server;
            ensure(s.call(&Call::Disconnect), || "disconnect refused".into())?;
            calls.push(Call::Disconnect);
            normal_end_is_client = true;
        }
        How::ServerNormal => s.send(&match ctx.rng.below(3) {
            0 => SPkt::Disconnect { reason: None, props: None },
            1 => SPkt::Disconnect { reason: Some(0), props: None },
            _ => SPkt::Disconnect { reason: Some(0), props: Some(gen::ack_props(&mut ctx.rng)) },
        }),
        How::ServerReason => {
            let r = DISCONNECT_REASONS[1 + (ctx.idx / 12) as usize % (DISCONNECT_REASONS.len() - 1)];
            ctx.label = format!("server DISCONNECT {:#x}", r);
            let props = if ctx.rng.chance(1, 2) { None } else { Some(gen::ack_props(&mut ctx.rng)) };
            s.send(&SPkt::Disconnect { reason: Some(r), props });
        }
        How::Eof => {
            // everything queued goes out before the close
            flush(&mut s).await?;
            s.close_server();
        }
        How::EofInside => {
            let p = gen::s_packet(&mut ctx.rng).encode();
            let n = ctx.rng.range(1, p.len() - 1);
            s.send_bytes(p[..n].to_vec());
            flush(&mut s).await?;
            s.close_server();
        }
        How::Reset => {
            s.reset_server();
        }
        How::None => {
            // well-formed traffic and time pass: it keeps running
            s.consume = true;
            for _ in 0..ctx.rng.range(1, 6) {
                if ctx.rng.chance(1, 4) {
                    s.pass_some(ctx).await?;
                }
                let n = ctx.rng.range(1, 7000) as u64;
                s.advance(n).await?;
                s.pong().await?;
                let p = gen::s_packet(&mut ctx.rng);
                if p != SPkt::Pingresp {
                    s.send(&p);
                    sent.push(p);
                }
                s.settle().await?;
            }
            s.fence(5).await?;
            sent.push(SPkt::fence(5));
            if !deaf {
                notified(ctx, &mut s, &sent).await?;
            }
            ensure(s.outcome.is_none(), || format!("ended by itself: {:?}", s.outcome))?;
            ensure(!s.srv_eof && !s.srv_rst, || "the client closed the connection by itself".into())?;
            ctx.nontrivial = true;
            s.finish(ctx);
            return Ok(());
        }
        How::Refused | How::DropLoop => unreachable!(),
    }
    if lazy_server {
        // the server sees the end of the stream but keeps its side open, and may go on sending
        s.expect("the end of the client's stream after its DISCONNECT", |s| s.srv_eof || s.srv_rst).await?;
        for _ in 0..60 {
            if s.outcome.is_some() {
                break;
            }
            if ctx.rng.chance(1, 2) {
                let p = gen::s_packet(&mut ctx.rng);
                s.send(&p);
            }
            s.advance(500).await?;
        }
        ctx.add("servers_that_do_not_close", 1);
        ensure(s.outcome.is_some(), || "the event loop still runs 30 s after its DISCONNECT, because the server does not close".into())?;
    }
    s.expect("the event loop to end", |s| s.outcome.is_some()).await?;
    let ok = matches!(s.outcome, Some(Outcome::Ok));
    let want_ok = matches!(how, How::Disconnect | How::ServerNormal | How::Eof);
    ensure(ok == want_ok, || format!("{} ended with {:?}", ctx.label, s.outcome))?;
    if normal_end_is_client {
        s.expect("the connection to be closed", |s| s.srv_eof || s.srv_rst).await?;
        ensure(matches!(s.wire.last().map(|x| &x.1), Some(CPkt::Disconnect { .. })), || format!("the last packet is {:?}, not DISCONNECT", s.wire.last().map(|x| x.1.brief())))?;
        same_calls(&s, &calls)?;
    }
    // after the client's own disconnect incoming packets may or may not have been handled
    let exact = quiesce || !normal_end_is_client;
    aftermath(ctx, &mut s, &sent, !deaf && (exact && how != How::Reset || (how == How::Reset && quiesce))).await?;
    for mut c in clones {
        for _ in 0..3 {
            ensure(!do_call(&mut c, &gen::tagged("late", 0)), || "a call on a clone was accepted after the end".into())?;
            ctx.add("late_calls", 1);
        }
    }
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

async fn flush(s: &mut Sess) -> R {
    let mut k = 0;
    while !s.outq.is_empty() && k < 100_000 {
        s.turn().await?;
        k += 1;
    }
    Ok(())
}

/// The event loop has finished: socket closed, stream ends, calls refused.
async fn aftermath(ctx: &mut Ctx, s: &mut Sess, sent: &[SPkt], exact: bool) -> R {
    if s.sock.is_some() {
        s.expect("the TCP connection to be closed after the end", |s| s.srv_eof || s.srv_rst).await?;
    }
    if ctx.rng.chance(1, 2) {
        late_calls(ctx, s)?;
    }
    s.consume = true;
    s.expect("the notification stream to end", |s| s.notif_end).await?;
    let got = s.notifs.clone();
    if exact {
        same_notifs(ctx, &got, sent)?;
    } else {
        prefix_notifs(ctx, &got, sent)?;
    }
    late_calls(ctx, s)
}
fn prefix_notifs(ctx: &mut Ctx, got: &[crate::dbg::Notif], sent: &[SPkt]) -> R {
    let mut k = 0;
    let part: Vec<SPkt> = sent.iter().take_while(|p| { if notifies(p) { k += 1; } k <= got.len() }).cloned().collect();
    same_notifs(ctx, got, &part)
}
fn late_calls(ctx: &mut Ctx, s: &mut Sess) -> R {
    let calls = [gen::tagged("late", 0), gen::tagged("late", 1), Call::Subscribe("late".into(), 1), Call::Unsubscribe("late".into()), Call::Disconnect];
    for c in &calls {
        ensure(!s.call(c), || format!("{} was accepted after the event loop had finished", c.brief()))?;
        ctx.add("late_calls", 1);
    }
    Ok(())
}

async fn drop_aftermath(ctx: &mut Ctx, s: &mut Sess, sent: &[SPkt], calls: &[Call], clones: Vec<ruq::Client>, before: usize) -> R {
    if s.sock.is_some() {
        // drain what the client wrote before it was dropped
        s.outq.clear();
        s.expect("the TCP connection to be closed after the event loop was dropped", |s| s.srv_eof || s.srv_rst).await?;
    }
    s.consume = true;
    s.expect("the notification stream to end after the event loop was dropped", |s| s.notif_end).await?;
    let got = s.notifs.clone();
    ensure(got.len() >= before, || "notifications vanished".into())?;
    prefix_notifs(ctx, &got, sent)?;
    late_calls(ctx, s)?;
    for mut c in clones {
        ensure(!do_call(&mut c, &gen::tagged("late", 0)), || "a call on a clone was accepted after the event loop was dropped".into())?;
    }
    // what did reach the wire is a prefix of the accepted calls
    let got = call_packets(s);
    ensure(got.len() <= calls.len(), || "more packets than calls".into())?;
    same_calls(s, &calls[..got.len()])
}
