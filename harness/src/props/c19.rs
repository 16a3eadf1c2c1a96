//! C19: one event loop makes one TCP connection, to the address it was given.
use super::*;
use crate::gen;
use std::net::{Ipv4Addr, SocketAddr, TcpListener, ToSocketAddrs};

/// An address nobody listens at.
fn closed_addr() -> R<SocketAddr> {
    let l = crate::engine::listen().map_err(incon)?;
    l.local_addr().map_err(incon)
}
/// A listener whose connections are only counted.
fn open_addr() -> R<(TcpListener, SocketAddr)> {
    let l = crate::engine::listen().map_err(incon)?;
    l.set_nonblocking(true).map_err(incon)?;
    let a = l.local_addr().map_err(incon)?;
    Ok((l, a))
}
fn v4(a: SocketAddr) -> Ipv4Addr {
    match a {
        SocketAddr::V4(a) => *a.ip(),
        _ => Ipv4Addr::LOCALHOST,
    }
}
fn leak<T>(v: Vec<T>) -> &'static [T] {
    Box::leak(v.into_boxed_slice())
}

/// What the application gave to `Client::new`, towards `a`.
fn one_address(ctx: &mut Ctx, form: usize, a: SocketAddr, l: TcpListener) -> R<Sess> {
    ctx.label = format!("address form {}", form);
    ctx.add("address_forms", 1);
    let l = Some(l);
    let text = format!("{}", a);
    match form {
        0 => Sess::with_address(ctx, a, l),
        1 => Sess::with_address(ctx, text, l),
        2 => Sess::with_address(ctx, &*Box::leak(text.into_boxed_str()), l),
        3 => Sess::with_address(ctx, (v4(a), a.port()), l),
        4 => Sess::with_address(ctx, (a.ip(), a.port()), l),
        5 => Sess::with_address(ctx, (format!("{}", a.ip()), a.port()), l),
        6 => match a {
            SocketAddr::V4(x) => Sess::with_address(ctx, x, l),
            SocketAddr::V6(x) => Sess::with_address(ctx, x, l),
        },
        7 => Sess::with_address(ctx, leak(vec![a]), l),
        _ => Sess::with_address(ctx, (&*Box::leak(format!("{}", a.ip()).into_boxed_str()), a.port()), l),
    }
}
const FORMS: usize = 9;

async fn some_turns(s: &mut Sess, n: usize) -> R {
    for i in 0..n {
        s.turn().await?;
        if i % 16 == 15 {
            std::thread::sleep(std::time::Duration::from_micros(100));
        }
    }
    Ok(())
}

pub async fn c19(ctx: &mut Ctx) -> R {
    let x = crate::engine::hash_bytes(&ctx.idx.to_le_bytes());
    absorb(&ctx.sig, x);
    match ctx.idx % 12 {
        0 => unstarted(ctx).await,
        1 | 2 => nobody(ctx).await,
        3 => nonsense(ctx).await,
        4 | 5 => several(ctx).await,
        6 if ctx.idx % 120 == 6 => by_name(ctx).await,
        7 => twins(ctx).await,
        8 if ctx.idx % 600 == 8 => slow(ctx).await,
        _ => {
            let form = (ctx.idx / 12) as usize % FORMS;
            let v6 = form != 3 && form != 6 && ctx.rng.chance(1, 8);
            let six = if v6 { TcpListener::bind("[::1]:0").ok() } else { None };
            let l = match six {
                Some(l) => {
                    ctx.add("ipv6", 1);
                    l
                }
                None => crate::engine::listen().map_err(incon)?,
            };
            let a = l.local_addr().map_err(incon)?;
            let s = one_address(ctx, form, a, l)?;
            life(ctx, s, &[]).await
        }
    }
}

/// A whole session: one connection at its own listener, none at the others.
async fn life(ctx: &mut Ctx, mut s: Sess, others: &[TcpListener]) -> R {
    let count = |s: &Sess, when: &str| -> R {
        let n = s.waiting_connections();
        ensure(n == 0, || format!("{}: {} more connections to the same address", when, n))?;
        for l in others {
            let n = waiting(l);
            ensure(n == 0, || format!("{}: {} connections to an address after the one that accepted", when, n))?;
        }
        Ok(())
    };
    // nothing happens before the event loop is polled, whatever else the application does
    let mut calls = vec![];
    let mut clones = vec![];
    for i in 0..ctx.rng.below(4) {
        clones.push(s.client.clone());
        let c = gen::tagged(&format!("e{}", i), 1);
        ensure(s.call(&c), || "call refused".into())?;
        calls.push(c);
    }
    if ctx.rng.chance(1, 2) {
        tokio::time::sleep(std::time::Duration::from_millis(ctx.rng.range(1, 30_000) as u64)).await;
        ensure(s.waiting_connections() == 0 && s.sock.is_none(), || "a connection was made before the event loop was polled".into())?;
        count(&s, "before the first poll")?;
    }
    if ctx.rng.chance(1, 6) {
        // dropped on the way
        for _ in 0..ctx.rng.below(12) {
            s.turn().await?;
        }
        let had = s.sock.is_some();
        s.drop_ev();
        let late = s.waiting_connections();
        ensure(late + had as usize <= 1, || "two connections were made".into())?;
        some_turns(&mut s, 100).await?;
        if had {
            s.expect("the connection to be closed after the event loop was dropped", |s| s.srv_eof || s.srv_rst).await?;
        }
        count(&s, "after the event loop was dropped")?;
        ctx.add("connections", had as u64);
        ctx.nontrivial = true;
        s.finish(ctx);
        return Ok(());
    }
    let at_once = ctx.rng.chance(1, 8);
    if at_once {
        // the server throws the client out as soon as it has the connection
        s.expect("the connection", |s| s.sock.is_some()).await?;
        // (a reset may still count as a refusal of the address, then the next one is tried)
        if others.is_empty() && ctx.rng.chance(1, 2) {
            s.reset_server();
        } else {
            s.close_server();
        }
        s.expect("the event loop to end", |s| s.outcome.is_some()).await?;
        ensure(s.outcome.as_ref().unwrap().is_err(), || format!("closed before CONNACK, ended {:?}", s.outcome))?;
    } else {
        s.handshake(&SPkt::ok_connack()).await?;
        s.expect("the early calls", |s| n_calls(s) >= calls.len()).await?;
        s.fence(1).await?;
        count(&s, "while connected")?;
        if ctx.rng.chance(1, 8) {
            s.pass_some(ctx).await?;
            count(&s, "while connected")?;
        }
        let end = ctx.rng.below(6);
        let mut late = 0;
        match end {
            0 => {
                ensure(s.call(&Call::Disconnect), || "disconnect refused".into())?;
                calls.push(Call::Disconnect);
            }
            1 => s.close_server(),
            2 => s.send(&SPkt::Disconnect { reason: Some(0x8b), props: None }),
            3 => s.send_bytes(vec![0xf0, 0]),
            4 => s.reset_server(),
            _ => {
                // no answer to pings
                s.advance(40_000).await?;
                late = 1;
            }
        }
        s.expect("the event loop to end", |s| s.outcome.is_some()).await?;
        let ok = s.outcome == Some(Outcome::Ok);
        ensure(ok == (end < 2), || format!("end {} gives {:?}", end, s.outcome))?;
        ctx.add("timeouts", late);
        same_calls(&s, &calls)?;
    }
    ctx.add("connections", 1);
    some_turns(&mut s, 60).await?;
    count(&s, "after the end")?;
    // the application still has its handles, and uses them
    for c in clones.iter_mut().flatten() {
        ensure(!do_call(c, &gen::tagged("late", 0)), || "a call was accepted after the end".into())?;
        c.connect().ok();
    }
    s.advance(ctx.rng.range(1, 100_000) as u64).await?;
    some_turns(&mut s, 30).await?;
    count(&s, "long after the end")?;
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

/// Created, used, dropped: never polled.
async fn unstarted(ctx: &mut Ctx) -> R {
    let l = crate::engine::listen().map_err(incon)?;
    let a = l.local_addr().map_err(incon)?;
    let form = ctx.rng.below(FORMS);
    let mut s = one_address(ctx, form, a, l)?;
    ctx.label = format!("never polled, {}", ctx.label);
    let mut clone = s.client.clone();
    for i in 0..ctx.rng.below(20) {
        ensure(s.call(&gen::tagged(&format!("u{}", i), (i % 2) as u8)), || "call refused".into())?;
    }
    tokio::time::sleep(std::time::Duration::from_millis(ctx.rng.range(1, 300_000) as u64)).await;
    std::thread::sleep(std::time::Duration::from_micros(300));
    ensure(s.waiting_connections() == 0, || "a connection was made although the event loop is never polled".into())?;
    ensure(s.take_some(5) == 0 && !s.notif_end, || "a notification without a connection".into())?;
    s.drop_ev();
    std::thread::sleep(std::time::Duration::from_micros(300));
    ensure(s.waiting_connections() == 0, || "a connection was made although the event loop was never polled".into())?;
    for c in s.client.iter_mut().chain(clone.iter_mut()) {
        ensure(!do_call(c, &gen::tagged("late", 1)), || "a call was accepted after the event loop was dropped unpolled".into())?;
    }
    s.take_some(5);
    ensure(s.notifs.is_empty() && s.notif_end, || "no end of the notifications after the event loop was dropped unpolled".into())?;
    ctx.add("unstarted", 1);
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

/// Every address is refused.
async fn nobody(ctx: &mut Ctx) -> R {
    let n = ctx.rng.range(1, 6);
    let mut v = vec![];
    for _ in 0..n {
        v.push(closed_addr()?);
    }
    ctx.label = format!("{} addresses, all refused", n);
    ctx.add("refused_addresses", n as u64);
    let one = v[0];
    let mut s = match ctx.rng.below(3) {
        0 if n == 1 => Sess::with_address(ctx, format!("{}", one), None)?,
        1 if n == 1 => Sess::with_address(ctx, (v4(one), one.port()), None)?,
        _ => Sess::with_address(ctx, leak(v), None)?,
    };
    fails(ctx, &mut s).await?;
    s.finish(ctx);
    Ok(())
}

async fn fails(ctx: &mut Ctx, s: &mut Sess) -> R {
    s.keep_ev = ctx.rng.chance(1, 2);
    let mut clones = vec![s.client.clone()];
    for i in 0..ctx.rng.below(5) {
        ensure(s.call(&gen::tagged(&format!("x{}", i), 1)), || "call refused".into())?;
        clones.push(s.client.clone());
    }
    s.expect("the event loop to report that it cannot connect", |s| s.outcome.is_some()).await?;
    ensure(s.outcome.as_ref().unwrap().is_err(), || format!("nobody to connect to, but it ended {:?}", s.outcome))?;
    s.expect("the end of the notifications", |s| s.notif_end).await?;
    ensure(s.notifs.is_empty(), || format!("notified {:?} without a connection", s.notifs[0]))?;
    for c in clones.iter_mut().flatten() {
        ensure(!do_call(c, &gen::tagged("late", 0)), || "a call was accepted after the failed connect".into())?;
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Not an address at all.
async fn nonsense(ctx: &mut Ctx) -> R {
    let k = ctx.rng.below(9);
    ctx.label = format!("nonsense {}", k);
    let mut s = match k {
        0 => Sess::with_address(ctx, "", None)?,
        1 => Sess::with_address(ctx, "127.0.0.1".to_string(), None)?,
        2 => Sess::with_address(ctx, ":1883".to_string(), None)?,
        3 => Sess::with_address(ctx, "127.0.0.1:99999".to_string(), None)?,
        4 => Sess::with_address(ctx, "127.0.0.1:".to_string(), None)?,
        5 => Sess::with_address(ctx, "[::1:1883", None)?,
        6 => Sess::with_address(ctx, (Ipv4Addr::LOCALHOST, 0), None)?,
        7 => Sess::with_address(ctx, leak::<SocketAddr>(vec![]), None)?,
        _ => Sess::with_address(ctx, "127.0.0.1:port", None)?,
    };
    ctx.add("nonsense", 1);
    fails(ctx, &mut s).await?;
    s.finish(ctx);
    Ok(())
}

/// Addresses are tried in order until one accepts.
async fn several(ctx: &mut Ctx) -> R {
    let before = ctx.rng.below(5);
    let after = ctx.rng.below(4);
    ctx.label = format!("{} refused, one open, {} more", before, after);
    ctx.add("refused_addresses", before as u64);
    let mut v = vec![];
    for _ in 0..before {
        v.push(closed_addr()?);
    }
    let l = crate::engine::listen().map_err(incon)?;
    v.push(l.local_addr().map_err(incon)?);
    let mut others = vec![];
    for _ in 0..after {
        if ctx.rng.chance(2, 3) {
            let (o, a) = open_addr()?;
            others.push(o);
            v.push(a);
        } else {
            v.push(closed_addr()?);
        }
    }
    let s = Sess::with_address(ctx, leak(v), Some(l))?;
    life(ctx, s, &others).await
}

/// A name, if this machine knows one.
pub async fn by_name(ctx: &mut Ctx) -> R {
    let l = TcpListener::bind("127.0.0.1:0").map_err(incon)?;
    let port = l.local_addr().map_err(incon)?.port();
    let known = ("localhost", port).to_socket_addrs().map(|v| v.collect::<Vec<_>>()).unwrap_or_default();
    if !known.iter().any(|a| a.ip() == Ipv4Addr::LOCALHOST) {
        ctx.label = "no name for the loopback address here".into();
        return Ok(());
    }
    ctx.add("names", 1);
    let s = if ctx.rng.chance(1, 2) { Sess::with_address(ctx, format!("localhost:{}", port), Some(l))? } else { Sess::with_address(ctx, ("localhost", port), Some(l))? };
    ctx.label = "localhost".into();
    life(ctx, s, &[]).await
}

/// The server takes its time to accept the connection, the client waits: for ever if need be, and
/// then everything is as usual.
pub async fn slow(ctx: &mut Ctx) -> R {
    ctx.label = "slow to connect".into();
    let (mut s, busy) = Sess::behind_backlog(ctx)?;
    let mut calls = vec![];
    let rounds = ctx.rng.range(1, 4);
    for i in 0..rounds {
        if ctx.rng.chance(1, 2) {
            let c = gen::tagged(&format!("e{}", i), 1);
            ensure(s.call(&c), || "call refused".into())?;
            calls.push(c);
        }
        let n = ctx.rng.range(1, 40);
        some_turns(&mut s, n).await?;
        if ctx.rng.chance(1, 2) {
            let ms = ctx.rng.range(1, 40_000) as u64;
            s.advance(ms).await?;
        }
        ensure(s.outcome.is_none(), || format!("ended {:?} while connecting", s.outcome))?;
        ensure(s.notifs.is_empty() && !s.notif_end, || "the notification stream moved while connecting".into())?;
    }
    ctx.add("slow_connections", 1);
    ctx.nontrivial = true;
    if ctx.rng.chance(1, 6) {
        s.drop_ev();
        ensure(!s.call(&gen::tagged("late", 0)), || "a call was accepted after the event loop was dropped".into())?;
        some_turns(&mut s, 20).await?;
        s.expect("the notification stream to end", |s| s.notif_end).await?;
        s.finish(ctx);
        return Ok(());
    }
    busy.open(&mut s)?;
    s.handshake(&SPkt::ok_connack()).await?;
    s.expect("the early calls", |s| n_calls(s) >= calls.len()).await?;
    s.fence(1).await?;
    ensure(s.waiting_connections() == 0, || "a second connection".into())?;
    let c = gen::tagged("now", 1);
    ensure(s.call(&c), || "call refused".into())?;
    calls.push(c);
    s.fence(2).await?;
    if ctx.rng.chance(1, 2) {
        s.pass_some(ctx).await?;
    }
    same_calls(&s, &calls)?;
    ensure(s.waiting_connections() == 0, || "a second connection".into())?;
    s.close_server();
    s.expect("the event loop to end", |s| s.outcome.is_some()).await?;
    ensure(!s.outcome.as_ref().unwrap().is_err(), || format!("closed between packets, ended {:?}", s.outcome))?;
    ctx.add("connections", 1);
    s.finish(ctx);
    Ok(())
}

/// Two clients of one server: two connections, whose traffic is not mixed up.
async fn twins(ctx: &mut Ctx) -> R {
    ctx.label = "two clients, one address".into();
    let l = crate::engine::listen().map_err(incon)?;
    let a = l.local_addr().map_err(incon)?;
    let l2 = l.try_clone().map_err(incon)?;
    let mut s1 = Sess::with_address(ctx, a, Some(l))?;
    // the first connects before the second is polled
    let late = ctx.rng.chance(1, 2);
    let mut s2 = if late { None } else { Some(Sess::with_address(ctx, a, Some(l2.try_clone().map_err(incon)?))?) };
    s1.handshake(&SPkt::ok_connack()).await?;
    s1.fence(1).await?;
    ensure(s1.waiting_connections() == 0, || "a second connection".into())?;
    let mut s2 = match s2.take() {
        Some(s) => s,
        None => Sess::with_address(ctx, a, Some(l2))?,
    };
    s2.handshake(&SPkt::ok_connack()).await?;
    let c1 = gen::tagged("one", 1);
    let c2 = gen::tagged("two", 1);
    ensure(s1.call(&c1) && s2.call(&c2), || "call refused".into())?;
    s2.fence(2).await?;
    s1.fence(3).await?;
    same_calls(&s1, &[c1])?;
    same_calls(&s2, &[c2])?;
    if ctx.rng.chance(1, 2) {
        s1.close_server();
        s1.expect("the first to end", |s| s.outcome.is_some()).await?;
    } else {
        s1.drop_ev();
    }
    s2.fence(4).await?;
    ensure(s2.waiting_connections() == 0, || "a third connection".into())?;
    ctx.add("connections", 2);
    ctx.nontrivial = true;
    s1.finish(ctx);
    s2.finish(ctx);
    Ok(())
}
