//! C03 (server packets are surfaced exactly), C04 (segmentation is irrelevant), C09 (PUBACKs).
use super::*;
use crate::gen;

fn text_or_bin(ctx: &mut Ctx, n: usize) -> String {
    gen::text_len(&mut ctx.rng, n)
}

/// Deterministic families first, random sessions afterwards.
fn family(ctx: &mut Ctx, k: u64) -> Vec<SPkt> {
    let mut v = vec![];
    match k {
        0 => {
            for (r, _) in SUBACK_REASONS {
                for n in 0..3 {
                    let mut props = gen::ack_props(&mut ctx.rng);
                    props.truncate(n);
                    v.push(SPkt::Suback { id: gen::any_id(&mut ctx.rng), reason: *r, props });
                    ctx.add("reason_codes", 1);
                }
            }
        }
        1 => {
            for (r, _) in UNSUBACK_REASONS {
                for n in 0..3 {
                    let mut props = gen::ack_props(&mut ctx.rng);
                    props.truncate(n);
                    v.push(SPkt::Unsuback { id: gen::any_id(&mut ctx.rng), reason: *r, props });
                    ctx.add("reason_codes", 1);
                }
            }
        }
        2 => {
            for r in PUBACK_REASONS {
                let id = gen::any_id(&mut ctx.rng);
                let u = AckProp::User("k".into(), "v".into());
                for props in [None, Some(vec![]), Some(vec![AckProp::Reason("why".into())]), Some(vec![AckProp::Reason("".into())]), Some(vec![u.clone()]),
                    Some(vec![u.clone(), u.clone()]), Some(vec![AckProp::Reason("r".into()), u.clone()]), Some(vec![u.clone(), AckProp::Reason("r".into())]),
                    Some(vec![u.clone(), AckProp::Reason("".into()), u.clone(), u.clone()])] {
                    v.push(SPkt::Puback { id, reason: Some(*r), props });
                    v.push(SPkt::Publish(gen::s_publish(&mut ctx.rng, 0)));
                }
                ctx.add("reason_codes", 1);
            }
            v.push(SPkt::Puback { id: 1, reason: None, props: None });
            v.push(SPkt::Puback { id: 65535, reason: None, props: None });
            v.push(SPkt::Pingresp);
        }
        3 => {
            // every identifier boundary, every flag combination
            for id in [1u16, 2, 127, 128, 255, 256, 257, 0x1000, 32767, 32768, 65280, 65534, 65535] {
                for qos in 0..2u8 {
                    for b in 0..4 {
                        v.push(SPkt::Publish(SPublish { dup: qos > 0 && b & 1 == 1, qos, retain: b & 2 == 2, topic: "t".into(), id, props: vec![], payload: vec![b] }));
                    }
                }
                v.push(SPkt::Suback { id, reason: 0, props: vec![] });
                v.push(SPkt::Unsuback { id, reason: 0, props: vec![] });
            }
        }
        4 => {
            // string sizes
            for n in [0usize, 1, 126, 127, 128, 255, 256, 257, 16383, 16384, 32767, 32768, 65534, 65535] {
                let t = text_or_bin(ctx, n);
                let x = SPublish { dup: false, qos: 1, retain: false, topic: "t".into(), id: 7, props: vec![], payload: vec![1, 2] };
                // a topic name is never empty and has no wildcards
                let t = t.replace(['+', '#'], "-");
                if n > 0 {
                    v.push(SPkt::Publish(SPublish { topic: t.clone(), ..x.clone() }));
                }
                v.push(SPkt::Publish(SPublish { props: vec![Prop::RespTopic(t.clone())], ..x.clone() }));
                v.push(SPkt::Publish(SPublish { props: vec![Prop::Corr(ctx.rng.bytes(n)), Prop::Expiry(9)], ..x.clone() }));
                v.push(SPkt::Publish(SPublish { props: vec![Prop::User(t.clone(), "v".into()), Prop::Pfi(0)], ..x.clone() }));
                v.push(SPkt::Publish(SPublish { props: vec![Prop::User("k".into(), t.clone())], ..x.clone() }));
                v.push(SPkt::Suback { id: 3, reason: 1, props: vec![AckProp::Reason(t.clone())] });
                v.push(SPkt::Unsuback { id: 3, reason: 17, props: vec![AckProp::User(t.clone(), t.clone())] });
                v.push(SPkt::Puback { id: 3, reason: Some(0), props: Some(vec![AckProp::Reason(t.clone()), AckProp::User(t, "x".into())]) });
            }
        }
        5 => {
            // total sizes around each step of the length field, text and binary payload
            for target in [4usize, 126, 127, 128, 129, 16382, 16383, 16384, 16385, 300_000, 2_097_151, 2_097_152, 2_200_000] {
                for text in [false, true] {
                    if text && target < 10 {
                        continue;
                    }
                    let props = if text { vec![Prop::Pfi(1)] } else { vec![] };
                    let base = 3 + 1 + if text { 2 } else { 0 };
                    let n = target.saturating_sub(base);
                    let payload = if text { gen::text_len(&mut ctx.rng, n).into_bytes() } else { ctx.rng.bytes(n) };
                    v.push(SPkt::Publish(SPublish { dup: false, qos: 0, retain: false, topic: "t".into(), id: 0, props, payload }));
                }
            }
        }
        6 => {
            // property kinds: singles and all ordered pairs
            let all = [Prop::Pfi(0), Prop::Pfi(1), Prop::Expiry(0), Prop::Expiry(0x01020304), Prop::Expiry(u32::MAX), Prop::RespTopic("r/é".into()), Prop::Corr(vec![0, 0x26, 0xff]), Prop::Corr(vec![]), Prop::User("k".into(), "v".into()), Prop::User("".into(), "".into())];
            let x = SPublish { dup: false, qos: 0, retain: true, topic: "a/b".into(), id: 0, props: vec![], payload: "päyload".into() };
            for a in &all {
                v.push(SPkt::Publish(SPublish { props: vec![a.clone()], ..x.clone() }));
                for b in &all {
                    if std::mem::discriminant(a) != std::mem::discriminant(b) || matches!(a, Prop::User(..)) {
                        v.push(SPkt::Publish(SPublish { props: vec![a.clone(), b.clone()], ..x.clone() }));
                    }
                }
            }
        }
        7 => {
            // property-section length at the steps of its length field
            for target in [127usize, 128, 129, 16383, 16384, 16385, 70_000, 2_097_151, 2_097_152] {
                let mut left = target;
                let mut props = vec![];
                while left > 65_000 {
                    props.push(Prop::User("kk".into(), gen::text_len(&mut ctx.rng, 60_000 - 7)));
                    left -= 60_000;
                }
                props.push(Prop::User("k".into(), gen::text_len(&mut ctx.rng, left - 6)));
                v.push(SPkt::Publish(SPublish { dup: false, qos: 1, retain: false, topic: "p".into(), id: 5, props: props.clone(), payload: vec![9; 10] }));
                let ap: Vec<AckProp> = props.iter().map(|p| match p { Prop::User(a, b) => AckProp::User(a.clone(), b.clone()), _ => unreachable!() }).collect();
                if target < 100_000 {
                    v.push(SPkt::Suback { id: 5, reason: 2, props: ap.clone() });
                    v.push(SPkt::Unsuback { id: 5, reason: 0, props: ap.clone() });
                    v.push(SPkt::Puback { id: 5, reason: Some(16), props: Some(ap) });
                }
            }
        }
        8 => {
            // far beyond any buffer; the largest packet there is, in the thorough tier
            let mut sizes = vec![3_000_000usize, 4_194_309, 17_000_000];
            if ctx.idx <= FAMILIES {
                sizes.push(34_000_003);
                if ctx.thorough {
                    sizes = vec![268_435_455];
                }
            }
            for target in sizes {
                let big = if target < 4_000_000 { ctx.rng.bytes(target - 4) } else { gen::text_len(&mut ctx.rng, target - 6).into_bytes() };
                let props = if target < 4_000_000 { vec![] } else { vec![Prop::Pfi(1)] };
                v.push(SPkt::Publish(SPublish { dup: false, qos: 0, retain: false, topic: "t".into(), id: 0, props, payload: big }));
                v.push(SPkt::Publish(SPublish { dup: false, qos: 1, retain: false, topic: "next".into(), id: 9, props: vec![], payload: vec![1] }));
            }
        }
        _ => {
            // payload contents
            for qos in 0..2 {
                let x = SPublish { dup: false, qos, retain: false, topic: "c".into(), id: 77, props: vec![], payload: vec![] };
                v.push(SPkt::Publish(SPublish { payload: (0..=255).collect(), ..x.clone() }));
                v.push(SPkt::Publish(SPublish { payload: SPkt::Disconnect { reason: None, props: None }.encode(), ..x.clone() }));
                for t in ["", "\u{0}", "\"q\"", "\\n", "😀", "\u{feff}bom", "a\u{301}", "line\nbreak\r\n\t", "{}()[],", "\u{10ffff}"] {
                    v.push(SPkt::Publish(SPublish { payload: t.as_bytes().to_vec(), props: vec![Prop::Pfi(1)], ..x.clone() }));
                    v.push(SPkt::Publish(SPublish { payload: t.as_bytes().to_vec(), props: vec![Prop::Pfi(0)], ..x.clone() }));
                    v.push(SPkt::Publish(SPublish { payload: t.as_bytes().to_vec(), props: vec![Prop::User("u".into(), t.into()), Prop::Pfi(1), Prop::Expiry(1)], ..x.clone() }));
                    v.push(SPkt::Publish(SPublish { topic: format!("t{}", t.replace('\u{0}', "")), payload: vec![0xff], props: vec![], ..x.clone() }));
                }
            }
        }
    }
    v
}
const FAMILIES: u64 = 10;

pub async fn c03(ctx: &mut Ctx) -> R {
    if ctx.idx == 11 {
        super::marathon::marathon(ctx).await?;
    }
    if ctx.idx == 0 {
        return connacks(ctx).await;
    }
    let fam = if ctx.idx <= FAMILIES { Some(ctx.idx - 1) } else if ctx.rng.chance(1, 400) { Some(ctx.rng.below(FAMILIES as usize) as u64) } else { None };
    let connack = match ctx.rng.below(3) {
        0 => SPkt::ok_connack(),
        _ => SPkt::Connack { sp: ctx.rng.chance(1, 2), reason: 0, props: gen::ack_props(&mut ctx.rng) },
    };
    let mut s = Sess::connected_with(ctx, Opts::default(), &connack).await?;
    let mut sent = vec![connack];
    let pkts = match fam {
        Some(k) => {
            ctx.label = format!("family {}", k);
            family(ctx, k)
        }
        None => {
            ctx.label = "random".into();
            (0..ctx.rng.range(1, 20)).map(|_| gen::s_packet(&mut ctx.rng)).collect()
        }
    };
    let mut answered = 0;
    for p in pkts {
        s.send(&p);
        sent.push(p);
        if fam.is_none() {
            if ctx.rng.chance(1, 200) {
                s.pass_some(ctx).await?;
            }
            if ctx.rng.chance(1, 4) {
                let c = gen::call01(&mut ctx.rng);
                ensure(s.call(&c), || format!("valid call refused: {}", c.brief()))?;
            }
            if ctx.rng.chance(1, 4) {
                s.settle().await?;
                let t = s.traffic();
                for q in &t[answered..] {
                    if let Some(a) = gen::answer(&mut ctx.rng, q) {
                        s.send(&a);
                        sent.push(a);
                    }
                }
                answered = t.len();
            }
        } else {
            s.turn().await?;
        }
    }
    s.fence(4711).await?;
    sent.push(SPkt::fence(4711));
    ctx.add("server_packets", sent.len() as u64);
    notified(ctx, &mut s, &sent).await?;
    ensure(s.outcome.is_none(), || format!("the connection did not survive well-formed packets: {:?}", s.outcome))?;
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

/// Every reason code a CONNACK can carry, with and without properties.
async fn connacks(ctx: &mut Ctx) -> R {
    ctx.label = "all CONNACK reasons".into();
    for (r, _) in CONNACK_REASONS {
        for k in 0..5 {
            let props = match k {
                0 => vec![],
                1 => vec![AckProp::Reason("because".into())],
                2 => vec![AckProp::User("a".into(), "é".into()), AckProp::User("a".into(), "é".into())],
                _ => gen::ack_props(&mut ctx.rng),
            };
            // session-present is only legal on success
            let p = SPkt::Connack { sp: *r == 0 && k % 2 == 1, reason: *r, props };
            let mut s = Sess::connected_with(ctx, Opts::default(), &p).await?;
            s.settle().await?;
            same_notifs(ctx, &s.notifs, &[p])?;
            if *r == 0 {
                s.fence(1).await?;
            }
            ctx.add("reason_codes", 1);
            ctx.add("server_packets", 1);
            s.finish(ctx);
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------------------ C04
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Open,
    Eof,
    EofInside,
    DiscNormal,
    DiscBad,
}

/// One delivery: the stream cut at the given sizes; `step` checks after every piece.
async fn deliver(ctx: &mut Ctx, pkts: &[SPkt], pieces: &[Vec<u8>], end: End, step: bool, early: &[Call]) -> R {
    let mut s = Sess::new(ctx, Opts::default())?;
    for c in early {
        ensure(s.call(c), || "early call refused".into())?;
    }
    s.expect("CONNECT", |s| !s.wire.is_empty()).await?;
    let ends: Vec<usize> = pkts.iter().scan(0usize, |a, p| { *a += p.encode().len(); Some(*a) }).collect();
    let mut at = 0usize;
    let mut done_before = 0;
    let slow = ctx.rng.chance(1, 10);
    let mut left = 7000u64;
    for piece in pieces {
        if slow && ctx.rng.chance(1, 3) {
            // the rest comes later; before CONNACK however late
            s.settle().await?;
            let ms = if s.notifs.is_empty() && ctx.rng.chance(1, 8) { 70_000 } else { (*ctx.rng.pick(&[20u64, 600, 1100, 2600, 5100])).min(left) };
            s.advance(ms).await?;
            left = left.saturating_sub(ms.min(7000));
            ctx.add("late_pieces", 1);
        }
        s.send_bytes(piece.clone());
        at += piece.len();
        if step {
            let complete = ends.iter().filter(|e| **e <= at).count();
            let part = &pkts[..complete];
            if complete > done_before {
                let (n, q) = (n_notifying(part), qos1_ids(part).len());
                let fin = matches!(part.last(), Some(SPkt::Disconnect { .. }));
                s.expect(&format!("reaction to packet {} although all its bytes have arrived", complete - 1), |s| s.notifs.len() >= n && s.pubacks() >= q && (!fin || s.outcome.is_some())).await?;
                done_before = complete;
            }
            s.settle().await?;
            same_notifs(ctx, &s.notifs, part)?;
            same_pubacks(&s, part)?;
            if !matches!(part.last(), Some(SPkt::Disconnect { .. })) {
                ensure(s.outcome.is_none(), || format!("event loop ended after {} of {} bytes: {:?}", at, ends.last().unwrap(), s.outcome))?;
            }
            ctx.add("stepwise_checks", 1);
        } else {
            s.turn().await?;
        }
    }
    let (n, q) = (n_notifying(pkts), qos1_ids(pkts).len());
    s.expect("reaction to every packet of the stream", |s| s.notifs.len() >= n && s.pubacks() >= q).await?;
    match end {
        End::Open => {}
        End::Eof | End::EofInside => s.close_server(),
        _ => {}
    }
    if end != End::Open {
        s.expect("the event loop to end", |s| s.outcome.is_some()).await?;
    }
    s.settle().await?;
    same_notifs(ctx, &s.notifs, pkts)?;
    same_pubacks(&s, pkts)?;
    if end == End::Open {
        same_calls(&s, early)?;
    } else {
        // the connection may have ended before the calls were taken up
        let n = n_calls(&s).min(early.len());
        same_calls(&s, &early[..n])?;
    }
    let ok = match (end, &s.outcome) {
        (End::Open, None) => true,
        (End::Eof | End::DiscNormal, Some(Outcome::Ok)) => true,
        (End::EofInside | End::DiscBad, Some(Outcome::Err { .. })) => true,
        _ => false,
    };
    ensure(ok, || format!("wrong outcome {:?} for {:?}", s.outcome, end))?;
    s.finish(ctx);
    Ok(())
}

pub async fn c04(ctx: &mut Ctx) -> R {
    let big = ctx.idx % 61 == 5;
    let glue_calls = ctx.rng.chance(1, 4);
    let mut early = vec![];
    if glue_calls {
        for i in 0..ctx.rng.range(1, 3) {
            early.push(gen::tagged(&format!("early{}", i), 0));
        }
    }
    let short = ctx.idx % 4 == 0 && !big;
    let mut pkts = vec![gen::ok_connack(&mut ctx.rng)];
    let n = if big { 3 } else if short { ctx.rng.range(1, 3) } else { ctx.rng.range(1, 12) };
    for _ in 0..n {
        let mut p = gen::s_packet(&mut ctx.rng);
        if short {
            while p.encode().len() > 60 {
                p = gen::s_packet(&mut ctx.rng);
            }
        }
        if big && ctx.rng.chance(1, 2) {
            let n = *ctx.rng.pick(&[8191usize, 8192, 8193, 16384, 65536, 70_000, 300_000]);
            p = SPkt::Publish(SPublish { dup: false, qos: 1, retain: false, topic: "big".into(), id: gen::any_id(&mut ctx.rng), props: vec![Prop::Pfi(1)], payload: gen::text_len(&mut ctx.rng, n).into_bytes() });
        }
        pkts.push(p);
    }
    let end = match ctx.rng.below(6) {
        0 | 1 => End::Open,
        2 => End::Eof,
        3 => End::EofInside,
        4 => End::DiscNormal,
        _ => End::DiscBad,
    };
    let mut tail: Vec<u8> = vec![];
    match end {
        End::DiscNormal => pkts.push(match ctx.rng.below(3) {
            0 => SPkt::Disconnect { reason: None, props: None },
            1 => SPkt::Disconnect { reason: Some(0), props: None },
            _ => SPkt::Disconnect { reason: Some(0), props: Some(gen::ack_props(&mut ctx.rng)) },
        }),
        End::DiscBad => pkts.push(SPkt::Disconnect { reason: Some(*ctx.rng.pick(&DISCONNECT_REASONS[1..])), props: if ctx.rng.chance(1, 2) { None } else { Some(gen::ack_props(&mut ctx.rng)) } }),
        End::EofInside => {
            let p = gen::s_packet(&mut ctx.rng).encode();
            let k = ctx.rng.range(1, p.len() - 1);
            tail = p[..k].to_vec();
        }
        _ => {}
    }
    ctx.label = format!("{} packets, {:?}", pkts.len(), end);
    let mut stream: Vec<u8> = pkts.iter().flat_map(|p| p.encode()).collect();
    stream.extend_from_slice(&tail);
    ctx.add("server_packets", pkts.len() as u64);
    let max_cuts = 220;
    if short && stream.len() <= max_cuts {
        // every single cut point
        for k in 1..stream.len() {
            let pieces = vec![stream[..k].to_vec(), stream[k..].to_vec()];
            deliver(ctx, &pkts, &pieces, end, k % 3 == 0, &early).await?;
            ctx.add("cuts", 1);
        }
    }
    let modes: &[usize] = if big { &[0, 3, 4, 5] } else { &[0, 1, 2, 3, 6] };
    for &m in modes {
        if m == 1 && stream.len() > 1500 {
            continue;
        }
        if big && m == 3 && stream.len() > 100_000 {
            continue;
        }
        let pieces = gen::cut(&mut ctx.rng, &stream, m);
        let step = if pieces.len() > 200 { false } else { ctx.rng.chance(1, 2) || m == 1 };
        ctx.add("cuts", pieces.len() as u64 - 1);
        deliver(ctx, &pkts, &pieces, end, step, &early).await?;
    }
    // packet by packet
    if end == End::Open || tail.is_empty() {
        let pieces: Vec<Vec<u8>> = pkts.iter().map(|p| p.encode()).collect();
        ctx.add("cuts", pieces.len() as u64);
        deliver(ctx, &pkts, &pieces, end, true, &early).await?;
    }
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------------------ C09
pub async fn c09(ctx: &mut Ctx) -> R {
    if ctx.idx == 11 {
        super::marathon::marathon(ctx).await?;
    }
    if ctx.idx == 0 {
        return all_ids(ctx).await;
    }
    let mut s = Sess::new(ctx, Opts::default())?;
    if ctx.rng.chance(1, 16) {
        s.drop_rx();
    }
    s.handshake(&SPkt::ok_connack()).await?;
    let mut sent = vec![SPkt::ok_connack()];
    let mut calls = vec![];
    let drop_at = if ctx.rng.chance(1, 4) { Some(ctx.rng.below(30)) } else { None };
    let n = ctx.rng.range(1, 40);
    let style = ctx.rng.below(4);
    let mut answered = 0;
    for i in 0..n {
        if drop_at == Some(i) {
            s.settle().await?;
            s.drop_rx();
        }
        if ctx.rng.chance(1, 300) {
            s.pass_some(ctx).await?;
        }
        let p = match style {
            // one identifier over and over
            0 => SPkt::Publish(SPublish { id: 9, ..gen::s_publish(&mut ctx.rng, 1) }),
            // redelivery of the previous message with DUP
            1 if ctx.rng.chance(1, 2) => match sent.iter().rev().find(|p| matches!(p, SPkt::Publish(x) if x.qos == 1)) {
                Some(SPkt::Publish(x)) => SPkt::Publish(SPublish { dup: true, ..x.clone() }),
                _ => SPkt::Publish(gen::s_publish(&mut ctx.rng, 1)),
            },
            _ => gen::s_packet(&mut ctx.rng),
        };
        if ctx.rng.chance(1, 12) {
            // the segment ends inside the packet after it: the PUBACK does not wait for the rest
            let next = gen::s_packet(&mut ctx.rng);
            let rest = next.encode();
            let cut = ctx.rng.range(1, rest.len() - 1);
            let mut b = p.encode();
            b.extend_from_slice(&rest[..cut]);
            s.send_bytes(b);
            sent.push(p);
            let want = qos1_ids(&sent).len();
            s.expect("the PUBACK of a QoS 1 message that is followed by the first bytes of another packet", |s| s.pubacks() >= want).await?;
            if ctx.rng.chance(1, 4) {
                s.advance(3000).await?;
            }
            s.send_bytes(rest[cut..].to_vec());
            sent.push(next);
            s.pong().await?;
            ctx.add("followed_by_a_part", 1);
            continue;
        }
        s.send(&p);
        sent.push(p);
        match ctx.rng.below(6) {
            0 => {
                let c = gen::call01(&mut ctx.rng);
                ensure(s.call(&c), || "valid call refused".into())?;
                calls.push(c);
            }
            1 => s.settle().await?,
            2 => {
                s.turn().await?;
            }
            3 => {
                let t = s.traffic();
                for q in &t[answered.min(t.len())..] {
                    if let Some(a) = gen::answer(&mut ctx.rng, q) {
                        s.send(&a);
                        sent.push(a);
                    }
                }
                answered = t.len();
            }
            _ => {}
        }
    }
    let want = qos1_ids(&sent).len();
    s.expect("a PUBACK for every QoS 1 message", |s| s.pubacks() >= want).await?;
    s.fence(31000).await?;
    sent.push(SPkt::fence(31000));
    s.expect("calls on the wire", |s| n_calls(s) >= calls.len()).await?;
    s.settle().await?;
    same_pubacks(&s, &sent)?;
    same_calls(&s, &calls)?;
    ctx.add("qos1_received", want as u64);
    ctx.nontrivial = want > 0;
    s.finish(ctx);
    Ok(())
}

/// Every identifier once.
async fn all_ids(ctx: &mut Ctx) -> R {
    ctx.label = "identifiers 1..=65535".into();
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    let mut id = 0u32;
    while id < 65535 {
        let mut chunk = vec![];
        for _ in 0..97 {
            if id < 65535 {
                id += 1;
                chunk.extend(SPkt::Publish(SPublish { dup: false, qos: 1, retain: false, topic: "i".into(), id: id as u16, props: vec![], payload: vec![] }).encode());
            }
        }
        s.send_bytes(chunk);
        let n = id as usize;
        s.expect("PUBACKs", |s| s.pubacks() >= n).await?;
        s.notifs.clear();
    }
    s.settle().await?;
    let ids: Vec<u16> = s.wire.iter().filter_map(|x| match x.1 { CPkt::Puback { id, reason: 0 } => Some(id), _ => None }).collect();
    ensure(ids.len() == 65535 && ids.iter().enumerate().all(|(i, x)| *x as usize == i + 1), || format!("PUBACK identifiers differ from 1..=65535 ({} PUBACKs, first difference at {:?})", ids.len(), ids.iter().enumerate().find(|(i, x)| **x as usize != i + 1)))?;
    ctx.add("qos1_received", 65535);
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}
