//! C05 (no bytes can panic or wedge the event loop) and C06 (bad packets end it, unseen).
use super::*;
use crate::gen;
use crate::rng::Rng;

// ------------------------------------------------------------------------------ C05
fn valid_any(r: &mut Rng) -> SPkt {
    match r.below(12) {
        0 => SPkt::Connack { sp: r.chance(1, 2), reason: r.pick(CONNACK_REASONS).0, props: gen::ack_props(r) },
        1 => SPkt::Disconnect { reason: Some(*r.pick(DISCONNECT_REASONS)), props: Some(gen::ack_props(r)) },
        2 => SPkt::Publish(gen::s_publish(r, 2)),
        _ => gen::s_packet(r),
    }
}
fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            b.push(r.u64() as u8);
        }
        // damage prefers the head, where the structure is
        let at = if r.chance(2, 3) { r.below(b.len().min(16)) } else { r.below(b.len()) };
        match r.below(9) {
            0 => b[at] ^= 1 << r.below(8),
            1 => b[at] = r.u64() as u8,
            2 => b[at] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x26, 0x1f, 0x08, 0x09, 0x02, 0x01, 3]),
            3 => b.insert(at, r.u64() as u8),
            4 => {
                b.remove(at);
            }
            5 => {
                let n = r.range(1, 8).min(b.len() - at);
                b.drain(at..at + n);
            }
            6 => {
                let n = r.range(1, 8);
                let x = r.bytes(n);
                b.splice(at..at, x);
            }
            7 => b[at] = b[at].wrapping_add(1),
            _ => b[at] = b[at].wrapping_sub(1),
        }
    }
}
/// A frame whose remaining length fits its body exactly, with the body damaged.
fn framed(r: &mut Rng) -> Vec<u8> {
    let (f, mut body) = valid_any(r).first_and_body();
    match r.below(4) {
        0 => {
            let n = r.below(body.len() + 1);
            body.truncate(n);
        }
        1 => {
            let n = r.range(1, 6);
            let x = r.bytes(n);
            body.extend(x);
        }
        _ => mutate(r, &mut body),
    }
    let f = if r.chance(1, 12) { r.u64() as u8 } else { f };
    frame(f, &body)
}
fn hostile(r: &mut Rng) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..r.range(1, 4) {
        match r.below(8) {
            0 => {
                let n = r.range(1, 60);
                out.extend(r.bytes(n));
            }
            1 => {
                // plausible header, random body of the announced size
                let n = r.below(40);
                let body = r.bytes(n);
                out.extend(frame(r.u64() as u8, &body));
            }
            2 => {
                // extreme length fields
                out.push(*r.pick(&[0x20u8, 0x30, 0x32, 0x40, 0x90, 0xb0, 0xd0, 0xe0]));
                out.extend_from_slice(*r.pick(&[&[0xffu8, 0xff, 0xff, 0x7f][..], &[0xff, 0xff, 0xff, 0xff, 0x7f], &[0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x80, 0x80, 0x80, 0x80, 0x00], &[0x80, 0x80, 0x80, 0x01], &[0x80, 0x00], &[0xff, 0xff, 0xff, 0xff, 0x01]]));
                let n = r.below(30);
                out.extend(r.bytes(n));
            }
            3 | 4 => {
                let mut b = valid_any(r).encode();
                mutate(r, &mut b);
                out.extend(b);
            }
            _ => out.extend(framed(r)),
        }
    }
    if r.chance(1, 3) {
        out.extend(valid_any(r).encode());
    }
    out
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Cut {
    Close,
    Reset,
    /// nothing more comes from the server, not even answers to pings
    Silence,
}

/// One session; returns once the event loop has finished.
async fn attack(ctx: &mut Ctx, prefix: &[SPkt], handshake: bool, bytes: &[u8], mode: usize, cutk: Cut, calls: usize) -> R {
    let mut s = Sess::new(ctx, Opts::default())?;
    let drop_rx = ctx.rng.chance(1, 10);
    let mut sent = vec![];
    if handshake {
        let p = SPkt::ok_connack();
        s.handshake(&p).await?;
        sent.push(p);
    } else {
        s.expect("CONNECT", |s| !s.wire.is_empty()).await?;
    }
    for i in 0..calls {
        s.call(&match i % 3 { 0 => gen::tagged("c", 1), 1 => Call::Subscribe("s".into(), 1), _ => Call::Unsubscribe("u".into()) });
    }
    if handshake {
        for p in prefix {
            s.send(p);
            sent.push(p.clone());
        }
        if drop_rx {
            s.settle().await?;
            s.drop_rx();
        }
    }
    for piece in gen::cut(&mut ctx.rng, bytes, mode) {
        s.send_bytes(piece);
        if ctx.rng.chance(1, 4) {
            s.turn().await?;
        }
    }
    s.settle().await?;
    match cutk {
        Cut::Close => s.close_server(),
        Cut::Reset => s.reset_server(),
        Cut::Silence => {
            for _ in 0..60 {
                if s.outcome.is_none() {
                    s.advance(1000).await?;
                }
            }
            ctx.add("silences", 1);
        }
    }
    if !s.until(|s| s.outcome.is_some()).await? {
        return viol(format!("the event loop did not finish after the server's {:?} (stream {})", cutk, hex(bytes)));
    }
    s.settle().await?;
    if !drop_rx {
        // what was well-formed before the damage must have been handled
        let n = n_notifying(&sent);
        ensure(s.notifs.len() >= n, || format!("only {} of {} notifications that precede the damage; outcome {:?}; stream {}", s.notifs.len(), n, s.outcome, hex(bytes)))?;
        let got: Vec<_> = s.notifs[..n].to_vec();
        same_notifs(ctx, &got, &sent)?;
    }
    let want = qos1_ids(&sent);
    let got: Vec<u16> = s.wire.iter().filter_map(|x| match x.1 { CPkt::Puback { id, .. } => Some(id), _ => None }).collect();
    if cutk != Cut::Reset {
        ensure(got.len() >= want.len() && got[..want.len()] == want[..], || format!("PUBACKs {:?} for QoS 1 messages {:?} that precede the damage", got, want))?;
    }
    ctx.add("hostile_streams", 1);
    s.finish(ctx);
    Ok(())
}
pub fn hex(b: &[u8]) -> String {
    let h: String = b.iter().take(120).map(|x| format!("{:02x}", x)).collect();
    format!("{}{} ({} bytes)", h, if b.len() > 120 { ".." } else { "" }, b.len())
}

pub async fn c05(ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    if ctx.idx < 256 {
        return exhaustive(ctx, ctx.idx as u8).await;
    }
    let handshake = ctx.rng.chance(3, 4);
    let mut prefix = vec![];
    if handshake && ctx.rng.chance(1, 2) {
        for _ in 0..ctx.rng.range(1, 6) {
            prefix.push(gen::s_packet(&mut ctx.rng));
        }
    }
    let bytes = hostile(&mut ctx.rng);
    // truncation of a valid packet is the commonest damage of all
    let bytes = if ctx.rng.chance(1, 5) {
        let b = valid_any(&mut ctx.rng).encode();
        let k = ctx.rng.range(1, b.len());
        b[..k].to_vec()
    } else {
        bytes
    };
    ctx.label = format!("hostile {}", hex(&bytes[..bytes.len().min(24)]));
    let mode = if bytes.len() > 2000 { 3 } else { ctx.rng.below(7) };
    let cutk = if ctx.rng.chance(1, 3) {
        Cut::Reset
    } else if handshake && ctx.rng.chance(1, 4) {
        Cut::Silence
    } else {
        Cut::Close
    };
    let calls = if ctx.rng.chance(1, 3) { ctx.rng.range(1, 6) } else { 0 };
    attack(ctx, &prefix, handshake, &bytes, mode, cutk, calls).await
}

/// All packets with this first byte and a body over a small alphabet, before and after CONNACK.
async fn exhaustive(ctx: &mut Ctx, first: u8) -> R {
    ctx.label = format!("every short packet with first byte {:#04x}", first);
    let known = matches!(first >> 4, 2 | 3 | 4 | 9 | 11 | 13 | 14);
    let a1: &[u8] = if known { &[0, 1, 2, 3, 4, 0x10, 0x1f, 0x26, 0x7f, 0x80, 0x87, 0xff] } else { &[0, 0xff] };
    let a2: &[u8] = if known { &[0, 1, 2, 0x1f, 0x80, 0xff] } else { &[0] };
    let a3: &[u8] = if first & 0xF == 0 || first == 0x32 { &[0, 1, 5, 0x26] } else { &[0] };
    let mut bodies: Vec<Vec<u8>> = vec![vec![]];
    for &x in a1 {
        bodies.push(vec![x]);
    }
    for &x in a2 {
        for &y in a2 {
            bodies.push(vec![x, y]);
        }
    }
    if known {
        for &x in a3 {
            for &y in a3 {
                for &z in a3 {
                    bodies.push(vec![x, y, z]);
                    if ctx.thorough || ctx.rng.chance(1, 6) {
                        for &w in a3 {
                            bodies.push(vec![x, y, z, w]);
                        }
                    }
                }
            }
        }
    }
    for b in bodies {
        let pkt = frame(first, &b);
        let hs = !(first >> 4 == 2) || ctx.rng.chance(1, 4);
        attack(ctx, &[], hs, &pkt, 0, Cut::Close, 0).await?;
        ctx.add("exhaustive_packets", 1);
    }
    Ok(())
}

// ------------------------------------------------------------------------------ C06
/// One packet with a known violation. Returns its name and bytes.
pub fn bad_packet(r: &mut Rng, kind: usize) -> (&'static str, Vec<u8>) {
    fn topic_part(r: &mut Rng, qos: u8) -> Vec<u8> {
        let mut b = vec![];
        put_bin(&mut b, gen::topic(r).as_bytes());
        if qos > 0 {
            b.extend_from_slice(&gen::any_id(r).to_be_bytes());
        }
        b
    }
    fn bad_utf8(r: &mut Rng) -> Vec<u8> {
        let mut v = gen::text(r).into_bytes();
        let x: &[u8] = *r.pick(&[&[0xffu8][..], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xe2, 0x82], &[0x80], &[0xc3], &[0xf0, 0x9f, 0x98]]);
        // an incomplete sequence must stay incomplete
        if r.chance(1, 2) || v.is_empty() {
            v.extend_from_slice(x);
        } else {
            let mut w = x.to_vec();
            w.push(b'a');
            w.extend_from_slice(&v);
            v = w;
        }
        v
    }
    /// (first byte, fixed part, tail after the property section) of packets with ack properties
    fn holder(r: &mut Rng) -> (u8, Vec<u8>, Vec<u8>) {
        let id = gen::any_id(r).to_be_bytes();
        match r.below(4) {
            0 => (0x90, id.to_vec(), vec![0]),
            1 => (0xb0, id.to_vec(), vec![0]),
            2 => (0x40, vec![id[0], id[1], 0], vec![]),
            _ => (0xe0, vec![0], vec![]),
        }
    }
    fn with_props(h: (u8, Vec<u8>, Vec<u8>), props: Vec<u8>) -> Vec<u8> {
        let mut b = h.1;
        put_vbi(&mut b, props.len());
        b.extend(props);
        b.extend(h.2);
        frame(h.0, &b)
    }
    fn pub_with_props(r: &mut Rng, props: Vec<u8>) -> Vec<u8> {
        let qos = r.below(2) as u8;
        let mut b = topic_part(r, qos);
        put_vbi(&mut b, props.len());
        b.extend(props);
        b.extend(b"payload");
        frame(0x30 | qos << 1, &b)
    }
    /// a packet (publish or ack) with this property section
    fn any_with(r: &mut Rng, props: Vec<u8>) -> Vec<u8> {
        if r.chance(1, 2) {
            pub_with_props(r, props)
        } else {
            let h = holder(r);
            with_props(h, props)
        }
    }
    match kind {
        0 => ("reserved packet type 0", {
            let n = r.below(5);
            frame(r.below(16) as u8, &r.bytes(n))
        }),
        1 => ("length field over four bytes", {
            let mut v = vec![*r.pick(&[0x30u8, 0x32, 0x40, 0x90, 0xb0, 0xd0, 0xe0])];
            let last = *r.pick(&[0u8, 1, 0x0f, 0x10, 0x7f]);
            let cont = *r.pick(&[0x80u8, 0xff, 0x81]);
            v.extend_from_slice(&[cont, cont, cont, 0x80 | r.u64() as u8, last]);
            let n = r.below(20);
            v.extend(r.bytes(n));
            v
        }),
        2 => ("client-only or unsupported packet type", {
            let t = *r.pick(&[1u8, 5, 6, 7, 8, 10, 12, 15]);
            let fl = if matches!(t, 6 | 8 | 10) { 2 } else { 0 };
            let body = match t {
                1 => vec![0, 4, b'M', b'Q', b'T', b'T', 5, 2, 0, 8, 0, 0, 1, b'x'],
                5 | 6 | 7 => gen::any_id(r).to_be_bytes().to_vec(),
                8 => vec![0, 1, 0, 0, 1, b'a', 1],
                10 => vec![0, 1, 0, 0, 1, b'a'],
                _ => vec![],
            };
            frame(t << 4 | fl, &body)
        }),
        3 => ("QoS 2 PUBLISH", SPkt::Publish(gen::s_publish(r, 2)).encode()),
        4 => ("QoS 3 PUBLISH", {
            let (f, b) = SPkt::Publish(gen::s_publish(r, 1)).first_and_body();
            frame(f | 0b110, &b)
        }),
        5 => ("zero packet identifier", {
            let mut p = match r.below(4) {
                0 => SPkt::Publish(gen::s_publish(r, 1)),
                1 => gen::puback(r, None),
                2 => SPkt::Suback { id: 1, reason: 0, props: gen::ack_props(r) },
                _ => SPkt::Unsuback { id: 1, reason: 0, props: gen::ack_props(r) },
            };
            match &mut p {
                SPkt::Publish(x) => x.id = 0,
                SPkt::Puback { id, .. } | SPkt::Suback { id, .. } | SPkt::Unsuback { id, .. } => *id = 0,
                _ => {}
            }
            p.encode()
        }),
        6 => ("unknown reason code", {
            let known: Vec<u8>;
            let k = r.below(4);
            known = match k {
                0 => SUBACK_REASONS.iter().map(|x| x.0).collect(),
                1 => UNSUBACK_REASONS.iter().map(|x| x.0).collect(),
                2 => PUBACK_REASONS.to_vec(),
                _ => (0..=255u8).filter(|b| DISCONNECT_REASONS.contains(b) || *b == 4).collect(),
            };
            let mut x = r.u64() as u8;
            while known.contains(&x) {
                x = r.u64() as u8;
            }
            match k {
                0 => SPkt::Suback { id: 1, reason: x, props: gen::ack_props(r) },
                1 => SPkt::Unsuback { id: 1, reason: x, props: gen::ack_props(r) },
                2 => SPkt::Puback { id: 1, reason: Some(x), props: if r.chance(1, 2) { None } else { Some(gen::ack_props(r)) } },
                _ => SPkt::Disconnect { reason: Some(x), props: if r.chance(1, 2) { None } else { Some(gen::ack_props(r)) } },
            }
            .encode()
        }),
        7 => ("unknown property", {
            let mut p = vec![];
            if r.chance(1, 2) {
                enc_ack_prop(&mut p, &AckProp::User("a".into(), "b".into()));
            }
            p.push(*r.pick(&[0u8, 0x04, 0x05, 0x06, 0x07, 0x0a, 0x0c, 0x0d, 0x0e, 0x0f, 0x10, 0x14, 0x18, 0x1b, 0x20, 0x27, 0x2b, 0x30, 0x7f, 0xff]));
            if r.chance(1, 2) {
                p.extend_from_slice(&[0, 1, b'x']);
            }
            any_with(r, p)
        }),
        8 => ("text that is not UTF-8", {
            let x = bad_utf8(r);
            let ok = gen::text(r);
            match r.below(4) {
                0 => {
                    let mut b = vec![];
                    put_bin(&mut b, &x);
                    b.push(0);
                    frame(0x30, &b)
                }
                1 => {
                    let mut p = vec![0x08];
                    put_bin(&mut p, &x);
                    pub_with_props(r, p)
                }
                2 => {
                    let mut p = vec![0x26];
                    if r.chance(1, 2) {
                        put_bin(&mut p, &x);
                        put_bin(&mut p, ok.as_bytes());
                    } else {
                        put_bin(&mut p, ok.as_bytes());
                        put_bin(&mut p, &x);
                    }
                    any_with(r, p)
                }
                _ => {
                    let mut p = vec![0x1f];
                    put_bin(&mut p, &x);
                    let h = holder(r);
                    with_props(h, p)
                }
            }
        }),
        9 => ("text payload that is not UTF-8", {
            let mut b = vec![];
            put_bin(&mut b, b"t");
            let mut ps = gen::call_props(r, 3);
            let at = r.below(ps.len() + 1);
            ps.insert(at, Prop::Pfi(1));
            enc_props(&mut b, &ps);
            b.extend(bad_utf8(r));
            frame(0x30, &b)
        }),
        10 => ("property section overruns the packet", {
            // announced length of the section exceeds what is left
            let over = *r.pick(&[1usize, 2, 5, 100, 127, 128, 20_000, 2_000_000, 268_435_455]);
            let mut p = vec![];
            if r.chance(1, 2) {
                enc_ack_prop(&mut p, &AckProp::User("a".into(), "b".into()));
            }
            if r.chance(1, 2) {
                let q = r.below(2) as u8;
                let mut b = topic_part(r, q);
                put_vbi(&mut b, p.len() + over);
                b.extend(p);
                frame(0x30 | q << 1, &b)
            } else {
                let h = holder(r);
                let mut b = h.1;
                // the tail (reason code) is swallowed by the section, so it must be exceeded too
                put_vbi(&mut b, p.len() + h.2.len() + over);
                b.extend(p);
                b.extend(h.2);
                frame(h.0, &b)
            }
        }),
        11 => ("string or number overruns its property section", {
            // cut a valid list of properties in the middle of its last one
            let mut p = vec![];
            let publish = r.chance(1, 2);
            if r.chance(1, 2) {
                enc_ack_prop(&mut p, &AckProp::User("a".into(), "b".into()));
            }
            let keep = p.len() + 1;
            if publish {
                let t = gen::text_len(r, 5);
                let q = match r.below(5) {
                    0 => Prop::Pfi(1),
                    1 => Prop::Expiry(gen::any_u32(r)),
                    2 => Prop::RespTopic(t),
                    3 => Prop::Corr(r.bytes(7)),
                    _ => Prop::User(t, "vv".into()),
                };
                enc_prop(&mut p, &q);
            } else {
                let t = gen::text_len(r, 5);
                let q = if r.chance(1, 2) { AckProp::Reason(t) } else { AckProp::User(t, "vv".into()) };
                enc_ack_prop(&mut p, &q);
            }
            let n = r.range(keep, p.len() - 1);
            p.truncate(n);
            if publish {
                // without a payload behind it, or with one that could be mistaken for the rest
                if r.chance(1, 2) {
                    pub_with_props(r, p)
                } else {
                    let mut b = topic_part(r, 0);
                    put_vbi(&mut b, p.len());
                    b.extend(p);
                    frame(0x30, &b)
                }
            } else {
                let h = holder(r);
                with_props(h, p)
            }
        }),
        12 => ("topic overruns the packet", {
            let t = gen::topic(r);
            let over = *r.pick(&[1usize, 2, 255, 256, 5000]);
            let n = (t.len() + over).min(65535);
            let mut b = (n as u16).to_be_bytes().to_vec();
            b.extend_from_slice(t.as_bytes());
            frame(0x30 | (r.below(2) as u8) << 1, &b)
        }),
        13 => ("packet ends inside its fixed fields", {
            let (f, b) = match r.below(4) {
                0 => (0x40, gen::any_id(r).to_be_bytes().to_vec()),
                1 => SPkt::Suback { id: gen::any_id(r), reason: 0, props: vec![] }.first_and_body(),
                2 => SPkt::Unsuback { id: gen::any_id(r), reason: 0, props: vec![] }.first_and_body(),
                _ => SPkt::Publish(SPublish { dup: false, qos: 1, retain: false, topic: "abc".into(), id: 256, props: vec![], payload: vec![] }).first_and_body(),
            };
            let n = r.below(b.len());
            frame(f, &b[..n])
        }),
        14 => ("reason code missing after properties", {
            let id = gen::any_id(r).to_be_bytes();
            let mut b = id.to_vec();
            let ps = gen::ack_props(r);
            enc_ack_props(&mut b, &ps);
            frame(*r.pick(&[0x90u8, 0xb0]), &b)
        }),
        _ => ("property length field over four bytes", {
            let vb = [0xffu8, 0xff, 0x80, 0x80, *r.pick(&[0u8, 1, 0x7f])];
            if r.chance(1, 2) {
                let q = r.below(2) as u8;
                let mut b = topic_part(r, q);
                b.extend_from_slice(&vb);
                let n = r.below(20);
                b.extend(r.bytes(n));
                frame(0x30 | q << 1, &b)
            } else {
                let h = holder(r);
                let mut b = h.1;
                b.extend_from_slice(&vb);
                let n = r.below(20);
                b.extend(r.bytes(n));
                frame(h.0, &b)
            }
        }),
    }
}
pub const BAD_KINDS: usize = 16;

pub async fn c06(ctx: &mut Ctx) -> R {
    let kind = (ctx.idx % BAD_KINDS as u64) as usize;
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    let mut sent = vec![SPkt::ok_connack()];
    let mut calls = vec![];
    let mut stream = vec![];
    // now and then the bad packet hits requests that are really pending
    if ctx.rng.chance(1, 3) {
        for i in 0..ctx.rng.range(1, 4) {
            let c = match ctx.rng.below(3) {
                0 => gen::tagged(&format!("c{}", i), 1),
                1 => Call::Subscribe("s".into(), 1),
                _ => Call::Unsubscribe("u".into()),
            };
            ensure(s.call(&c), || "valid call refused".into())?;
            calls.push(c);
        }
        s.expect("calls on the wire", |s| n_calls(s) >= calls.len()).await?;
    }
    for _ in 0..ctx.rng.below(5) {
        let p = gen::s_packet(&mut ctx.rng);
        stream.extend(p.encode());
        sent.push(p);
    }
    let (name, bad) = bad_packet(&mut ctx.rng, kind);
    ctx.label = name.to_string();
    s.note(format!("bad packet: {}: {}", name, hex(&bad)));
    stream.extend(&bad);
    for _ in 0..ctx.rng.below(4) {
        // a good suffix, to be ignored
        let p = if ctx.rng.chance(1, 3) { SPkt::Publish(gen::s_publish(&mut ctx.rng, 1)) } else { gen::s_packet(&mut ctx.rng) };
        stream.extend(p.encode());
    }
    let mode = if stream.len() > 3000 { *ctx.rng.pick(&[0usize, 3, 4]) } else { ctx.rng.below(7) };
    for piece in gen::cut(&mut ctx.rng, &stream, mode) {
        s.send_bytes(piece);
        if ctx.rng.chance(1, 3) {
            s.turn().await?;
        }
    }
    if !s.until(|s| s.outcome.is_some()).await? {
        return viol(format!("event loop keeps running after a bad packet ({}): {}; {} notifications, last {:?}", name, hex(&bad), s.notifs.len(), s.notifs.last().map(|n| clip(&n.text))));
    }
    s.settle().await?;
    if !s.outcome.as_ref().unwrap().is_err() {
        return viol(format!("event loop finished Ok on a bad packet ({}): {}", name, hex(&bad)));
    }
    same_notifs(ctx, &s.notifs, &sent).map_err(|e| wrap(e, name, &bad))?;
    // PUBACKs the client wrote before it failed must be the prefix's, completely
    same_pubacks(&s, &sent).map_err(|e| wrap(e, name, &bad))?;
    same_calls(&s, &calls)?;
    ctx.add("bad_packets", 1);
    ctx.max("kinds", BAD_KINDS as u64);
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}
fn wrap(e: Fail, name: &str, bad: &[u8]) -> Fail {
    match e {
        Fail::Violation(m) => Fail::Violation(format!("around a bad packet ({}; {}): {}", name, hex(bad), m)),
        x => x,
    }
}
