//! C01 (calls become exactly their packets) and C02 (oversize input is refused).
use crate::engine::*;
use crate::gen;
use crate::wire::*;

fn prop_len(p: &Prop) -> usize {
    let mut b = vec![];
    enc_prop(&mut b, p);
    b.len()
}
/// Remaining length of the PUBLISH this call stands for.
fn remaining(topic: &str, qos: u8, props: &[Prop], payload: usize) -> usize {
    let pl: usize = 2 + props.iter().map(prop_len).sum::<usize>();
    2 + topic.len() + if qos > 0 { 2 } else { 0 } + vbi(pl).len() + pl + payload
}
pub const MAX: usize = 268_435_455;

fn compare(ctx: &mut Ctx, s: &Sess, exp: &[Call]) -> R {
    super::same_calls(s, exp)?;
    ctx.add("calls_checked", exp.len() as u64);
    ctx.nontrivial |= !exp.is_empty();
    Ok(())
}
use super::n_calls as n_calls_on_wire;

const FIELD: &[usize] = &[0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65533, 65534, 65535];

fn boundary_calls(ctx: &mut Ctx, k: usize) -> Vec<Call> {
    let r = &mut ctx.rng;
    let mut v = vec![];
    let pb = |topic: String, payload: Pay, props: Vec<Prop>, qos: u8| Call::Publish { topic, payload, props, qos, set_qos: true };
    match k {
        0..=6 => {
            // one field at each boundary size
            for &n in FIELD {
                let s = gen::text_len(r, n);
                let q = r.below(3) as u8;
                v.push(match k {
                    0 => pb(s, Pay::Text("p".into()), vec![], q),
                    1 => pb("t".into(), Pay::Bytes(vec![7]), vec![Prop::RespTopic(s)], q),
                    2 => pb("t".into(), Pay::Bytes(vec![7]), vec![Prop::Corr(r.bytes(n))], q),
                    3 => pb("t".into(), Pay::Text("x".into()), vec![Prop::User(s, "v".into())], q),
                    4 => pb("t".into(), Pay::Text("x".into()), vec![Prop::User("k".into(), s)], q),
                    5 => Call::Subscribe(s, q),
                    _ => Call::Unsubscribe(s),
                });
            }
        }
        7 | 8 => {
            // remaining length at the size steps of the length field
            for target in [126usize, 127, 128, 129, 16382, 16383, 16384, 16385, 2097150, 2097151, 2097152, 2097153] {
                let qos = r.below(3) as u8;
                let topic = gen::topic(r);
                let props = vec![Prop::User("a".into(), "b".into())];
                let base = remaining(&topic, qos, &props, 0);
                let (topic, base) = if base > target { ("t".to_string(), remaining("t", qos, &props, 0)) } else { (topic, base) };
                let n = target - base;
                let p = if k == 7 { Pay::Bytes(r.bytes(n)) } else { Pay::Text(gen::text_len(r, n)) };
                v.push(pb(topic, p, props, qos));
            }
        }
        9 => {
            // property section length at the size steps
            for target in [126usize, 127, 128, 129, 16382, 16383, 16384, 16385, 2097150, 2097151, 2097152, 2097153] {
                let mut left = target - 2;
                let mut props = vec![];
                while left > 65000 {
                    props.push(Prop::User("kk".into(), gen::text_len(r, 60000 - 7)));
                    left -= 60000;
                }
                props.push(Prop::User("k".into(), gen::text_len(r, left - 6)));
                v.push(pb("t".into(), Pay::Bytes(vec![1, 2, 3]), props, r.below(3) as u8));
            }
        }
        10 => {
            // numbers
            for n in [0u32, 1, 127, 128, 255, 256, 65535, 65536, 0x01020304, 0x7fffffff, 0x80000000, u32::MAX] {
                v.push(pb("t".into(), Pay::Text("x".into()), vec![Prop::Expiry(n)], r.below(3) as u8));
            }
        }
        11 => {
            // many properties
            for n in [1usize, 2, 3, 10, 100, 1000] {
                let props = (0..n).map(|i| Prop::User(format!("k{}", i % 7), format!("v{}", i))).collect();
                v.push(pb("t".into(), Pay::Text("x".into()), props, r.below(3) as u8));
            }
        }
        12 => {
            // payload content: every byte value, MQTT look-alikes
            v.push(pb("t".into(), Pay::Bytes((0..=255u8).collect()), vec![], 1));
            v.push(pb("t".into(), Pay::Bytes(vec![0; 300]), vec![], 0));
            v.push(pb("t".into(), Pay::Bytes(SPkt::ok_connack().encode()), vec![], 2));
            for n in 0..40 {
                v.push(pb("t".into(), Pay::Bytes(r.bytes(n)), vec![], r.below(3) as u8));
            }
        }
        _ => {
            // default QoS, repeated identical calls, every QoS for subscribe
            for q in 0..3 {
                v.push(Call::Subscribe(format!("s{}", q), q));
            }
            let same = pb("same".into(), Pay::Text("same".into()), vec![Prop::User("a".into(), "b".into()), Prop::User("a".into(), "b".into())], 1);
            for _ in 0..5 {
                v.push(same.clone());
            }
            v.push(Call::Publish { topic: "d".into(), payload: Pay::Text("d".into()), props: vec![], qos: 0, set_qos: false });
        }
    }
    v
}

pub async fn c01(ctx: &mut Ctx) -> R {
    if ctx.idx == 11 {
        super::marathon::marathon(ctx).await?;
    }
    if ctx.idx == 0 || (ctx.thorough && ctx.idx == 1000) {
        return largest(ctx).await;
    }
    let boundary = ctx.idx % 16 == 1 || ctx.idx <= 14;
    let mut s = Sess::new(ctx, Opts::default())?;
    let mut exp: Vec<Call> = vec![];
    // calls accepted before the connection exists
    if ctx.rng.chance(1, 3) && !boundary {
        for _ in 0..ctx.rng.range(1, 10) {
            let c = gen::call(&mut ctx.rng);
            ensure(s.call(&c), || format!("valid call refused before connect: {}", c.brief()))?;
            exp.push(c);
        }
    }
    let ack = gen::ok_connack(&mut ctx.rng);
    s.handshake(&ack).await?;
    if boundary {
        let k = if ctx.idx <= 14 { (ctx.idx - 1) as usize } else { ctx.rng.below(14) };
        ctx.label = format!("boundary {}", k);
        let calls = boundary_calls(ctx, k);
        ctx.add("boundary_sizes", calls.len() as u64);
        for c in calls {
            ensure(s.call(&c), || format!("valid call refused: {}", c.brief()))?;
            exp.push(c);
            if ctx.rng.chance(1, 3) {
                s.settle().await?;
            }
        }
        s.expect("all accepted calls on the wire", |s| n_calls_on_wire(s) >= exp.len()).await?;
    } else {
        ctx.label = "random".into();
        let rounds = ctx.rng.range(1, 5);
        let mut answered = 0;
        for _ in 0..rounds {
            if ctx.rng.chance(1, 40) {
                s.pass_some(ctx).await?;
            }
            for _ in 0..ctx.rng.range(1, 8) {
                let c = gen::call(&mut ctx.rng);
                ensure(s.call(&c), || format!("valid call refused: {}", c.brief()))?;
                exp.push(c);
                if ctx.rng.chance(1, 4) {
                    let p = gen::s_packet(&mut ctx.rng);
                    s.send(&p);
                }
                if ctx.rng.chance(1, 5) {
                    s.turn().await?;
                }
            }
            s.expect("all accepted calls on the wire", |s| n_calls_on_wire(s) >= exp.len()).await?;
            // answer some of them
            let t = s.traffic();
            for p in &t[answered.min(t.len())..] {
                if ctx.rng.chance(2, 3) {
                    if let Some(a) = gen::answer(&mut ctx.rng, p) {
                        s.send(&a);
                    }
                }
            }
            answered = t.len();
        }
    }
    if ctx.rng.chance(1, 4) {
        s.settle().await?;
        ensure(s.call(&Call::Disconnect), || "disconnect refused".into())?;
        exp.push(Call::Disconnect);
        s.expect("the event loop to finish after disconnect", |s| s.outcome.is_some() && (s.srv_eof || s.srv_rst)).await?;
        ensure(matches!(s.wire.last().map(|x| &x.1), Some(CPkt::Disconnect { .. })), || "DISCONNECT is not the last packet".into())?;
    } else {
        s.fence(4242).await?;
    }
    compare(ctx, &s, &exp)?;
    s.finish(ctx);
    Ok(())
}

/// A packet of exactly the largest size MQTT can express.
async fn largest(ctx: &mut Ctx) -> R {
    ctx.label = "largest packet".into();
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    let qos = (ctx.idx % 2) as u8;
    let topic = "big".to_string();
    let n = MAX - remaining(&topic, qos, &[], 0);
    let seed = ctx.rng.bytes(1 << 20);
    let mut body = Vec::with_capacity(n);
    while body.len() < n {
        let k = seed.len().min(n - body.len());
        body.extend_from_slice(&seed[..k]);
    }
    let c = Call::Publish { topic, payload: Pay::Bytes(body), props: vec![], qos, set_qos: true };
    ensure(s.call(&c), || "a packet of the largest legal size was refused".into())?;
    s.expect("largest packet on the wire", |s| n_calls_on_wire(s) >= 1).await?;
    s.fence(9).await?;
    compare(ctx, &s, &[c])?;
    ctx.add("boundary_sizes", 1);
    s.finish(ctx);
    Ok(())
}

// ------------------------------------------------------------------------------ C02
fn oversize_text(ctx: &mut Ctx) -> String {
    let r = &mut ctx.rng;
    let n = match r.below(9) {
        0 | 1 => 65536,
        2 => 65537,
        3 => 65536 + r.below(64),
        4 => 131071,
        5 => 131072,
        6 => 131072 + r.below(100),
        7 => 196608 + r.below(10),
        _ => r.range(65536, 400_000),
    };
    match r.below(3) {
        // few characters, many bytes
        0 => {
            let mut s = "é".repeat(n / 2);
            if n % 2 == 1 {
                s.push('a');
            }
            s
        }
        1 => {
            let mut s = "😀".repeat(n / 4);
            while s.len() < n {
                s.push('a');
            }
            s
        }
        _ => gen::text_len(r, n),
    }
}

fn oversize_call(ctx: &mut Ctx) -> Call {
    let s = oversize_text(ctx);
    let r = &mut ctx.rng;
    let k = r.below(7);
    if k == 5 {
        return Call::Subscribe(s, r.below(3) as u8);
    }
    if k == 6 {
        return Call::Unsubscribe(s);
    }
    let mut topic = gen::topic(r);
    let mut props = gen::call_props(r, 4);
    match k {
        0 => topic = s,
        1 => {
            props.retain(|p| !matches!(p, Prop::RespTopic(_)));
            let at = r.below(props.len() + 1);
            props.insert(at, Prop::RespTopic(s));
        }
        2 => {
            props.retain(|p| !matches!(p, Prop::Corr(_)));
            let at = r.below(props.len() + 1);
            let n = s.len();
            props.insert(at, Prop::Corr(r.bytes(n)));
        }
        3 => {
            let at = r.below(props.len() + 1);
            props.insert(at, Prop::User(s, gen::text(r)));
        }
        _ => {
            let at = r.below(props.len() + 1);
            props.insert(at, Prop::User(gen::text(r), s));
        }
    }
    Call::Publish { topic, payload: gen::payload(r), props, qos: r.below(3) as u8, set_qos: true }
}

pub async fn c02(ctx: &mut Ctx) -> R {
    if ctx.idx < 4 {
        return over_total(ctx).await;
    }
    let mut s = Sess::new(ctx, Opts::default())?;
    let early = ctx.rng.chance(1, 4);
    if !early {
        s.handshake(&SPkt::ok_connack()).await?;
    }
    let mut exp = vec![];
    for i in 0..ctx.rng.range(2, 10) {
        if ctx.rng.chance(1, 2) || i == 0 {
            let c = oversize_call(ctx);
            ctx.add("oversize_calls", 1);
            ensure(!s.call(&c), || format!("a call MQTT cannot represent was accepted: {}", c.brief()))?;
        } else {
            // valid neighbours, often right at the limit
            let c = match ctx.rng.below(6) {
                0 => Call::Subscribe(gen::text_len(&mut ctx.rng, 65535), 1),
                1 => Call::Publish { topic: gen::text_len(&mut ctx.rng, 65535), payload: Pay::Text(gen::text_len(&mut ctx.rng, 70000)), props: vec![], qos: 1, set_qos: true },
                2 => Call::Publish { topic: "t".into(), payload: Pay::Bytes(vec![]), props: vec![Prop::User(gen::text_len(&mut ctx.rng, 65535), gen::text_len(&mut ctx.rng, 65535)), Prop::Corr(ctx.rng.bytes(65535))], qos: 0, set_qos: true },
                _ => gen::call(&mut ctx.rng),
            };
            ensure(s.call(&c), || format!("valid call refused: {}", c.brief()))?;
            exp.push(c);
        }
        if !early && ctx.rng.chance(1, 3) {
            s.settle().await?;
        }
    }
    if early {
        s.handshake(&SPkt::ok_connack()).await?;
    }
    s.expect("all accepted calls on the wire", |s| n_calls_on_wire(s) >= exp.len()).await?;
    s.fence(7).await?;
    compare(ctx, &s, &exp)?;
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}

async fn over_total(ctx: &mut Ctx) -> R {
    ctx.label = "oversize total".into();
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    let (qos, over, props) = match ctx.idx {
        0 => (0u8, 1usize, vec![]),
        1 => (1, 1, vec![]),
        2 => (1, 2, vec![Prop::User("k".into(), "v".repeat(200))]),
        _ => (2, 100_000, vec![Prop::Expiry(5)]),
    };
    let n = MAX + over - remaining("big", qos, &props, 0);
    let c = Call::Publish { topic: "big".into(), payload: if ctx.idx == 2 { Pay::Text("a".repeat(n)) } else { Pay::Bytes(vec![1; n]) }, props, qos, set_qos: true };
    ctx.add("oversize_calls", 1);
    ensure(!s.call(&c), || format!("a packet {} bytes over the protocol limit was accepted", over))?;
    drop(c);
    let c2 = gen::tagged("after", 1);
    ensure(s.call(&c2), || "valid call refused".into())?;
    s.expect("the next call on the wire", |s| n_calls_on_wire(s) >= 1).await?;
    s.fence(7).await?;
    compare(ctx, &s, &[c2])?;
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}
