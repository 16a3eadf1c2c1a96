//! Sessions longer than any 16-bit counter: more than 65,536 packets of a kind over one connection,
//! compared round by round, and a normal end afterwards.
use super::*;
use crate::gen;
use crate::wire::*;

const MORE: u64 = 66_000;

pub async fn marathon(ctx: &mut Ctx) -> R {
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    s.trace_cap(30);
    s.settle().await?;
    s.wire.clear();
    s.notifs.clear();
    let (calls, packets, pings) = match ctx.prop {
        "C10" | "C01" => (true, false, false),
        "C13" => (false, false, true),
        "C14" => (true, true, false),
        _ => (false, true, false),
    };
    // of each kind: QoS 0, QoS 1, SUBSCRIBE, UNSUBSCRIBE; QoS 0, QoS 1, SUBACK, UNSUBACK, PUBACK
    let mut made = [0u64; 4];
    let mut got = [0u64; 5];
    // what C14 wants is only a long session
    let enough = if ctx.prop == "C14" { MORE / 4 } else { MORE };
    let mut round = 0u64;
    loop {
        let more_calls = calls && made.iter().any(|n| *n < enough);
        let more_packets = packets && got.iter().any(|n| *n < enough);
        if !more_calls && !more_packets {
            break;
        }
        let mut exp = vec![];
        if more_calls {
            for _ in 0..95 {
                let k = round as usize % 4;
                made[k] += 1;
                let n = made[k];
                let c = match k {
                    0 | 1 => Call::Publish { topic: format!("t{}", n), payload: Pay::Bytes(n.to_be_bytes().to_vec()), props: vec![], qos: k as u8, set_qos: true },
                    2 => Call::Subscribe(format!("s{}", n), (n % 3) as u8),
                    _ => Call::Unsubscribe(format!("u{}", n)),
                };
                ensure(s.call(&c), || format!("{} refused with fewer than 100 calls waiting", c.brief()))?;
                exp.push(c);
            }
        }
        let mut sent = vec![];
        if more_packets {
            for i in 0..400u64 {
                let k = ((round + i) % 5) as usize;
                got[k] += 1;
                let n = got[k];
                let id = (n % 65_535 + 1) as u16;
                let p = match k {
                    0 | 1 => SPkt::Publish(SPublish { dup: n % 7 == 0, qos: k as u8, retain: n % 3 == 0, topic: format!("in{}", n), id: if k == 1 { id } else { 0 }, props: vec![], payload: n.to_be_bytes().to_vec() }),
                    2 => SPkt::Suback { id, reason: (n % 3) as u8, props: vec![] },
                    3 => SPkt::Unsuback { id, reason: 0, props: vec![] },
                    _ => SPkt::puback(id),
                };
                s.send(&p);
                sent.push(p);
            }
        }
        let (n, m) = (exp.len(), qos1_ids(&sent).len());
        let k = n_notifying(&sent);
        s.expect(&format!("{} call packets, {} PUBACKs and {} notifications in round {} of a long session", n, m, k, round), |s| {
            n_calls(s) >= n && s.pubacks() >= m && s.notifs.len() >= k
        }).await?;
        s.settle().await?;
        same_calls(&s, &exp)?;
        same_pubacks(&s, &sent)?;
        same_notifs(ctx, &s.notifs, &sent)?;
        let t = call_packets(&s);
        s.wire.clear();
        s.notifs.clear();
        let mut answers = 0;
        for p in &t {
            let a = match p {
                CPkt::Publish { qos: 1, id, .. } => SPkt::puback(*id),
                CPkt::Subscribe { id, .. } => SPkt::Suback { id: *id, reason: 0, props: vec![] },
                CPkt::Unsubscribe { id, .. } => SPkt::Unsuback { id: *id, reason: 0, props: vec![] },
                _ => continue,
            };
            answers += n_notifying(std::slice::from_ref(&a));
            s.send(&a);
        }
        s.expect("the answers' notifications", |s| s.notifs.len() >= answers).await?;
        s.settle().await?;
        s.notifs.clear();
        ensure(s.outcome.is_none(), || format!("the event loop ended {:?} in round {} of a long session", s.outcome, round))?;
        round += 1;
    }
    if pings {
        // thorough: longer than 2^32 ms
        let n = if ctx.thorough { 545_000 } else { MORE };
        for _ in 0..n / 100 {
            let before = s.pings;
            s.pass(8000 * 100).await?;
            ensure(s.outcome.is_none(), || format!("the event loop ended {:?} after {} answered pings", s.outcome, s.pings))?;
            ensure(s.pings >= before + 99 && s.pings <= before + 101, || format!("{} pings in 100 keep-alive intervals after {} pings", s.pings - before, before))?;
            s.wire.clear();
        }
        ctx.add("long_session_pings", s.pings);
    }
    // still in order, and ends as usual
    let c = gen::tagged("last", 1);
    ensure(s.call(&c), || "a call is refused after a long session".into())?;
    s.fence(1).await?;
    s.settle().await?;
    same_calls(&s, &[c])?;
    ensure(s.call(&Call::Disconnect), || "disconnect is refused after a long session".into())?;
    s.expect("the event loop to end", |s| s.outcome.is_some()).await?;
    ensure(matches!(s.outcome, Some(Outcome::Ok)), || format!("ended {:?} after disconnect", s.outcome))?;
    ctx.add("long_session_packets", made.iter().sum::<u64>() + got.iter().sum::<u64>());
    s.finish(ctx);
    Ok(())
}
