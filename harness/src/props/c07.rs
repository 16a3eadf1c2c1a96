//! C07 (identifiers are unique and non-zero) and C08 (none is ever lost; exhaustion).
use super::*;
use crate::gen;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Pub1,
    Pub2,
    Sub,
    Unsub,
}
fn kind_of(p: &CPkt) -> Option<(u16, Kind)> {
    match p {
        CPkt::Publish { qos: 1, id, .. } => Some((*id, Kind::Pub1)),
        CPkt::Publish { qos: 2, id, .. } => Some((*id, Kind::Pub2)),
        CPkt::Subscribe { id, .. } => Some((*id, Kind::Sub)),
        CPkt::Unsubscribe { id, .. } => Some((*id, Kind::Unsub)),
        _ => None,
    }
}

/// Online monitor of identifiers in use, fed with packets in the order the server sees them
/// and with the acknowledgements in the order it sends them.
pub struct Ids {
    pub inuse: BTreeMap<u16, Kind>,
    /// identifiers in use, in the order they were taken
    pub order: Vec<u16>,
    pub seen: HashSet<u16>,
    pub next: usize,
    pub total: u64,
    pub reused: u64,
}
impl Ids {
    pub fn new() -> Self {
        Ids { inuse: BTreeMap::new(), order: vec![], seen: HashSet::new(), next: 0, total: 0, reused: 0 }
    }
    pub fn feed(&mut self, s: &Sess) -> R {
        while self.next < s.wire.len() {
            let p = &s.wire[self.next].1;
            self.next += 1;
            if let Some((id, k)) = kind_of(p) {
                ensure(id != 0, || format!("{} carries identifier 0", p.brief()))?;
                if let Some(o) = self.inuse.get(&id) {
                    return viol(format!("{} reuses identifier {} which is still held by an unanswered {:?} ({} identifiers in use)", p.brief(), id, o, self.inuse.len()));
                }
                self.inuse.insert(id, k);
                self.order.push(id);
                if !self.seen.insert(id) {
                    self.reused += 1;
                }
                self.total += 1;
            }
        }
        Ok(())
    }
    /// The acknowledgement releasing `id`; it must be in use.
    pub fn answer(&mut self, ctx: &mut Ctx, id: u16) -> SPkt {
        let k = self.inuse.remove(&id).expect("model: identifier in use");
        ctx.add("acks", 1);
        right_ack(ctx, k, id)
    }
    pub fn ackable(&self) -> Vec<u16> {
        let mut once = HashSet::new();
        self.order.iter().filter(|i| self.inuse.get(i).map_or(false, |k| *k != Kind::Pub2) && once.insert(**i)).cloned().collect()
    }
    pub fn compact(&mut self) {
        let m = &self.inuse;
        let mut once = HashSet::new();
        self.order.retain(|i| m.contains_key(i) && once.insert(*i));
    }
}
fn right_ack(ctx: &mut Ctx, k: Kind, id: u16) -> SPkt {
    let r = &mut ctx.rng;
    match k {
        Kind::Pub1 => gen::puback(r, Some(id)),
        Kind::Sub => SPkt::Suback { id, reason: r.pick(SUBACK_REASONS).0, props: gen::ack_props(r) },
        Kind::Unsub => SPkt::Unsuback { id, reason: r.pick(UNSUBACK_REASONS).0, props: gen::ack_props(r) },
        Kind::Pub2 => unreachable!(),
    }
}
fn ack_of_kind(ctx: &mut Ctx, k: usize, id: u16) -> SPkt {
    right_ack(ctx, [Kind::Pub1, Kind::Sub, Kind::Unsub][k], id)
}
fn request(ctx: &mut Ctx, n: u64, allow2: bool) -> Call {
    if ctx.rng.chance(1, 10) {
        return gen::request(&mut ctx.rng);
    }
    match ctx.rng.below(8) {
        0 | 1 => Call::Subscribe(format!("s{}", n), 1),
        2 | 3 => Call::Unsubscribe(format!("u{}", n)),
        4 if allow2 => gen::tagged(&format!("{}", n), 2),
        _ => gen::tagged(&format!("{}", n), 1),
    }
}

pub async fn c07(ctx: &mut Ctx) -> R {
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    let mut ids = Ids::new();
    let window = match ctx.idx % 8 {
        0..=4 => ctx.rng.range(1, 12),
        5 | 6 => ctx.rng.range(10, 90),
        _ => ctx.rng.range(100, 1000),
    };
    let steps = ctx.rng.range(5, 40);
    let strays = ctx.rng.chance(3, 4);
    let mut n = 0u64;
    let mut released: Vec<u16> = vec![];
    ctx.label = format!("window {}, strays {}", window, strays);
    for _ in 0..steps {
        if ctx.rng.chance(1, 200) {
            s.pass_some(ctx).await?;
        }
        match ctx.rng.below(10) {
            0..=3 => {
                let k = ctx.rng.range(1, window.min(80));
                let allow2 = ctx.rng.chance(1, 8) && n < 2000;
                let mut exp = n_calls(&s);
                for _ in 0..k {
                    if ids.inuse.len() >= window {
                        break;
                    }
                    let c = request(ctx, n, allow2);
                    ensure(s.call(&c), || "call refused".into())?;
                    n += 1;
                    exp += 1;
                    if ctx.rng.chance(1, 3) {
                        s.settle().await?;
                    }
                }
                s.expect("requests on the wire", |s| n_calls(s) >= exp).await?;
                ids.feed(&s)?;
            }
            4..=7 => {
                // right answers, in some order, while further requests are being made
                let mut v = ids.ackable();
                match ctx.rng.below(4) {
                    0 => {}
                    1 => v.reverse(),
                    2 => ctx.rng.shuffle(&mut v),
                    _ => {
                        v.sort();
                        let odd: Vec<u16> = v.iter().cloned().filter(|x| x % 2 == 1).collect();
                        let even: Vec<u16> = v.iter().cloned().filter(|x| x % 2 == 0).collect();
                        v = odd;
                        v.extend(even);
                    }
                }
                if v.is_empty() {
                    continue;
                }
                let k = if ctx.rng.chance(1, 3) { v.len() } else { ctx.rng.range(1, v.len()) };
                let busy = ctx.rng.chance(1, 3);
                let mut exp = n_calls(&s);
                for id in v.into_iter().take(k) {
                    let a = ids.answer(ctx, id);
                    released.push(id);
                    s.send(&a);
                    if busy && exp - n_calls(&s).min(exp) < 50 && ctx.rng.chance(1, 3) {
                        let c = request(ctx, n, false);
                        ensure(s.call(&c), || "call refused".into())?;
                        n += 1;
                        exp += 1;
                    }
                    if ctx.rng.chance(1, 6) {
                        s.turn().await?;
                        ids.feed(&s)?;
                    }
                }
                s.expect("requests on the wire", |s| n_calls(s) >= exp).await?;
                ids.feed(&s)?;
                if ctx.rng.chance(1, 2) {
                    s.fence(1).await?;
                }
                ids.compact();
            }
            _ if strays => {
                // stray acknowledgements are only unambiguous while no request is on its way
                s.fence(2).await?;
                s.settle().await?;
                ids.feed(&s)?;
                for _ in 0..ctx.rng.range(1, 6) {
                    let how = ctx.rng.below(4);
                    let p = match how {
                        0 if !released.is_empty() => {
                            // duplicate of an earlier acknowledgement
                            let id = *ctx.rng.pick(&released);
                            let k = ctx.rng.below(3);
                            match ids.inuse.get(&id) {
                                None => ack_of_kind(ctx, k, id),
                                Some(_) => continue,
                            }
                        }
                        1 if !ids.inuse.is_empty() => {
                            // wrong kind for the request that holds the identifier
                            let all: Vec<(u16, Kind)> = ids.inuse.iter().map(|(a, b)| (*a, *b)).collect();
                            let (id, k) = *ctx.rng.pick(&all);
                            let mut w = ctx.rng.below(3);
                            while [Kind::Pub1, Kind::Sub, Kind::Unsub][w] == k {
                                w = ctx.rng.below(3);
                            }
                            ack_of_kind(ctx, w, id)
                        }
                        _ => {
                            // never issued, or next to be issued
                            let id = if ctx.rng.chance(1, 2) { ids.seen.len() as u16 + 1 + ctx.rng.below(3) as u16 } else { gen::any_id(&mut ctx.rng) };
                            let k = ctx.rng.below(3);
                            if ids.inuse.contains_key(&id) {
                                continue;
                            }
                            ack_of_kind(ctx, k, id)
                        }
                    };
                    for _ in 0..ctx.rng.range(1, 3) {
                        s.send(&p);
                        ctx.add("stray_acks", 1);
                    }
                }
                s.fence(3).await?;
            }
            _ => {
                s.settle().await?;
            }
        }
        ensure(s.outcome.is_none(), || format!("the connection ended: {:?}", s.outcome))?;
    }
    // after everything: fresh requests must still get free identifiers
    let base = n_calls(&s);
    let k = ctx.rng.range(5, 60);
    for _ in 0..k {
        let c = request(ctx, n, false);
        n += 1;
        ensure(s.call(&c), || "call refused".into())?;
    }
    s.expect("requests on the wire", |s| n_calls(s) >= base + k).await?;
    ids.feed(&s)?;
    s.fence(4).await?;
    ids.feed(&s)?;
    ctx.add("ids_seen", ids.total);
    ctx.add("ids_reused", ids.reused);
    ctx.nontrivial = ids.reused > 0;
    s.finish(ctx);
    Ok(())
}

// ------------------------------------------------------------------------------ C08
const ALL: usize = 65535;

/// Issues requests until `want` identifiers are outstanding.
async fn fill(ctx: &mut Ctx, s: &mut Sess, ids: &mut Ids, want: usize, style: usize) -> R {
    while ids.inuse.len() < want {
        let k = (want - ids.inuse.len()).min(90);
        let base = n_calls(s);
        for i in 0..k {
            let c = match style {
                3 if ctx.rng.chance(1, 40) => gen::request(&mut ctx.rng),
                0 => gen::tagged("x", 1),
                1 => Call::Subscribe("s".into(), 0),
                2 => Call::Unsubscribe("u".into()),
                _ => match (i + ctx.rng.below(2)) % 3 {
                    0 => gen::tagged("x", 1),
                    1 => Call::Subscribe("s".into(), 0),
                    _ => Call::Unsubscribe("u".into()),
                },
            };
            ensure(s.call(&c), || "call refused although the queue has room".into())?;
        }
        let have = ids.inuse.len();
        if !s.until(|s| n_calls(s) >= base + k).await? {
            return viol(format!("requests are stuck with {} identifiers outstanding: {} of {} in the last batch reached the wire; {}", have, n_calls(s) - base, k, out(s)));
        }
        ids.feed(s)?;
        forget(s, ids);
    }
    Ok(())
}
fn out(s: &Sess) -> String {
    match &s.outcome {
        None => "event loop running".into(),
        Some(o) => format!("event loop ended {:?}", o),
    }
}
/// Drops fully processed records so that long histories stay cheap.
fn forget(s: &mut Sess, ids: &mut Ids) {
    if ids.next == s.wire.len() {
        s.wire.clear();
        ids.next = 0;
    }
    s.notifs.clear();
}
async fn drain_acks(s: &mut Sess) -> R {
    let mut k = 0;
    while !s.outq.is_empty() {
        s.turn().await?;
        k += 1;
        if k % 64 == 0 {
            s.notifs.clear();
        }
        if k > 10_000_000 {
            return viol("the client stopped reading".to_string());
        }
    }
    Ok(())
}
async fn release(ctx: &mut Ctx, s: &mut Sess, ids: &mut Ids, how: usize, k: usize) -> R {
    ids.compact();
    let mut v = ids.ackable();
    match how {
        0 => {}
        1 => v.reverse(),
        2 => ctx.rng.shuffle(&mut v),
        3 => {
            v.sort();
            let odd: Vec<u16> = v.iter().cloned().filter(|x| x % 2 == 1).collect();
            let even: Vec<u16> = v.iter().cloned().filter(|x| x % 2 == 0).collect();
            v = even;
            v.extend(odd);
        }
        _ => {
            // from both ends and the middle
            v.sort();
            let mut w = vec![];
            let (mut a, mut b) = (0usize, v.len());
            while a < b {
                w.push(v[a]);
                a += 1;
                if a < b {
                    b -= 1;
                    w.push(v[b]);
                }
            }
            v = w;
        }
    }
    let mut buf = vec![];
    for (i, id) in v.iter().take(k).enumerate() {
        buf.extend(minimal_ack(ids.inuse.remove(id).expect("in use"), *id));
        if i % 50 == 49 {
            s.send_bytes(std::mem::take(&mut buf));
            drain_acks(s).await?;
        }
    }
    ctx.add("acks", k.min(v.len()) as u64);
    if !buf.is_empty() {
        s.send_bytes(buf);
    }
    drain_acks(s).await?;
    ids.compact();
    s.fence(1).await?;
    ids.feed(s)?;
    forget(s, ids);
    Ok(())
}
fn minimal_ack(k: Kind, id: u16) -> Vec<u8> {
    match k {
        Kind::Pub1 => SPkt::puback(id).encode(),
        Kind::Sub => SPkt::Suback { id, reason: 0, props: vec![] }.encode(),
        Kind::Unsub => SPkt::Unsuback { id, reason: 0, props: vec![] }.encode(),
        Kind::Pub2 => unreachable!(),
    }
}

pub async fn c08(ctx: &mut Ctx) -> R {
    if ctx.idx % 4 == 2 {
        // anything at all, and then every identifier that is not in use can be had
        return super::soup::soup(ctx).await;
    }
    let mut s = Sess::connected(ctx, Opts::default()).await?;
    s.trace_cap(60);
    let mut ids = Ids::new();
    let style = ctx.rng.below(4);
    if ctx.rng.chance(1, 3) {
        // nobody listens to the notifications
        ctx.add("receivers_dropped", 1);
        s.settle().await?;
        s.drop_rx();
    }
    if ctx.idx % 8 == 7 {
        // many requests, each answered before the next batch: over 65,535 of them, then all at once
        ctx.label = format!("long sequential history, style {}", style);
        let mut total = 0usize;
        while total < ALL + 300 {
            let k = ctx.rng.range(1, 85);
            fill(ctx, &mut s, &mut ids, k, style).await?;
            total += k;
            let how = ctx.rng.below(5);
            release(ctx, &mut s, &mut ids, how, k).await?;
        }
        fill(ctx, &mut s, &mut ids, 500, style).await?;
        ctx.add("ids_seen", ids.total);
        ctx.nontrivial = true;
        s.finish(ctx);
        return Ok(());
    }
    // churn, then fill everything
    let how = (ctx.idx % 5) as usize;
    let rounds = ctx.rng.range(1, 4);
    ctx.label = format!("fill to exhaustion, style {}, release order {}, {} rounds", style, how, rounds);
    for _ in 0..ctx.rng.range(0, 6) {
        let n = ctx.rng.range(1, 3000);
        fill(ctx, &mut s, &mut ids, n, 3).await?;
        let (h, k) = (ctx.rng.below(5), ctx.rng.range(1, n));
        release(ctx, &mut s, &mut ids, h, k).await?;
    }
    for round in 0..rounds {
        fill(ctx, &mut s, &mut ids, ALL, style).await?;
        ensure(ids.inuse.len() == ALL && ids.seen.len() == ALL, || format!("{} distinct identifiers outstanding", ids.inuse.len()))?;
        ctx.add("exhaustions", 1);
        // more requests than identifiers: they wait
        let extra = ctx.rng.range(1, 60);
        let mut exp = vec![];
        for i in 0..extra {
            let c = match ctx.rng.below(3) {
                0 => gen::tagged(&format!("extra{}", i), 1),
                1 => Call::Subscribe(format!("extra{}", i), 1),
                _ => Call::Unsubscribe(format!("extra{}", i)),
            };
            ensure(s.call(&c), || "call refused although the queue has room".into())?;
            exp.push(c);
        }
        s.settle().await?;
        ids.feed(&s)?;
        ensure(s.outcome.is_none(), || format!("exhaustion ended the connection: {:?}", s.outcome))?;
        // the connection still works while exhausted, for any length of time
        if ctx.rng.chance(1, 3) {
            s.pass_some(ctx).await?;
        }
        s.fence(9).await?;
        s.settle().await?;
        ids.feed(&s)?;
        forget(&mut s, &mut ids);
        // one by one: every released identifier lets exactly one request out
        let mut done = 0;
        let order = ctx.rng.below(3);
        while done < extra {
            let k = ctx.rng.range(1, 3).min(extra - done);
            ids.compact();
            let v = ids.ackable();
            for i in 0..k {
                let id = match order {
                    0 => v[i],
                    1 => v[v.len() - 1 - i],
                    _ => v[(i * 31 + 7 * done) % v.len()],
                };
                let kind = ids.inuse.remove(&id);
                if let Some(kind) = kind {
                    s.send_bytes(minimal_ack(kind, id));
                    ctx.add("acks", 1);
                }
            }
            let free = ALL - ids.inuse.len();
            s.expect("a waiting request after an identifier was released", |s| n_calls(s) >= free).await?;
            s.settle().await?;
            let got = call_packets(&s);
            ensure(got.len() == free, || format!("{} requests went out after {} identifiers were released", got.len(), free))?;
            for p in &got {
                exp[done].matches(p).map_err(|e| Fail::Violation(format!("waiting request #{}: {}", done, e)))?;
                done += 1;
            }
            ids.feed(&s)?;
            forget(&mut s, &mut ids);
        }
        let k = if round + 1 == rounds && ctx.rng.chance(1, 2) { ALL } else { ctx.rng.range(1, if how == 2 { 12_000 } else { ALL }) };
        release(ctx, &mut s, &mut ids, how, k).await?;
        // odd sizes of free space
        let n = ctx.rng.range(ids.inuse.len(), ALL);
        fill(ctx, &mut s, &mut ids, n, 3).await?;
    }
    ctx.add("ids_seen", ids.total);
    ctx.nontrivial = true;
    s.finish(ctx);
    Ok(())
}
