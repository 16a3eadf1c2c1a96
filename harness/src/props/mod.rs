use crate::engine::*;
use std::future::Future;
use std::pin::Pin;

mod c01;
mod c03;
mod c05;
mod c07;
mod c10;
mod c12;
mod c14;
mod c15;
mod c17;
mod c18;
mod c19;
mod marathon;
mod soup;

pub type Fut<'a> = Pin<Box<dyn Future<Output = R> + 'a>>;
pub type Scenario = for<'a> fn(&'a mut Ctx) -> Fut<'a>;

pub struct Plan {
    pub id: &'static str,
    pub run: Scenario,
    /// scenarios in the quick tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    /// counters that must be non-zero, or the run observed nothing
    pub must_see: &'static [&'static str],
    /// process-level multi-threaded rounds (quick, thorough), run after the scenarios
    pub stress: (u64, u64),
}

macro_rules! plan {
    ($id:literal, $f:path, $q:expr, $t:expr, $st:expr, $must:expr, $rule:expr) => {{
        fn go<'a>(c: &'a mut Ctx) -> Fut<'a> {
            if WALKERS.contains(&c.prop) && c.idx >= 300 && c.idx % 7 == 3 {
                return Box::pin(soup::soup(c));
            }
            Box::pin($f(c))
        }
        Plan { id: $id, run: go, quick: $q, thorough: $t, stress: $st, must_see: $must, rule: $rule }
    }};
}

/// Properties some of whose scenarios are random walks through everything.
const WALKERS: &[&str] = &["C01", "C03", "C05", "C06", "C07", "C09", "C10", "C11", "C13", "C14"];

pub fn plans() -> Vec<Plan> {
    vec![
        plan!("C01", c01::c01, 18000, 400_000, (0, 0), &["calls_checked", "client_packets", "boundary_sizes"],
            "a scenario is one session: random or boundary-size API calls before and after the handshake, mixed with server traffic; every packet the server receives is decoded by an independent strict decoder and compared with the call it stems from; non-trivial: at least one call was compared with its packet"),
        plan!("C02", c01::c02, 6000, 40_000, (0, 0), &["oversize_calls", "calls_checked"],
            "a scenario is one session mixing valid calls with calls that have one oversized field (or an oversized total); non-trivial: at least one oversized call was made and the wire was compared afterwards"),
        plan!("C03", c03::c03, 30000, 500_000, (0, 0), &["server_packets", "notifications_checked", "reason_codes"],
            "a scenario is one session receiving well-formed packets (random, every reason code, boundary sizes); every notification is parsed and compared with the packet the server sent; non-trivial: at least one packet was sent and a final fence answered"),
        plan!("C04", c03::c04, 2500, 150_000, (0, 0), &["server_packets", "cuts", "stepwise_checks"],
            "a scenario delivers one packet sequence under several segmentations (all single cuts for short ones) and compares notifications, replies and outcome with the model each time; non-trivial: at least two different segmentations were compared"),
        plan!("C05", c05::c05, 80000, 800_000, (0, 0), &["hostile_streams", "ended_err", "ended_ok", "exhaustive_packets"],
            "a scenario is one or more sessions fed hostile bytes (mutated, random, exhaustive short packets), cut by close or reset; non-trivial: the event loop consumed damaged bytes and reached an end"),
        plan!("C06", c05::c06, 40000, 800_000, (0, 0), &["bad_packets", "ended_err", "kinds"],
            "a scenario is one session: valid prefix, one packet with a known violation, valid suffix; non-trivial: the event loop was shown the bad packet"),
        plan!("C07", c07::c07, 16000, 120_000, (0, 0), &["ids_seen", "acks", "stray_acks"],
            "a scenario is a history of requests, acknowledgements in varied orders and stray acknowledgements, with an online monitor of identifiers in use; non-trivial: an identifier was seen again after release"),
        plan!("C08", c07::c08, 32, 800, (0, 0), &["ids_seen", "acks", "exhaustions"],
            "a scenario is a history of requests and acknowledgements followed by filling the identifier space, exhaustion, release and refill; non-trivial: all 65,535 identifiers were outstanding at some point, or more than 65,535 requests were made"),
        plan!("C09", c03::c09, 20000, 300_000, (0, 0), &["qos1_received", "client_packets"],
            "a scenario is one session receiving QoS 0/1 messages and other packets amid client calls; the PUBACK sequence is compared with the QoS 1 sequence; non-trivial: at least one QoS 1 message was acknowledged"),
        plan!("C10", c10::c10, 1000, 40_000, (24, 600), &["accepted", "refused", "client_packets", "stalls", "threads_run"],
            "a scenario is one session with stalled reads, full queues and many handles; plus multi-threaded rounds whose call/return history is checked offline (exactly once, real-time order); non-trivial: calls were accepted and their packets compared"),
        plan!("C11", c10::c11, 4000, 80_000, (16, 400), &["notifications", "queue_full", "receiver_dropped", "threads_run"],
            "a scenario is one session with an irregular consumer; plus multi-threaded rounds with a slow consumer thread; non-trivial: more notifications were pending than consumed at some point"),
        plan!("C12", c12::c12, 60000, 400_000, (0, 0), &["connects", "refusals", "early_calls", "eof_before_connack"],
            "a scenario is one handshake: early calls, a first answer of some kind (good, refusing, wrong, malformed, cut), segmented and timed at random; non-trivial: CONNECT was seen and the outcome compared"),
        plan!("C13", c12::c13, 3000, 200_000, (0, 0), &["pingreqs", "timeouts", "intervals", "late_polls", "slow_consumers", "window_closed", "floods", "torrents", "server_pauses", "starved", "blocked_writes", "slow_servers", "exhaustions"],
            "a scenario is one session over many keep-alive intervals of virtual time with random traffic and a PINGRESP policy; non-trivial: at least one PINGREQ was seen"),
        plan!("C14", c14::c14, 50000, 300_000, (0, 0), &["ended_ok", "ended_err", "drops", "late_calls", "alone", "exhaustions"],
            "a scenario is one session brought to one kind of end at one point (including dropping the event loop after its n-th turn, n enumerated); non-trivial: the end was reached and its aftermath checked"),
        plan!("C15", c15::c15, 3000, 60_000, (0, 0), &["idle_windows", "handles_dropped", "pingreqs"],
            "a scenario puts a session in one idle state and counts wake-ups and polls over an observation window; non-trivial: the window was observed"),
        plan!("C16", c15::c16, 112, 2000, (0, 0), &["cycles", "measurements", "sessions_come_and_gone"],
            "a scenario measures live heap bytes of one session after a warm-up and again after many more answered requests and consumed notifications; non-trivial: both measurements were taken"),
        plan!("C17", c17::c17, 9000, 200_000, (16, 400), &["unasked_polls", "dead_wakers_woken", "max_polls_on_changing_threads", "client_packets", "notifications"],
            "a scenario is a scenario of another property whose event loop gets a new waker at every poll (the earlier ones are dead) and, in half of them, polls it never asked for; plus multi-threaded rounds in which every poll happens on another thread; non-trivial: the other property's scenario was"),
        plan!("C18", c18::c18, 5000, 150_000, (0, 0), &["sessions", "crowds", "crowds_in_trouble", "silent_neighbours_timed_out", "pings_answered", "max_sessions_at_once", "hostile_neighbours", "stalled_neighbours", "notifications_checked", "calls_checked"],
            "a scenario is several sessions of different roles in one thread, whose polls and pieces of traffic alternate at random, each compared with its own model; non-trivial: at least two sessions were open at once"),
        plan!("C19", c19::c19, 20000, 100_000, (0, 0), &["connections", "refused_addresses", "address_forms", "unstarted"],
            "a scenario creates a client with some form of address and watches every listener involved until after its end; non-trivial: the connections were counted"),
    ]
}

// ---------------------------------------------------------------- shared oracles
use crate::gen;
use crate::dbg::{match_notif, notifies, Notif};
use crate::wire::*;

/// The notifications must be exactly those of `sent`, in order, nothing else.
pub fn same_notifs(ctx: &mut Ctx, got: &[Notif], sent: &[SPkt]) -> R {
    let want: Vec<&SPkt> = sent.iter().filter(|p| notifies(p)).collect();
    for (i, p) in want.iter().enumerate() {
        match got.get(i) {
            None => return viol(format!("notification #{} is missing: the server sent {} and the application got {} of {} notifications", i, clip(&format!("{:?}", p)), got.len(), want.len())),
            Some(n) => match_notif(n, p).map_err(|e| Fail::Violation(format!("notification #{}: {}; packet was {:?}", i, e, head(p))))?,
        }
        ctx.add("notifications_checked", 1);
    }
    ensure(got.len() == want.len(), || format!("{} notifications for {} notifying packets; first extra: {} {}", got.len(), want.len(), got[want.len()].kind, clip(&got[want.len()].text)))
}
fn head(p: &SPkt) -> String {
    let s = format!("{:?}", p);
    s.chars().take(300).collect()
}
pub fn n_notifying(sent: &[SPkt]) -> usize {
    sent.iter().filter(|p| notifies(p)).count()
}
/// Waits until every packet in `sent` has been notified, then compares.
pub async fn notified(ctx: &mut Ctx, s: &mut Sess, sent: &[SPkt]) -> R {
    let n = n_notifying(sent);
    s.expect(&format!("{} notifications", n), |s| s.notifs.len() >= n).await?;
    s.settle().await?;
    same_notifs(ctx, &s.notifs, sent)
}
pub fn qos1_ids(sent: &[SPkt]) -> Vec<u16> {
    sent.iter().filter_map(|p| match p { SPkt::Publish(x) if x.qos == 1 => Some(x.id), _ => None }).collect()
}
pub fn same_pubacks(s: &Sess, sent: &[SPkt]) -> R {
    let want = qos1_ids(sent);
    let mut k = 0;
    for (_, p) in &s.wire {
        if let CPkt::Puback { id, reason } = p {
            match want.get(k) {
                None => return viol(format!("PUBACK id={} was sent but only {} QoS 1 messages were received", id, want.len())),
                Some(w) if w != id => return viol(format!("PUBACK #{} has identifier {}, the QoS 1 message #{} had {}", k, id, k, w)),
                _ => {}
            }
            ensure(*reason == 0, || format!("PUBACK id={} carries reason {}", id, reason))?;
            k += 1;
        }
    }
    ensure(k == want.len(), || format!("{} PUBACKs for {} QoS 1 messages; first unacknowledged: id={}", k, want.len(), want[k]))
}
/// Packets that stem from API calls, in order.
pub fn call_packets(s: &Sess) -> Vec<CPkt> {
    s.wire.iter().map(|x| &x.1).filter(|p| !matches!(p, CPkt::Connect { .. } | CPkt::Pingreq | CPkt::Puback { .. })).cloned().collect()
}
pub fn n_calls(s: &Sess) -> usize {
    s.wire.iter().filter(|x| !matches!(x.1, CPkt::Connect { .. } | CPkt::Pingreq | CPkt::Puback { .. })).count()
}
/// The wire must show exactly these calls in this order.
pub fn same_calls(s: &Sess, exp: &[Call]) -> R {
    let got = call_packets(s);
    for (i, c) in exp.iter().enumerate() {
        match got.get(i) {
            None => return viol(format!("call #{} `{}` was accepted but never sent ({} of {} packets arrived)", i, c.brief(), got.len(), exp.len())),
            Some(p) => c.matches(p).map_err(|e| Fail::Violation(format!("packet #{}: {}", i, e)))?,
        }
    }
    ensure(got.len() == exp.len(), || format!("{} packets for {} accepted calls; first extra: {}", got.len(), exp.len(), got[exp.len()].brief()))
}

/// Makes requests until `used` plus these are 65,535; none of them is answered.
pub async fn hoard(ctx: &mut Ctx, s: &mut Sess, used: usize, calls: &mut Vec<Call>) -> R {
    s.trace_cap(60);
    let mut m = used;
    while m < 65535 {
        let base = n_calls(s);
        let k = (65535 - m).min(90);
        for i in 0..k {
            let c = match (m + i) % 50 {
                0 => gen::tagged("h", 1),
                1 => Call::Unsubscribe("h".into()),
                _ => Call::Subscribe("h".into(), 0),
            };
            ensure(s.call(&c), || "call refused".into())?;
            calls.push(c);
        }
        s.expect("requests on the wire", |s| s.wire.len() >= base + k && n_calls(s) >= base + k).await?;
        m += k;
    }
    ctx.add("exhaustions", 1);
    Ok(())
}
