mod alloc;
mod dbg;
mod engine;
mod gen;
mod logger;
mod props;
mod rng;
mod stress;
mod wire;

use engine::*;
use props::Plan;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

/// One poll (or one call) that burns this much CPU time never returns.
const POLL_CPU_NS: u64 = 20_000_000_000;
/// ... or that blocks its thread this long on the wall clock.
const POLL_WALL: Duration = Duration::from_secs(120);
const MEMORY: u64 = 22 << 30;

struct Res {
    verdict: R,
    stats: BTreeMap<&'static str, u64>,
    sig: u64,
    nontrivial: bool,
    trace: Vec<String>,
    label: String,
}

fn run_one(plan: &Plan, seed: u64, idx: u64, thorough: bool, slot: &Arc<Slot>) -> Res {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime");
    let mut ctx = Ctx::new(plan.id, seed, idx, thorough, slot.clone());
    // part of the runs are made as in an application that logs everything
    let before = logger::lines();
    logger::set(rng::mix(seed ^ rng::mix(idx)) % 3 == 0);
    let r = catch_unwind(AssertUnwindSafe(|| rt.block_on((plan.run)(&mut ctx))));
    logger::set(false);
    ctx.add("log_lines", logger::lines() - before);
    // a panic leaves this flag set if it came out of the crate
    let inside = slot.in_poll.swap(false, SeqCst);
    let verdict = match r {
        Ok(v) => v,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            if inside {
                viol(format!("a call panicked: {}", m))
            } else {
                Err(Fail::Inconclusive(format!("harness panic: {}", m)))
            }
        }
    };
    let trace: Vec<String> = ctx.trace.borrow().iter().cloned().collect();
    Res { verdict, stats: std::mem::take(&mut ctx.stats), sig: ctx.sig.get(), nontrivial: ctx.nontrivial, trace, label: ctx.label.clone() }
}

fn new_slot() -> Arc<Slot> {
    Arc::new(Slot { in_poll: AtomicBool::new(false), cpu_at_poll: AtomicU64::new(0), clock: AtomicU64::new(0), scenario: AtomicU64::new(0), entries: AtomicU64::new(0) })
}

fn write_replay(plan: &Plan, seed: u64, idx: u64, stress: bool, thorough: bool, detail: &str, trace: &[String]) -> String {
    let dir = std::env::var("RUQMON_REPLAYS").unwrap_or_else(|_| "/verif/replays".into());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{}/{}-{}-{}{}.json", dir, plan.id, seed, if stress { "stress" } else { "" }, idx);
    let v = json!({"property": plan.id, "profile": if cfg!(debug_assertions) { "debug" } else { "release" }, "seed": seed, "scenario": idx, "stress": stress, "thorough": thorough, "violation": detail, "trace": trace,
        "how": format!("/verif/check {} replay {}", plan.id, path)});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).ok();
    path
}

/// Findings listed as known: lines `known: property=<id> <text the violation contains>`.
fn known(id: &str) -> Vec<String> {
    let p = std::env::var("RUQMON_KNOWN").unwrap_or_else(|_| "/verif/known-findings.txt".into());
    let pre = format!("known: property={} ", id);
    std::fs::read_to_string(p).unwrap_or_default().lines().filter_map(|l| l.strip_prefix(&pre).map(|s| s.trim().to_string())).filter(|s| !s.is_empty()).collect()
}

fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096
}

struct Found {
    idx: u64,
    stress: bool,
    detail: String,
    trace: Vec<String>,
}

#[derive(Default)]
struct Acc {
    stats: BTreeMap<&'static str, u64>,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    found: Vec<Found>,
    known_hit: BTreeMap<String, u64>,
    unrepro: Vec<Found>,
    incon: Vec<String>,
}
impl Acc {
    fn merge(&mut self, k: &'static str, v: u64) {
        let e = self.stats.entry(k).or_insert(0);
        if k.starts_with("max_") {
            *e = (*e).max(v)
        } else {
            *e += v
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let plans = props::plans();
    let Some(plan) = args.get(1).and_then(|a| plans.into_iter().find(|p| p.id == a)) else {
        eprintln!("usage: ruqmon C01..C19 [replay FILE]");
        std::process::exit(2);
    };
    let plan: &'static Plan = Box::leak(Box::new(plan));
    logger::install();
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{}", i).replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
    // several hundred sockets at once are normal here
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur = l.rlim_max;
        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
    }
    let env = |k: &str, d: &str| std::env::var(k).ok().filter(|s| !s.is_empty()).unwrap_or_else(|| d.into());
    let thorough = env("VERIF_TIER", "quick") == "thorough";
    let seed: u64 = env("VERIF_SEED", "1").parse().unwrap_or(1);
    if args.get(2).map(|s| s.as_str()) == Some("replay") {
        std::process::exit(replay(plan, args.get(3).expect("replay FILE")));
    }
    let t0 = Instant::now();
    let count: u64 = env("RUQMON_COUNT", "").parse().unwrap_or(if thorough { plan.thorough } else { plan.quick });
    let budget: u64 = env("RUQMON_SECONDS", "").parse().unwrap_or(if thorough { 600 } else { 100 });
    let rounds = if thorough { plan.stress.1 } else { plan.stress.0 };
    let nthreads = env("RUQMON_THREADS", "8").parse::<usize>().unwrap_or(8);
    let deadline = t0 + Duration::from_secs(budget);
    // stress rounds get their own share at the end
    let cut = if rounds > 0 { t0 + Duration::from_secs(budget * 2 / 3) } else { deadline };
    let known = known(plan.id);

    let acc = Arc::new(Mutex::new(Acc::default()));
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let slots: Vec<Arc<Slot>> = (0..nthreads).map(|_| new_slot()).collect();
    watchdog(plan, seed, thorough, slots.clone());

    let mut joins = vec![];
    for slot in slots {
        let (acc, next, stop, known) = (acc.clone(), next.clone(), stop.clone(), known.clone());
        joins.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    slot.clock.store(my_clock() as u32 as u64, SeqCst);
                    MY_SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
                    loop {
                        if stop.load(SeqCst) || Instant::now() > cut {
                            return;
                        }
                        let idx = next.fetch_add(1, SeqCst);
                        if idx >= count {
                            return;
                        }
                        let at = Instant::now();
                        let mut r = run_one(plan, seed, idx, thorough, &slot);
                        if std::env::var("RUQMON_SLOW").is_ok() && at.elapsed() > Duration::from_secs(2) {
                            eprintln!("slow: scenario {} {:.1} s {:?}", idx, at.elapsed().as_secs_f64(), r.verdict);
                        }
                        // trouble with the machinery itself: try again
                        for _ in 0..3 {
                            if !matches!(r.verdict, Err(Fail::Inconclusive(_))) {
                                break;
                            }
                            r = run_one(plan, seed, idx, thorough, &slot);
                        }
                        // "nothing happened" is believed once it happened twice
                        let mut confirmed = true;
                        if let Err(Fail::Violation(m)) = &r.verdict {
                            if m.contains("it never happened") {
                                confirmed = false;
                                for _ in 0..4 {
                                    let again = run_one(plan, seed, idx, thorough, &slot);
                                    if matches!(again.verdict, Err(Fail::Violation(_))) {
                                        r = again;
                                        confirmed = true;
                                        break;
                                    }
                                }
                            }
                        }
                        let mut a = acc.lock().unwrap();
                        a.evals += 1;
                        for (k, v) in &r.stats {
                            a.merge(k, *v);
                        }
                        if r.nontrivial && a.distinct.insert(r.sig) && (a.samples.len() < 4 || (idx % 997 == 0 && a.samples.len() < 8)) {
                            let tail: Vec<&String> = r.trace.iter().take(14).collect();
                            a.samples.push(json!({"scenario": idx, "label": r.label, "first_events": tail, "events": r.trace.len()}));
                        }
                        match r.verdict {
                            Ok(()) => {}
                            Err(Fail::Inconclusive(m)) => a.incon.push(format!("scenario {}: {}", idx, m)),
                            Err(Fail::Violation(m)) => {
                                if let Some(k) = known.iter().find(|k| m.contains(k.as_str())) {
                                    *a.known_hit.entry(k.clone()).or_insert(0) += 1;
                                } else {
                                    let f = Found { idx, stress: false, detail: m, trace: r.trace };
                                    if confirmed {
                                        a.found.push(f);
                                        stop.store(true, SeqCst);
                                    } else {
                                        a.unrepro.push(f);
                                        if a.unrepro.len() >= 3 {
                                            stop.store(true, SeqCst);
                                        }
                                    }
                                }
                            }
                        }
                    }
                })
                .expect("thread"),
        );
    }
    for j in joins {
        j.join().ok();
    }
    if std::env::var("RUQMON_SLOW").is_ok() {
        eprintln!("scenarios done after {:.1} s", t0.elapsed().as_secs_f64());
    }
    // multi-threaded rounds, a few at a time
    let rn = Arc::new(AtomicU64::new(0));
    let mut joins = vec![];
    for _ in 0..if rounds > 0 { 3 } else { 0 } {
        let (acc, rn, stop, known) = (acc.clone(), rn.clone(), stop.clone(), known.clone());
        joins.push(std::thread::spawn(move || loop {
            if stop.load(SeqCst) || Instant::now() > deadline {
                return;
            }
            let idx = rn.fetch_add(1, SeqCst);
            if idx >= rounds {
                return;
            }
            let mut r = stress::round(plan.id, seed, idx);
            let mut confirmed = true;
            if matches!(&r.verdict, Err(Fail::Violation(m)) if m.contains("it never happened")) {
                confirmed = false;
                for _ in 0..2 {
                    let again = stress::round(plan.id, seed, idx);
                    if matches!(again.verdict, Err(Fail::Violation(_))) {
                        r = again;
                        confirmed = true;
                        break;
                    }
                }
            }
            let mut a = acc.lock().unwrap();
            a.evals += 1;
            a.merge("stress_rounds", 1);
            for (k, v) in r.stats {
                a.merge(k, v);
            }
            if r.verdict.is_ok() && a.distinct.insert(r.sig) && a.samples.len() < 10 {
                a.samples.push(json!(r.sample));
            }
            match r.verdict {
                Ok(()) => {}
                Err(Fail::Inconclusive(m)) => a.incon.push(format!("round {}: {}", idx, m)),
                Err(Fail::Violation(m)) => {
                    if let Some(k) = known.iter().find(|k| m.contains(k.as_str())) {
                        *a.known_hit.entry(k.clone()).or_insert(0) += 1;
                    } else {
                        let f = Found { idx, stress: true, detail: m, trace: vec![r.sample] };
                        if confirmed {
                            a.found.push(f);
                            stop.store(true, SeqCst);
                        } else {
                            a.unrepro.push(f);
                        }
                    }
                }
            }
        }));
    }
    for j in joins {
        j.join().ok();
    }

    let mut a = std::mem::take(&mut *acc.lock().unwrap());
    if a.unrepro.len() >= 3 {
        let u = std::mem::take(&mut a.unrepro);
        a.found.extend(u);
    }
    let mut counters = serde_json::Map::new();
    for (k, v) in &a.stats {
        counters.insert(k.to_string(), json!(v));
    }
    // what a run of the other build profile covered just before
    let earlier: Value = std::env::var("RUQMON_EARLIER").ok().and_then(|p| std::fs::read_to_string(p).ok()).and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
    let mut ev = json!({
        "property": plan.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a.evals, "distinct_nontrivial": a.distinct.len(), "rule": plan.rule, "samples": a.samples,
            "observed": counters, "inconclusive_scenarios": a.incon.len(), "unreproduced": a.unrepro.len(),
            "planned_scenarios": count, "planned_stress_rounds": rounds,
            "profile": if cfg!(debug_assertions) { "debug assertions and overflow checks on" } else { "release" },
        },
        "assumptions": [
            "loopback TCP delivers what was written; the kernel's queues are inspected before a missing event is called missing",
            "the independent packet model in harness/src/wire.rs states MQTT v5 correctly for the packets used"
        ],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": a.found.len(),
    });
    if !earlier.is_null() {
        ev["coverage"]["earlier_run"] = json!({"seed": earlier["seed"], "wall_s": earlier["wall_s"], "profile": earlier["coverage"]["profile"], "evaluations": earlier["coverage"]["evaluations"],
            "distinct_nontrivial": earlier["coverage"]["distinct_nontrivial"], "observed": earlier["coverage"]["observed"]});
    }
    let out = env("RUQMON_EVIDENCE", "/verif/evidence");
    std::fs::create_dir_all(&out).ok();
    let path = format!("{}/{}.json", out, plan.id);
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write {}: {}", path, e);
    }
    println!("{}: {} scenarios, {} distinct non-trivial, {:.1} s", plan.id, a.evals, a.distinct.len(), t0.elapsed().as_secs_f64());
    for (k, v) in &a.stats {
        print!(" {}={}", k, v);
    }
    println!();
    for (k, n) in &a.known_hit {
        println!("KNOWN-FINDING: property={} {} ({} times)", plan.id, k, n);
    }
    for f in &a.unrepro {
        println!("note: not reproduced: scenario {}: {}", f.idx, f.detail);
    }
    for m in a.incon.iter().take(5) {
        println!("note: inconclusive: {}", m);
    }
    if !a.found.is_empty() {
        for f in a.found.iter().take(5) {
            println!("scenario {}: {}", f.idx, f.detail);
            let p = write_replay(plan, seed, f.idx, f.stress, thorough, &f.detail, &f.trace);
            println!("VIOLATION property={} replay={}", plan.id, p);
        }
        std::process::exit(1);
    }
    if a.incon.len() as u64 * 50 > a.evals {
        println!("INCONCLUSIVE: {} of {} scenarios", a.incon.len(), a.evals);
        std::process::exit(2);
    }
    for k in plan.must_see {
        if a.stats.get(k).copied().unwrap_or(0) == 0 {
            println!("INCONCLUSIVE: nothing was observed for `{}`", k);
            std::process::exit(2);
        }
    }
    std::process::exit(0);
}

/// How many files this process may have open.
pub fn most_files() -> usize {
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut l);
        l.rlim_cur as usize
    }
}

fn watchdog(plan: &'static Plan, seed: u64, thorough: bool, slots: Vec<Arc<Slot>>) {
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, Instant)> = slots.iter().map(|_| (0, Instant::now())).collect();
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let mem = rss();
            for (i, s) in slots.iter().enumerate() {
                let e = s.entries.load(SeqCst);
                if e != seen[i].0 || !s.in_poll.load(SeqCst) {
                    seen[i] = (e, Instant::now());
                    continue;
                }
                let used = thread_cpu_ns(s.clock.load(SeqCst) as u32 as libc::clockid_t).saturating_sub(s.cpu_at_poll.load(SeqCst));
                if s.entries.load(SeqCst) != e || !s.in_poll.load(SeqCst) {
                    continue;
                }
                let long = used > POLL_CPU_NS || seen[i].1.elapsed() > POLL_WALL;
                let fat = mem > MEMORY && used > 1_500_000_000;
                if long || fat {
                    let idx = s.scenario.load(SeqCst);
                    let d = if fat && !long {
                        format!("one poll (or call) has used {:.1} s of CPU time and the process {} MB, without returning", used as f64 / 1e9, mem >> 20)
                    } else {
                        format!("one poll (or call) does not return: {:.1} s of CPU time, {:.0} s on the clock", used as f64 / 1e9, seen[i].1.elapsed().as_secs_f64())
                    };
                    println!("scenario {}: {}", idx, d);
                    let p = write_replay(plan, seed, idx, false, thorough, &d, &[]);
                    println!("VIOLATION property={} replay={}", plan.id, p);
                    std::process::exit(1);
                }
            }
            if mem > MEMORY + (4 << 30) {
                println!("INCONCLUSIVE: {} MB in use", mem >> 20);
                std::process::exit(2);
            }
        }
    });
}

fn replay(plan: &'static Plan, path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file");
    let (seed, idx) = (v["seed"].as_u64().unwrap_or(1), v["scenario"].as_u64().unwrap_or(0));
    let thorough = v["thorough"].as_bool().unwrap_or(false);
    let verdict = if v["stress"].as_bool() == Some(true) {
        let r = stress::round(plan.id, seed, idx);
        println!("{}", r.sample);
        r.verdict
    } else {
        let slot = new_slot();
        slot.clock.store(my_clock() as u32 as u64, SeqCst);
        MY_SLOT.with(|s| *s.borrow_mut() = Some(slot.clone()));
        watchdog(plan, seed, thorough, vec![slot.clone()]);
        let r = run_one(plan, seed, idx, thorough, &slot);
        for l in &r.trace {
            println!("{}", l);
        }
        r.verdict
    };
    match verdict {
        Ok(()) => {
            println!("replay: no violation");
            0
        }
        Err(Fail::Inconclusive(m)) => {
            println!("replay: inconclusive: {}", m);
            2
        }
        Err(Fail::Violation(m)) => {
            println!("replay: {}", m);
            println!("VIOLATION property={} replay={}", plan.id, path);
            1
        }
    }
}
