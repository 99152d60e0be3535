//! Runs the workload of one property and collects what the monitors saw.
use crate::engine::{profile, Engine};
use crate::spec::Bad;
use crate::world::Stats;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Found {
    pub prop: String,
    pub kind: String,
    pub msg: String,
    pub replay: Value,
    pub times: u64,
}

#[derive(Default)]
pub struct Outcome {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub found: BTreeMap<String, Found>,
    pub other: BTreeMap<String, u64>,
    pub harness_errors: Vec<String>,
}
impl Outcome {
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_default() += n;
    }
    pub fn violation(&mut self, prop: &str, kind: &str, msg: String, replay: Value) {
        self.found
            .entry(kind.to_string())
            .or_insert(Found { prop: prop.into(), kind: kind.into(), msg, replay, times: 0 })
            .times += 1;
    }
    pub fn json(&self) -> Value {
        json!({
            "evaluations": self.evaluations,
            "nontrivial": self.nontrivial,
            "counters": self.counters,
            "samples": self.samples,
            "other": self.other,
            "harness_errors": self.harness_errors,
            "violations": self.found.values().map(|f| json!({"kind": f.kind, "msg": f.msg, "times": f.times, "replay": f.replay})).collect::<Vec<_>>(),
        })
    }
}

pub struct Beat(Mutex<std::fs::File>);
impl Beat {
    pub fn new(path: &str) -> Beat {
        Beat(Mutex::new(std::fs::OpenOptions::new().create(true).append(true).open(path).expect("heartbeat file")))
    }
    pub fn say(&self, s: String) {
        let _ = writeln!(self.0.lock().unwrap(), "{s}");
    }
}

/// How many worlds of each profile, in the quick tier.
pub fn plan(prop: &str) -> Vec<(&'static str, u64)> {
    let all = [("mixed", 30), ("registry", 10), ("hostile", 30), ("queue", 10), ("expiry", 10), ("session", 20), ("lifecycle", 10), ("callback", 10), ("scale-queues", 1), ("scale-oracles", 1), ("scale-requests", 3)];
    let focus: &[(&str, u64)] = match prop {
        "C05" => &[("registry", 900), ("hostile", 500)],
        "C06" => &[("registry", 900), ("lifecycle", 300)],
        "C07" => &[("lifecycle", 700), ("registry", 250), ("hostile", 150)],
        "C08" => &[("lifecycle", 450), ("registry", 350), ("session", 300)],
        "C09" => &[("lifecycle", 600), ("mixed", 300), ("session", 150)],
        "C10" => &[("mixed", 350), ("queue", 300), ("hostile", 300), ("callback", 100)],
        "C11" => &[("queue", 500), ("expiry", 300), ("mixed", 200)],
        "C12" => &[("callback", 900), ("mixed", 250)],
        "C13" => &[("mixed", 400), ("hostile", 500), ("callback", 200)],
        "C14" => &[("mixed", 300), ("expiry", 300), ("callback", 300), ("queue", 200)],
        "C15" => &[("mixed", 350), ("queue", 200), ("expiry", 250), ("lifecycle", 200)],
        "C16" => &[("expiry", 900), ("mixed", 200)],
        "C17" => &[("queue", 400), ("expiry", 200)],
        "C26" => &[("hostile", 60)],
        "C18" => &[("hostile", 150), ("queue", 100)],
        "C19" => &[("callback", 900), ("hostile", 300)],
        "C20" => &[("hostile", 900), ("registry", 200), ("session", 150)],
        "C21" => &[("session", 1000), ("mixed", 100)],
        "C23" => &[("mixed", 150), ("session", 150), ("lifecycle", 100), ("registry", 50)],
        "C22" => &[("session", 700), ("hostile", 400)],
        _ => return vec![],
    };
    let mut v: Vec<(&'static str, u64)> = vec![];
    for (n, k) in all {
        let f: u64 = focus.iter().filter(|(x, _)| *x == n).map(|(_, k)| *k).sum();
        v.push((n, k + f));
    }
    v
}

const OPS: usize = 150;

pub fn one_world(seed: u64, prof: &str, prop: &str, ops: usize, out: &mut Outcome, st: &mut Stats, verbose: bool) {
    let r = crate::svm::quiet(|| {
        let mut e = Engine::make(seed, profile(prof), prop == "C23");
        let mut hits: Vec<(usize, Bad, Vec<String>)> = vec![];
        let mut others: Vec<String> = vec![];
        let mut stop = false;
        for i in 0..=ops {
            if i == 1 && prof.starts_with("scale") {
                crate::attacks::scale(&mut e, prof);
            } else if i > 0 && (!prof.starts_with("scale") || i < 30) {
                e.op();
            }
            let bads: Vec<Bad> = e.w.bads.drain(..).collect();
            for b in bads {
                if b.props.iter().any(|p| *p == prop) {
                    let l = e.w.trace.iter().rev().take(14).rev().cloned().collect();
                    hits.push((i, b, l));
                    stop = true;
                } else {
                    others.push(format!("{:?} {}", b.props, b.kind));
                }
            }
            if stop {
                break;
            }
        }
        let tail: Vec<String> = if verbose { e.w.trace.clone() } else { e.w.trace.iter().rev().take(6).rev().cloned().collect() };
        let mut s = std::mem::take(&mut e.w.stats);
        s.worlds += 1;
        (hits, others, s, tail)
    });
    match r {
        Ok((hits, others, s, tail)) => {
            for (i, b, l) in hits {
                let replay = json!({"kind": "history", "seed": seed, "profile": prof, "ops": ops, "op": i, "last_transactions": l});
                out.violation(prop, &b.kind, format!("{} [world {seed} of profile {prof}, step {i}]", b.msg), replay);
            }
            for o in others {
                *out.other.entry(o).or_default() += 1;
            }
            st.merge(s);
            if out.samples.len() < 3 {
                out.samples.push(json!({"profile": prof, "seed": seed, "history_tail": tail.iter().map(|s| s.chars().take(400).collect::<String>()).collect::<Vec<_>>()}));
            }
            if verbose {
                for t in tail {
                    crate::util::say(&t);
                }
            }
        }
        Err(p) => out.harness_errors.push(format!("world {seed} of profile {prof}: {p}")),
    }
}

/// Run `work(i)` for i in 0..n on all cores, until the deadline.
pub fn parallel(n: u64, limit: Duration, beat: &Beat, work: impl Fn(u64, &mut Outcome, &mut Stats) + Sync) -> (Outcome, Stats) {
    let next = AtomicU64::new(0);
    let t0 = Instant::now();
    let total = Mutex::new((Outcome::default(), Stats::default()));
    let cores = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    std::thread::scope(|s| {
        for t in 0..cores {
            let (next, total, work) = (&next, &total, &work);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let (mut o, mut st) = (Outcome::default(), Stats::default());
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n || t0.elapsed() > limit {
                            break;
                        }
                        beat.say(format!("thread {t} item {i}"));
                        work(i, &mut o, &mut st);
                    }
                    let mut g = total.lock().unwrap();
                    g.1.merge(st);
                    let a = &mut g.0;
                    a.evaluations += o.evaluations;
                    a.nontrivial += o.nontrivial;
                    for (k, v) in o.counters {
                        *a.counters.entry(k).or_default() += v;
                    }
                    for (k, v) in o.other {
                        *a.other.entry(k).or_default() += v;
                    }
                    a.samples.extend(o.samples);
                    a.samples.truncate(4);
                    for (k, v) in o.found {
                        match a.found.get_mut(&k) {
                            Some(x) => x.times += v.times,
                            None => {
                                a.found.insert(k, v);
                            }
                        }
                    }
                    a.harness_errors.extend(o.harness_errors);
                    a.harness_errors.truncate(20);
                })
                .expect("thread");
        }
    });
    total.into_inner().unwrap()
}

pub fn histories(prop: &str, seed: u64, mult: u64, limit: Duration, beat: &Beat) -> Outcome {
    let mut items: Vec<(&'static str, u64)> = vec![];
    let p = plan(prop);
    let max = p.iter().map(|x| x.1).max().unwrap_or(0) * mult;
    // interleave the profiles so that a time limit cuts all of them alike
    for k in 0..max {
        for (name, n) in &p {
            let n = n * mult;
            if k * n / max != (k + 1) * n / max {
                items.push((name, k));
            }
        }
    }
    let (mut o, st) = parallel(items.len() as u64, limit, beat, |i, o, st| {
        let (prof, k) = items[i as usize];
        let h = prof.bytes().fold(7u64, |a, b| a.wrapping_mul(31).wrapping_add(b as u64));
        one_world(seed.wrapping_mul(1_000_003).wrapping_add(k).wrapping_add(h << 24), prof, prop, OPS, o, st, false);
    });
    o.evaluations += st.txs;
    o.nontrivial += st.states.len() as u64;
    o.add("worlds", st.worlds);
    o.add("transactions", st.txs);
    o.add("successful transactions", st.ok);
    o.add("instructions judged", st.vrf_calls);
    o.add("callbacks observed", st.callbacks);
    o.add("operations required to succeed", st.musts);
    o.add("requests fulfilled", st.consumed);
    o.add("requests purged", st.purged);
    o.add("delegation round trips", st.roundtrips);
    o.add("distinct states of queues and registry", st.states.len() as u64);
    for (k, v) in &st.accepted {
        o.add(&format!("accepted {k}"), *v);
    }
    for (k, v) in &st.rejected {
        o.add(&format!("required to be rejected: {k}"), *v);
    }
    for (k, v) in &st.extra {
        o.add(k, *v);
    }
    o
}

pub fn crypto(prop: &str, seed: u64, n: u64, per: u64, limit: Duration, beat: &Beat) -> Outcome {
    use crate::crypto::*;
    let (mut o, _) = parallel(n, limit, beat, |i, o, _| {
        let mut c = Cnt::new();
        let s = seed.wrapping_mul(7_368_787).wrapping_add(i);
        let r = crate::svm::quiet(|| match prop {
            "C01" => c01(s, per, &mut c),
            "C02" => c02(s, per, &mut c),
            "C03" => c03(s, per, &mut c),
            _ => c04(s, per, &mut c),
        });
        match r {
            Ok(v) => {
                for b in v {
                    if b.props.iter().any(|p| *p == prop) {
                        let replay = json!({"kind": "crypto", "seed": s, "n": per});
                        o.violation(prop, &b.kind, b.msg, replay);
                    }
                }
            }
            Err(p) => {
                // the prover or key derivation itself aborted
                if prop == "C01" {
                    o.violation(prop, "prover or verifier aborts", p, json!({"kind": "crypto", "seed": s, "n": per}));
                } else {
                    o.harness_errors.push(p);
                }
            }
        }
        for (k, v) in c {
            o.add(&k, v);
        }
    });
    o.evaluations = o.counters.iter().filter(|(k, _)| !k.starts_with("samples in")).map(|(_, v)| v).sum();
    o.nontrivial = o.evaluations;
    o
}

pub fn queues(prop: &str, seed: u64, n: u64, limit: Duration, beat: &Beat) -> Outcome {
    let (mut o, _) = parallel(n, limit, beat, |i, o, _| {
        let mut c = queuemon::Cnt::new();
        let s = seed.wrapping_mul(15_485_863).wrapping_add(i);
        let r = crate::svm::quiet(|| {
            let mut v = vec![];
            if prop == "C26" {
                return queuemon::codec::codecs(s, 300, &mut c);
            }
            if prop != "C18" {
                v.extend(queuemon::list(s, 30, 80, true, &mut c));
            }
            if prop != "C17" {
                v.extend(queuemon::hostile(s, 3000, true, &mut c));
            }
            v
        });
        match r {
            Ok(v) => {
                for p in v {
                    if p.prop == prop || (prop == "C33" && p.kind.contains("after the account")) {
                        o.violation(prop, &p.kind, p.msg, json!({"kind": "queue", "seed": s}));
                    }
                }
            }
            Err(p) => o.harness_errors.push(p),
        }
        for (k, v) in c {
            o.add(&k, v);
        }
    });
    let g = |k: &str| o.counters.get(k).copied().unwrap_or(0);
    if prop == "C26" {
        o.evaluations = g("instruction encodings compared") + g("account encodings compared") + g("malformed encodings offered");
        o.nontrivial = o.evaluations;
        return o;
    }
    o.evaluations = g("list comparisons") + g("corrupt queues with entries read") + g("corrupt queues without entries read");
    o.nontrivial = g("appends accepted") + g("removals") + g("corrupt queues with entries read");
    o
}

pub fn merge(a: &mut Outcome, b: Outcome) {
    a.evaluations += b.evaluations;
    a.nontrivial += b.nontrivial;
    for (k, v) in b.counters {
        *a.counters.entry(k).or_default() += v;
    }
    a.samples.extend(b.samples);
    for (k, v) in b.found {
        a.found.entry(k).or_insert(v);
    }
    for (k, v) in b.other {
        *a.other.entry(k).or_default() += v;
    }
    a.harness_errors.extend(b.harness_errors);
}
