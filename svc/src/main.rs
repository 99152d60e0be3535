#![allow(dead_code)]
mod cli;
mod laser;
mod monitor;
mod node;
mod scenario;

use scenario::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        // scenario <seed> <style> <bin> <shim> <dir>
        Some("scenario") => {
            let seed: u64 = a[2].parse().unwrap();
            let style = STYLES.iter().find(|x| x.0 == a[3]).expect("style").1;
            let setup = Setup { bin: PathBuf::from(&a[4]), shim: PathBuf::from(&a[5]), dir: PathBuf::from(&a[6]), factor: a.get(7).and_then(|x| x.parse().ok()).unwrap_or(20) };
            std::fs::create_dir_all(&setup.dir).unwrap();
            let o = run(&setup, seed, style);
            let v = json!({
                "seed": seed, "style": a[3], "error": o.error, "requests": o.requests, "resolved": o.resolved, "counters": o.counters, "states": o.states,
                "found": o.found.iter().map(|f| json!({"props": f.props, "kind": f.kind, "msg": f.msg})).collect::<Vec<_>>(),
                "log": if o.found.is_empty() && std::env::var("SVC_LOG").is_err() { json!([]) } else { json!(o.log) },
            });
            std::fs::write(setup.dir.join("outcome.json"), v.to_string()).unwrap();
        }
        // run <prop> <seed> <tier> <out> <bindir> <shim> <scratch>
        Some("run") => many(&a[2], a[3].parse().unwrap(), &a[4], &a[5], PathBuf::from(&a[6]), PathBuf::from(&a[7]), PathBuf::from(&a[8])),
        Some("cli") => cli::main(&a[2..]),
        _ => eprintln!("usage: svcmon scenario|run|cli ..."),
    }
}

/// What was logged about the request in question and shortly before the violation.
fn excerpt(log: &serde_json::Value, msg: &str) -> Vec<serde_json::Value> {
    let Some(l) = log.as_array() else { return vec![] };
    let id = msg.split(|c: char| !c.is_ascii_hexdigit()).find(|w| w.len() == 8).unwrap_or("none");
    let at = l.iter().position(|x| x.as_str().is_some_and(|s| s.contains("VIOLATION") && s.contains(msg))).unwrap_or(l.len());
    l.iter().enumerate().filter(|(i, x)| *i <= at + 3 && (*i + 150 > at || x.as_str().is_some_and(|s| s.contains(id)))).map(|(_, x)| x.clone()).collect()
}

fn plan(prop: &str, tier: &str) -> (Vec<&'static str>, usize) {
    let deep = tier == "thorough";
    let (s, n): (Vec<&'static str>, usize) = match prop {
        "C27" => (vec!["storm", "restart", "outage", "long-fail", "fork", "storm", "start-outage", "expiry", "long-fail", "idle"], 48),
        "C28" => (vec!["busy", "storm", "restart", "busy", "bad-data", "calm", "expiry", "busy", "calm", "long-fail", "long-fail"], 55),
        "C29" => (vec!["boundary", "expiry", "boundary", "idle", "storm", "boundary", "expiry", "idle", "boundary", "long-fail"], 48),
        "C30" => (vec!["bad-data", "start-outage", "outage", "bad-data", "storm", "start-outage", "restart", "outage"], 40),
        "C36" => (vec!["churn"], 18),
        "C35" => (vec!["prompt"], 18),
        _ => (vec!["stats"], 30),
    };
    (s, if deep { n * 16 } else { n })
}

fn many(prop: &str, seed: u64, tier: &str, out: &str, bins: PathBuf, shim: PathBuf, scratch: PathBuf) {
    let me = std::env::current_exe().unwrap();
    let (styles, n) = plan(prop, tier);
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<serde_json::Value>> = Mutex::new(vec![]);
    let beat = Mutex::new(std::fs::File::create(format!("{out}.beat")).unwrap());
    let salt: u64 = prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    std::thread::scope(|sc| {
        for w in 0..6 {
            let (next, res, beat, me, styles, bins, shim, scratch) = (&next, &res, &beat, &me, &styles, &bins, &shim, &scratch);
            sc.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    return;
                }
                let style = styles[i % styles.len()];
                let s = seed.wrapping_mul(1_000_003).wrapping_add(salt * 1000 + i as u64) & 0xffff_ffff_ffff;
                let dir = scratch.join(format!("w{w}-{i}"));
                let _ = writeln!(beat.lock().unwrap(), "{prop} {style} {s}");
                let mut v = serde_json::Value::Null;
                for _ in 0..3 {
                    let _ = std::fs::remove_dir_all(&dir);
                    std::fs::create_dir_all(&dir).unwrap();
                    let st = std::process::Command::new(me).args(["scenario", &s.to_string(), style]).arg(bins.join("vrf-oracle")).arg(shim).arg(&dir).stdout(std::process::Stdio::null()).stderr(std::fs::File::create(dir.join("harness-err")).unwrap()).status();
                    v = std::fs::read_to_string(dir.join("outcome.json")).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or_else(|| {
                        let e = std::fs::read_to_string(dir.join("harness-err")).unwrap_or_default();
                        json!({"error": format!("scenario process: {st:?} {e}"), "found": [], "counters": {}, "seed": s, "style": style})
                    });
                    if v["error"].is_null() {
                        break;
                    }
                }
                let _ = std::fs::remove_dir_all(&dir);
                res.lock().unwrap().push(v);
                let _ = writeln!(beat.lock().unwrap(), "done {style} {s}");
            });
        }
    });
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut viol, mut other, mut errs, mut samples) = (vec![], BTreeMap::<String, u64>::new(), vec![], vec![]);
    let (mut evals, mut distinct) = (0u64, 0u64);
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|x| x["seed"].as_u64());
    for r in v {
        if let Some(e) = r["error"].as_str() {
            errs.push(json!(format!("{} {}: {e}", r["style"], r["seed"])));
            continue;
        }
        *counters.entry(format!("scenarios: {}", r["style"].as_str().unwrap())).or_default() += 1;
        for (k, x) in r["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_default() += x.as_u64().unwrap();
        }
        distinct += r["states"].as_u64().unwrap_or(0);
        if samples.len() < 3 {
            samples.push(json!({"style": r["style"], "seed": r["seed"], "counters": r["counters"]}));
        }
        for f in r["found"].as_array().unwrap() {
            if f["props"].as_array().unwrap().iter().any(|p| p == prop) {
                if viol.len() < 10 {
                    viol.push(json!({"kind": f["kind"], "msg": f["msg"], "replay": {"kind": "scenario", "seed": r["seed"], "style": r["style"], "log": excerpt(&r["log"], f["msg"].as_str().unwrap_or(""))}}));
                }
            } else {
                *other.entry(format!("{}: {}", f["props"], f["kind"])).or_default() += 1;
            }
        }
    }
    for k in ["transactions received", "statistics replies compared", "not-found replies", "scans served"] {
        evals += counters.get(k).copied().unwrap_or(0);
    }
    let v = json!({"evaluations": evals, "nontrivial": distinct, "counters": counters, "samples": samples, "other": other, "harness_errors": errs, "violations": viol});
    std::fs::write(out, v.to_string()).unwrap();
}
