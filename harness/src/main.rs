//! vrfmon run <property> <seed> <quick|thorough> <result file>
//! vrfmon replay <property> <seed> <profile> <ops>
//! The result file is JSON; `check.py` turns it into verdict and evidence.
use std::time::Duration;
use vrfmon::run::*;

fn main() {
    vrfmon::util::take_stdout();
    vrfmon::svm::init();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let (prop, seed, tier, out) = (a[2].as_str(), a[3].parse::<u64>().unwrap(), a[4].as_str(), &a[5]);
            let beat = Beat::new(&format!("{out}.beat"));
            let o = run(prop, seed, tier == "thorough", &beat);
            std::fs::write(out, serde_json::to_string(&o.json()).unwrap()).unwrap();
        }
        Some("free") => {
            let (prop, seed, tier, out) = (a[2].as_str(), a[3].parse::<u64>().unwrap(), a[4].as_str(), &a[5]);
            let beat = Beat::new(&format!("{out}.beat"));
            assert!(vrfmon::world::free_variant(), "not the build for the fee-free queue");
            let (mult, limit) = if tier == "thorough" { (6, Duration::from_secs(150)) } else { (1, Duration::from_secs(90)) };
            let o = histories(prop, seed ^ 0x5f5f, mult, limit, &beat);
            std::fs::write(out, serde_json::to_string(&o.json()).unwrap()).unwrap();
        }
        // the address that stands in for the fee-free queue's
        Some("free-queue") => vrfmon::util::say(&vrfmon::layout::queue_key(&solana_sdk::signature::Signer::pubkey(&vrfmon::world::free_oracle()), 0).to_string()),
        Some("replay") => {
            let (mut o, mut st) = (Outcome::default(), vrfmon::world::Stats::default());
            one_world(a[3].parse().unwrap(), &a[4], &a[2], a[5].parse().unwrap(), &mut o, &mut st, true);
            vrfmon::util::say(&serde_json::to_string_pretty(&o.json()["violations"]).unwrap());
        }
        _ => vrfmon::util::say("usage: vrfmon run <property> <seed> <tier> <result file>"),
    }
}

fn probes() -> String {
    std::env::var("VRF_PROBES").expect("VRF_PROBES")
}

fn run(prop: &str, seed: u64, thorough: bool, beat: &Beat) -> Outcome {
    let (mult, limit) = if thorough { (40, Duration::from_secs(600)) } else { (3, Duration::from_secs(240)) };
    match prop {
        "C01" => crypto(prop, seed, 64 * mult, 60, limit, beat),
        "C02" => crypto(prop, seed, 64 * mult, 6, limit, beat),
        "C03" => crypto(prop, seed, 64 * mult, 4, limit, beat),
        "C04" => crypto(prop, seed, 32 * mult, 40, limit, beat),
        "C17" | "C18" => {
            let mut o = queues(prop, seed, 64 * mult, limit, beat);
            merge(&mut o, histories(prop, seed, mult, limit, beat));
            o
        }
        "C26" => {
            let mut o = queues(prop, seed, 128 * mult, limit, beat);
            merge(&mut o, histories(prop, seed, mult, limit, beat));
            o
        }
        "C23" => {
            let mut o = histories(prop, seed, mult, limit, beat);
            vrfmon::sdkcheck::c23(&probes(), &mut o);
            o
        }
        "C24" | "C25" | "C34" => {
            let mut o = Outcome::default();
            match prop {
                "C24" => vrfmon::sdkcheck::c24(&probes(), seed, &mut o),
                "C25" => vrfmon::sdkcheck::c25(&probes(), &mut o),
                _ => vrfmon::sdkcheck::c34(&probes(), &mut o),
            }
            o
        }
        "C33" => queues(prop, seed, 32 * mult, limit, beat),
        _ => histories(prop, seed, mult, limit, beat),
    }
}
