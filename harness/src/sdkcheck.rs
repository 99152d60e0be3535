//! Judges what the probes of the four SDK configurations wrote down.
use crate::layout::*;
use crate::run::Outcome;
use crate::util::{pda, Rng};
use serde_json::json;
use solana_program::pubkey;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

pub const CONFIGS: [&str; 4] = ["plain", "compat", "anchor", "anchorcompat"];

fn unhex(s: &str) -> Option<Vec<u8>> {
    if s == "-" {
        return Some(vec![]);
    }
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
fn key(s: &str) -> Option<Pubkey> {
    Some(Pubkey::new_from_array(unhex(s)?.try_into().ok()?))
}
fn list(s: &str) -> Option<Vec<(Pubkey, bool, bool)>> {
    let s = s.strip_prefix('[')?.strip_suffix(']')?;
    if s.is_empty() {
        return Some(vec![]);
    }
    s.split(',').map(|x| Some((key(x.get(..64)?)?, x.get(64..65)? == "1", x.get(65..66)? == "1"))).collect()
}

type Lines = Vec<(String, String)>;
fn read(dir: &str, o: &mut Outcome) -> Option<BTreeMap<&'static str, Lines>> {
    let mut all = BTreeMap::new();
    for c in CONFIGS {
        let t = std::fs::read_to_string(format!("{dir}/{c}")).unwrap_or_default();
        if !t.ends_with("END\n") {
            o.harness_errors.push(format!("probe {c} left no complete result"));
            return None;
        }
        all.insert(c, t.lines().filter_map(|l| l.split_once(" = ")).map(|(a, b)| (a.to_string(), b.to_string())).collect());
    }
    Some(all)
}

/// Same questions, same answers, in every configuration.
fn agree(prop: &str, kinds: &[&str], all: &BTreeMap<&'static str, Lines>, o: &mut Outcome) {
    let pick = |l: &Lines| -> Lines { l.iter().filter(|(q, _)| kinds.iter().any(|k| q.starts_with(k)) && !q.starts_with("STAT") && !q.starts_with("CONST anchor")).cloned().collect() };
    let base = pick(&all["plain"]);
    for c in CONFIGS {
        let l = pick(&all[c]);
        o.add("answers compared between configurations", l.len() as u64);
        if l.len() != base.len() {
            o.violation(prop, &format!("configuration {c} differs"), format!("{} answers instead of {}", l.len(), base.len()), json!({"probe": c}));
        }
        for (a, b) in base.iter().zip(&l) {
            if a != b {
                let kind = a.0.split(' ').take(2).collect::<Vec<_>>().join(" ");
                o.violation(prop, &format!("configuration {c} differs: {}", kind.chars().take(40).collect::<String>()), format!("{} = {} but plain gives {}", cut(&b.0), cut(&b.1), cut(&a.1)), json!({"probe": c}));
                break;
            }
        }
    }
}
fn cut(s: &str) -> String {
    s.chars().take(500).collect()
}

/// Builders: every configuration's instruction is understood as what was asked for.
pub fn c23(dir: &str, o: &mut Outcome) {
    let Some(all) = read(dir, o) else { return };
    agree("C23", &["IX", "TY"], &all, o);
    for c in CONFIGS {
        for (q, a) in &all[c] {
            if !q.starts_with("IX") {
                continue;
            }
            o.add("built requests decoded", 1);
            o.evaluations += 1;
            o.nontrivial += 1;
            let mut bad = |k: &str, m: String| o.violation("C23", &format!("{k} ({c})"), format!("{m}: asked {} got {}", cut(q), cut(a)), json!({"probe": c}));
            if a == "PANIC" {
                bad("request builder aborts", String::new());
                continue;
            }
            let w: Vec<&str> = q.split(' ').collect();
            let g: Vec<&str> = a.split(' ').collect();
            if w.len() != 9 || g.len() != 3 {
                o.harness_errors.push(format!("probe {c}: unreadable line {}", cut(q)));
                return;
            }
            let (Some(payer), Some(queue), Some(program), Some(seed), Some(metas), Some(disc), Some(args)) = (key(w[2]), key(w[3]), key(w[4]), unhex(w[5]), list(w[6]), unhex(w[7]), unhex(w[8])) else {
                o.harness_errors.push(format!("probe {c}: unreadable line {}", cut(q)));
                return;
            };
            let (Some(to), Some(accts), Some(data)) = (key(g[0]), list(g[1]), unhex(g[2])) else {
                o.harness_errors.push(format!("probe {c}: unreadable answer {}", cut(a)));
                return;
            };
            if to != VRF {
                bad("request is addressed to another program", String::new());
            }
            let want = [(payer, true, true), (identity_of(&program), true, false), (queue, false, true), (SYSTEM, false, false), (SLOT_HASHES, false, false)];
            for (i, (k, s, w)) in want.iter().enumerate() {
                match accts.get(i) {
                    Some(x) if x.0 == *k && x.1 >= *s && x.2 >= *w => {}
                    _ => bad("request has unusable accounts", format!("account {i}")),
                }
            }
            let tag = data.first().copied().unwrap_or(255);
            if tag != if w[1] == "high" { 3 } else { 8 } {
                bad("request has the wrong priority or operation", format!("tag {tag}"));
                continue;
            }
            let r = Request { seed: seed.try_into().unwrap(), program, disc, metas, args };
            // what the real program will decode
            match parse_request(data.get(8..).unwrap_or(&[])) {
                Some((x, true)) if x == r => {}
                x => bad("request carries other parameters", format!("decoded {x:?}")),
            }
        }
    }
    o.samples.push(json!({"asked": cut(&all["plain"][0].0), "built": cut(&all["plain"][0].1)}));
}

/// Addresses and constants.
pub fn c24(dir: &str, seed: u64, o: &mut Outcome) {
    let Some(all) = read(dir, o) else { return };
    agree("C24", &["CONST", "PDA"], &all, o);
    let hexk = |k: &Pubkey| crate::util::hex(k.as_ref());
    let consts: BTreeMap<&str, String> = [
        ("program_id", hexk(&VRF)),
        ("id", hexk(&VRF)),
        ("anchor_program_id", hexk(&VRF)),
        ("identity_address", hexk(&identity_of(&VRF))),
        ("default_queue", hexk(&pubkey!("Cuj97ggrhhidhbu39TijNVqE74xvKJ69gDervRUXAxGh"))),
        ("default_ephemeral_queue", hexk(&DEFAULT_EPHEMERAL_QUEUE)),
        ("identity_seed", crate::util::hex(b"identity")),
        ("slot_hashes", hexk(&SLOT_HASHES)),
        ("system_program", hexk(&SYSTEM)),
    ]
    .into();
    for c in CONFIGS {
        for (q, a) in &all[c] {
            let w: Vec<&str> = q.split(' ').collect();
            let want = match w[0] {
                "CONST" => match consts.get(w[1]) {
                    Some(x) => x.clone(),
                    None => continue,
                },
                "PDA" => {
                    let k = w.get(2).and_then(|x| key(x)).unwrap_or_default();
                    let d = |tag: &[u8]| hexk(&pda(&[tag, k.as_ref()], &DLP).0);
                    match w[1] {
                        "fees_vault" => hexk(&pda(&[b"fees-vault"], &DLP).0),
                        "delegation_record" => d(b"delegation"),
                        "delegation_metadata" => d(b"delegation-metadata"),
                        "commit_state" => d(b"state-diff"),
                        "commit_record" => d(b"commit-state-record"),
                        "undelegate_buffer" => d(b"undelegate-buffer"),
                        "validator_fees_vault" => d(b"v-fees-vault"),
                        "program_config" => d(b"p-conf"),
                        "delegate_buffer" => hexk(&pda(&[b"buffer", k.as_ref()], &key(w[3]).unwrap()).0),
                        "ephemeral_balance" => hexk(&pda(&[b"balance", k.as_ref(), &[w[3].parse().unwrap()]], &DLP).0),
                        _ => continue,
                    }
                }
                _ => continue,
            };
            o.add(if w[0] == "PDA" { "derived addresses compared" } else { "constants compared" }, 1);
            o.evaluations += 1;
            o.nontrivial += 1;
            if *a != want {
                o.violation("C24", &format!("wrong {} {} ({c})", w[0].to_lowercase(), w[1]), format!("{} = {} instead of {want}", cut(q), cut(a)), json!({"probe": c}));
            }
        }
    }
    // and the API crate the clients of the program itself use
    use ephemeral_vrf_api::prelude as api;
    let mut r = Rng::new(seed ^ 0x24);
    let mut same = |what: &str, got: Pubkey, want: Pubkey| {
        o.add("derived addresses compared", 1);
        o.evaluations += 1;
        o.nontrivial += 1;
        if got != want {
            o.violation("C24", &format!("wrong API address {what}"), format!("{got} instead of {want}"), json!({"seed": seed}));
        }
    };
    same("program id", ephemeral_vrf_api::ID, VRF);
    same("program id", ephemeral_vrf_api::id(), VRF);
    same("magic program", api::MAGIC_PROGRAM_ID, MAGIC);
    same("magic context", api::MAGIC_CONTEXT_ID, MAGIC_CTX);
    same("default ephemeral queue", api::DEFAULT_EPHEMERAL_QUEUE, DEFAULT_EPHEMERAL_QUEUE);
    let mut pair = |what: &str, got: (Pubkey, u8), want: (Pubkey, u8)| {
        same(what, got.0, want.0);
        if got.1 != want.1 {
            same(&format!("{what} bump"), Pubkey::new_from_array([got.1; 32]), Pubkey::new_from_array([want.1; 32]));
        }
    };
    pair("registry", api::oracles_pda(), pda(&[b"oracles"], &VRF));
    pair("identity", api::program_identity_pda(), pda(&[b"identity"], &VRF));
    for i in 0..600u64 {
        let k = match i {
            0 => Pubkey::default(),
            1 => Pubkey::new_from_array([255; 32]),
            _ => Pubkey::new_from_array(r.b32()),
        };
        let idx = if i < 256 { i as u8 } else { r.u64() as u8 };
        pair("oracle record", api::oracle_data_pda(&k), pda(&[b"oracle", k.as_ref()], &VRF));
        pair("queue", api::oracle_queue_pda(&k, idx), pda(&[b"queue", k.as_ref(), &[idx]], &VRF));
    }
    let mut val = |what: &str, ok: bool| {
        o.add("constants compared", 1);
        if !ok {
            o.violation("C24", &format!("wrong API constant {what}"), String::new(), json!({}));
        }
    };
    val("seeds", api::ORACLES == b"oracles" && api::ORACLE_DATA == b"oracle" && api::IDENTITY == b"identity" && api::QUEUE == b"queue");
    o.samples.push(json!({"asked": cut(&all["compat"].iter().find(|l| l.0.starts_with("PDA")).unwrap().0)}));
}

pub fn c25(dir: &str, o: &mut Outcome) {
    let Some(mut all) = read(dir, o) else { return };
    agree("C25", &["RND", "RANGE"], &all, o);
    // one more: the same code without overflow checks
    let t = std::fs::read_to_string(format!("{dir}/plain-release")).unwrap_or_default();
    if !t.ends_with("END\n") {
        o.harness_errors.push("the release probe left no complete result".into());
        return;
    }
    let rel: Lines = t.lines().filter_map(|l| l.split_once(" = ")).map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let plain: Lines = all["plain"].clone();
    for (a, b) in plain.iter().zip(&rel) {
        if a != b && (a.0.starts_with("RND") || a.0.starts_with("RANGE")) {
            o.violation("C25", "release and debug builds differ", format!("{} = {} in release, {} in debug", cut(&b.0), cut(&b.1), cut(&a.1)), json!({"probe": "plain-release"}));
            break;
        }
    }
    all.insert("plain-release", rel);
    for (c, l) in &all {
        for (q, a) in l {
            if q.starts_with("RND") {
                o.add("seeds evaluated with every helper", 1);
                o.evaluations += 1;
                o.nontrivial += 1;
                if a == "PANIC" || a == "UNSTABLE" {
                    o.violation("C25", &format!("helper {} ({c})", a.to_lowercase()), cut(q), json!({"probe": c}));
                }
            }
            if q.starts_with("RANGE e") || q.starts_with("STAT e") {
                let n: u64 = q.split(' ').nth(2).and_then(|x| x.parse().ok()).unwrap_or(0);
                o.add(if q.starts_with("RANGE") { "ranges evaluated" } else { "draws counted for uniformity" }, n);
                o.evaluations += n;
                if a != "ok" {
                    let kind = if q.starts_with("RANGE") { "value outside its range or abort" } else { "values are not equally likely" };
                    o.violation("C25", &format!("{kind} ({c})"), cut(a), json!({"probe": c}));
                }
            }
        }
    }
    o.samples.push(json!({"answer": plain.iter().find(|l| l.0.starts_with("RND")).map(|l| format!("{} = {}", l.0, l.1))}));
}

pub fn c34(dir: &str, o: &mut Outcome) {
    let Some(all) = read(dir, o) else { return };
    for c in ["anchor", "anchorcompat"] {
        for (q, a) in &all[c] {
            let Some(rest) = q.strip_prefix("MACRO ") else { continue };
            if rest.ends_with(" list") {
                continue;
            }
            o.evaluations += 1;
            o.nontrivial += 1;
            let mut w = rest.splitn(4, ' ');
            let (case, _, pre, what) = (w.next().unwrap_or(""), w.next(), w.next().unwrap_or(""), w.next().unwrap_or(""));
            let good = if what == "genuine" { a == "accepted" } else { a.starts_with("refused") };
            o.add(if what == "genuine" { "genuine account lists validated and used" } else { "substituted accounts offered" }, 1);
            if !good {
                let kind = if what == "genuine" { format!("usable accounts do not work ({c}, predeclared {pre})") } else { format!("accepted: {what} ({c}, predeclared {pre})") };
                o.violation("C34", &kind, format!("{case}: {}", cut(a)), json!({"probe": c, "case": case}));
            }
        }
        if let Some((q, a)) = all[c].iter().find(|l| l.0.contains("foreign slot hashes")) {
            o.samples.push(json!({"configuration": c, "offered": cut(q), "outcome": cut(a)}));
        }
    }
}
