//! The real command line tool against a fake node: what it submits, what it
//! reports and what it prints, compared with independently built operations.
use crate::monitor::Monitor;
use crate::node::*;
use crate::scenario::{caller, must, request_tx, Chain};
use serde_json::json;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::Keypair;
use solana_sdk::signer::Signer;
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vrfmon::ixs;
use vrfmon::layout::*;
use vrfmon::refvrf;
use vrfmon::svm::{Acct, Prog, Rt, Svm, Tx};
use vrfmon::util::Rng;
use vrfmon::world::{key_from, World, SOL};

const DEFAULT_KEY: &str = "D4fURjsRpMj1vzfXqHgL94UeJyXR8DFyfyBDmbY647PnpuDzszvbRocMQu6Tzr1LUzBTQvXjarCxeb94kSTqvYx";
const FACTOR: u64 = 20;

#[derive(Debug, Clone)]
enum Cmd {
    Initialize,
    Add(String, String),
    Remove(String),
    InitQueue(String, u8, Option<u32>),
    Delegate(String),
    Undelegate(String),
    Close(String),
    Derive,
    List,
}

struct Stage {
    svm: Svm,
    er: bool,
    /// admin, two registered oracles, a fresh one, an unregistered one, one without money, the default key
    keys: Vec<Keypair>,
    queues: Vec<Pubkey>,
    other: Vec<Pubkey>,
}

fn stage(seed: u64, rng: &mut Rng, er: bool) -> Result<Stage, String> {
    let w = World::new(seed, 1);
    let mut svm = w.base.svm.clone();
    svm.slot = 2000 + rng.below(1_000_000);
    svm.refresh_sysvars();
    let mut keys: Vec<Keypair> = (0..6).map(|i| key_from(seed, "cli", i)).collect();
    keys.push(Keypair::from_base58_string(DEFAULT_KEY));
    let admin = keys[0].pubkey();
    svm.accts.insert(programdata_key(), Acct { lamports: SOL, data: build_programdata(Some(admin)), owner: LOADER_UPGRADEABLE, executable: false });
    for (i, k) in keys.iter().enumerate() {
        if i != 5 {
            svm.accts.insert(k.pubkey(), Acct::wallet(1000 * SOL));
        }
    }
    svm.add_program(BUDGET, Prog::Builtin(Arc::new(|_: &mut Rt, _, _: &[u8]| Ok(()))));
    let ixl: Arc<Mutex<Vec<Instruction>>> = Arc::default();
    let prog = key_from(seed, "cli", 10).pubkey();
    svm.add_program(prog, caller(prog, ixl.clone()));
    let (mut queues, mut other) = (vec![], vec![oracles_key(), prog]);
    if rng.chance(1, 8) {
        // nothing there yet
        if er {
            svm = enter(&w, svm);
        }
        return Ok(Stage { svm, er, keys, queues, other });
    }
    must(&mut svm, ixs::initialize(admin), &[admin])?;
    let pk_of = |k: &Keypair| refvrf::pk_of(refvrf::derive_sk(&k.to_bytes()));
    let mut oracles = vec![1, 2];
    if rng.chance(1, 2) {
        oracles.push(6);
    }
    for i in &oracles {
        must(&mut svm, ixs::modify(admin, keys[*i].pubkey(), pk_of(&keys[*i]), 0), &[admin])?;
        other.push(record_key(&keys[*i].pubkey()));
    }
    svm.warp(MATURITY + rng.below(300));
    let same = rng.chance(1, 2); // all oracles use the same indices
    let mut idx: Vec<u8> = vec![];
    for i in &oracles {
        let k = keys[*i].pubkey();
        if !same {
            idx.clear();
        }
        let want = if idx.is_empty() { 1 + rng.idx(3) } else { 0 };
        for _ in 0..want {
            let i = *rng.pick(&[0u8, 1, 3, 19, 20, 21, 100, 254, 255]);
            if !idx.contains(&i) {
                idx.push(i);
            }
        }
        for x in idx.clone() {
            let q = queue_key(&k, x);
            let size = *rng.pick(&[400u32, 3000, 9500, 10_240]);
            if rng.chance(1, 8) {
                must(&mut svm, ixs::init_queue(k, k, x, 20_000), &[k])?; // only partly allocated
            } else {
                must(&mut svm, ixs::init_queue(k, k, x, size), &[k])?;
            }
            queues.push(q);
        }
    }
    // requests
    let me = keys[4].pubkey();
    let c = Chain { svm: Svm::new(), me: key_from(seed, "cli", 11), other: key_from(seed, "cli", 12), admin: key_from(seed, "cli", 13), users: vec![me], progs: vec![prog], state: vec![me], own: vec![], foreign: vec![], ixs: ixl };
    for q in &queues {
        if rng.chance(1, 3) {
            for _ in 0..1 + rng.idx(4) {
                let t = request_tx(&c, rng, *q, false);
                svm.exec(&t);
            }
        }
    }
    if rng.chance(1, 3) {
        // the authority is an oracle as well
        must(&mut svm, ixs::modify(admin, admin, pk_of(&keys[0]), 0), &[admin])?;
        other.push(record_key(&admin));
    }
    must(&mut svm, ixs::modify(admin, keys[3].pubkey(), pk_of(&keys[3]), 0), &[admin])?;
    svm.warp(1 + rng.below(180));
    let mut delegated = vec![];
    for i in &oracles {
        let k = keys[*i].pubkey();
        for x in 0..=255u8 {
            let q = queue_key(&k, x);
            if queues.contains(&q) && rng.chance(if er { 3 } else { 1 }, 4) && must(&mut svm, ixs::delegate(k, x), &[k]).is_ok() {
                delegated.push(q);
            }
        }
    }
    if er {
        for q in &queues {
            if !delegated.contains(q) {
                svm.accts.remove(q);
            }
        }
        for q in &delegated {
            let mut a = svm.get(q);
            a.owner = VRF;
            svm.accts.insert(*q, a);
        }
        svm = enter(&w, svm);
    }
    Ok(Stage { svm, er, keys, queues, other })
}

/// The session's ledger: the copied accounts, and its programs.
fn enter(w: &World, base: Svm) -> Svm {
    let mut s = w.er.svm.clone();
    for (k, a) in &base.accts {
        s.accts.insert(*k, a.clone());
    }
    s.programs = base.programs.clone();
    s.slot = base.slot;
    s.refresh_sysvars();
    s
}

fn junk(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => String::new(),
        1 => "notakey".into(),
        2 => "0".repeat(44),
        3 => bs58::encode(rng.bytes(31)).into_string(),
        4 => bs58::encode(rng.bytes(33)).into_string(),
        _ => format!(" {}", Pubkey::new_from_array(rng.b32())),
    }
}

fn command(s: &Stage, rng: &mut Rng) -> (Option<usize>, Cmd) {
    let mut who = Some(*rng.pick(&[0usize, 0, 1, 1, 2, 2, 3, 4, 5, 6]));
    if rng.chance(1, 14) {
        who = None; // the tool's own key
    }
    let kind = rng.below(if s.er { 13 } else { 30 });
    if who.is_some() && kind > 8 && rng.chance(1, 2) {
        who = Some(*rng.pick(&[1, 1, 2, 2, 6])); // those who have queues
    }
    let me = s.keys[who.unwrap_or(6)].pubkey();
    let mine: Vec<Pubkey> = s.queues.iter().copied().filter(|q| (0..=255).any(|i| queue_key(&me, i) == *q)).collect();
    let q = |rng: &mut Rng| -> String {
        match rng.below(12) {
            0 => junk(rng),
            1 => Pubkey::new_from_array(rng.b32()).to_string(),
            2 => rng.pick(&s.other).to_string(),
            3 => queue_key(&me, rng.below(256) as u8).to_string(),
            4..=6 if !s.queues.is_empty() => rng.pick(&s.queues).to_string(),
            _ if !mine.is_empty() => rng.pick(&mine).to_string(),
            _ if !s.queues.is_empty() => rng.pick(&s.queues).to_string(),
            _ => queue_key(&me, 0).to_string(),
        }
    };
    let id = |rng: &mut Rng| if rng.chance(1, 10) { junk(rng) } else { s.keys[rng.idx(s.keys.len())].pubkey().to_string() };
    let c = match kind {
        0..=8 if s.er => Cmd::Undelegate(q(rng)),
        0 | 1 => Cmd::Initialize,
        2..=5 => {
            who = if rng.chance(3, 4) { Some(0) } else { who };
            let pk = match rng.below(6) {
                0 => junk(rng),
                1 => Pubkey::new_from_array(rng.b32()).to_string(),
                _ => Pubkey::new_from_array(refvrf::pk_of(refvrf::derive_sk(&s.keys[rng.idx(7)].to_bytes()))).to_string(),
            };
            let i = if rng.chance(1, 3) { Pubkey::new_from_array(rng.b32()).to_string() } else { id(rng) };
            Cmd::Add(i, pk)
        }
        6..=8 => {
            who = if rng.chance(3, 4) { Some(0) } else { who };
            Cmd::Remove(id(rng))
        }
        9..=13 => {
            let i = if rng.chance(4, 5) { me.to_string() } else { id(rng) };
            let b = *rng.pick(&[None, None, Some(400), Some(9500), Some(10_239), Some(10_240), Some(10_241), Some(20_480), Some(20_481), Some(31_000), Some(100_000), Some(24), Some(16), Some(0)]);
            Cmd::InitQueue(i, rng.below(256) as u8, b)
        }
        14..=17 => Cmd::Delegate(q(rng)),
        18 => Cmd::Undelegate(q(rng)),
        19..=22 => Cmd::Close(q(rng)),
        23 => Cmd::Derive,
        _ => Cmd::List,
    };
    (who, c)
}

/// What the command has to do, or `None` when it must not do anything.
fn wanted(s: &Svm, me: Pubkey, c: &Cmd) -> Option<Vec<Instruction>> {
    let key = |t: &str| t.parse::<Pubkey>().ok();
    let index_of = |t: &str| key(t).and_then(|q| (0..=255u8).find(|i| queue_key(&me, *i) == q));
    Some(match c {
        Cmd::Initialize => vec![ixs::initialize(me)],
        Cmd::Add(i, pk) => vec![ixs::modify(me, key(i)?, key(pk)?.to_bytes(), 0)],
        Cmd::Remove(i) => vec![ixs::modify(me, key(i)?, [0; 32], 1)],
        Cmd::InitQueue(i, x, b) => {
            let k = key(i)?;
            let t = b.unwrap_or(9500);
            let have = s.data(&queue_key(&k, *x)).len() as u32;
            let steps = t.saturating_sub(have).div_ceil(10_240).max(1);
            vec![ixs::init_queue(me, k, *x, t); steps as usize]
        }
        // only a queue can be delegated, whatever else the chain would accept
        Cmd::Delegate(q) | Cmd::Undelegate(q) if parse_queue(s.data(&key(q)?)).is_err() => return None,
        Cmd::Delegate(q) => vec![ixs::delegate(me, index_of(q)?)],
        Cmd::Undelegate(q) => vec![ixs::undelegate(me, index_of(q)?)],
        Cmd::Close(q) => vec![ixs::close(me, index_of(q)?)],
        Cmd::Derive | Cmd::List => return None,
    })
}

#[derive(Default)]
struct Case {
    found: Vec<(String, String)>,
    counters: BTreeMap<String, u64>,
    text: String,
    error: Option<String>,
}

fn case(seed: u64, bin: &Path, shim: &Path, dir: &Path) -> Case {
    let mut out = Case::default();
    if let Err(e) = inner(seed, bin, shim, dir, &mut out) {
        out.error = Some(e);
    }
    out
}

fn inner(seed: u64, bin: &Path, shim: &Path, dir: &Path, out: &mut Case) -> Result<(), String> {
    let mut rng = Rng::new(seed ^ 0xc11_c11);
    let er = rng.chance(1, 6);
    let s = stage(seed, &mut rng, er)?;
    let (who, cmd) = command(&s, &mut rng);
    let me = &s.keys[who.unwrap_or(6)];
    let id = me.pubkey();
    let queues: BTreeMap<Pubkey, u8> = (0..=255).map(|i| (queue_key(&id, i), i)).collect();
    let mon = Monitor::new(id, [0; 32], queues, FACTOR);
    let mut n = Node::new(s.svm.clone(), mon, Rng::new(seed ^ 5), FACTOR);
    // faults, sometimes
    let faulty = rng.chance(1, 5);
    if faulty {
        let f = match rng.below(9) {
            0 => Fault::Http(500),
            1 => Fault::Rpc(-32005),
            2 => Fault::Drop,
            3 => Fault::Fails,
            4 => Fault::Close,
            5 => Fault::Null,
            6 => Fault::Garbage,
            7 => Fault::Late(5),
            _ => Fault::Lost,
        };
        let p = *rng.pick(&[0.3, 1.0]);
        match rng.below(4) {
            0 => n.mix.hash.push((p, f)),
            1 => n.mix.status.push((p, f)),
            2 => n.mix.info.push((p, f)),
            _ => n.mix.send.push((p, f)),
        }
    }
    let start = n.snap_all();
    let slot0 = n.svm.slot;
    let node: Shared = Arc::new(Mutex::new(n));
    let (port, server) = (0..50)
        .find_map(|_| {
            let p = free_port();
            Server::start(p, node.clone(), http_conn).map(|s| (p, s))
        })
        .ok_or("no port")?;
    let url = format!("http://127.0.0.1:{port}/{}/e1", token());
    let mut c = Command::new(bin);
    c.env("LD_PRELOAD", shim).env("WARP_FACTOR", FACTOR.to_string()).env("RUST_BACKTRACE", "0").env_remove("RPC_URL").env_remove("KEYPAIR_BASE58").current_dir(dir).stdin(Stdio::null());
    if rng.chance(1, 6) {
        c.env("RPC_URL", &url);
    } else {
        c.arg(if rng.chance(1, 2) { "-r" } else { "--rpc-url" }).arg(&url);
    }
    if who.is_some() {
        let k = me.to_base58_string();
        match rng.below(4) {
            0 => c.env("KEYPAIR_BASE58", k),
            1 => c.arg("-k").arg(k),
            _ => c.arg("--keypair").arg(k),
        };
    }
    let long = rng.chance(1, 2);
    let opt = |s: &str, l: &str| if long { l.to_string() } else { s.to_string() };
    let args: Vec<String> = match &cmd {
        Cmd::Initialize => vec!["initialize".into()],
        Cmd::Add(i, o) => vec!["add-oracle".into(), opt("-i", "--identity"), i.clone(), opt("-o", "--oracle-pubkey"), o.clone()],
        Cmd::Remove(i) => vec!["remove-oracle".into(), opt("-i", "--identity"), i.clone()],
        Cmd::InitQueue(i, x, b) => {
            let mut v = vec!["initialize-oracle-queue".into(), opt("-i", "--identity"), i.clone(), "--index".into(), x.to_string()];
            if let Some(b) = b {
                v.extend([opt("-b", "--bytes-to-allocate"), b.to_string()]);
            }
            v
        }
        Cmd::Delegate(q) => vec!["delegate-oracle-queue".into(), opt("-q", "--queue"), q.clone()],
        Cmd::Undelegate(q) => vec!["undelegate-oracle-queue".into(), opt("-q", "--queue"), q.clone()],
        Cmd::Close(q) => vec!["close-oracle-queue".into(), opt("-q", "--queue"), q.clone()],
        Cmd::Derive => vec!["derive-pubkey".into()],
        Cmd::List => vec!["list-queue".into()],
    };
    c.args(&args);
    let (of, ef) = (dir.join("out"), dir.join("err"));
    c.stdout(std::fs::File::create(&of).map_err(|e| e.to_string())?).stderr(std::fs::File::create(&ef).map_err(|e| e.to_string())?);
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    let mut tick = Instant::now();
    let status = loop {
        if let Some(st) = child.try_wait().map_err(|e| e.to_string())? {
            break Some(st);
        }
        if t0.elapsed() > Duration::from_secs(40) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(2));
        if tick.elapsed() > Duration::from_millis(18) {
            tick = Instant::now();
            node.lock().unwrap().tick();
        }
    };
    server.stop();
    let mut n = node.lock().unwrap();
    for _ in 0..8 {
        n.tick(); // whatever is still on its way
    }
    if aliens() > 0 {
        return Err("the tool of another case called".into());
    }
    let text = std::fs::read_to_string(&of).unwrap_or_default();
    let err = std::fs::read_to_string(&ef).unwrap_or_default();
    let ok = status.is_some_and(|s| s.success());
    let name = args[0].clone();
    let mut bump = |k: String| *out.counters.entry(k).or_default() += 1;
    bump(format!("{name}: {}", if ok { "succeeded" } else { "refused" }));
    bump("commands run".into());
    if faulty {
        bump("commands run on a faulty node".into());
    }
    let sends: Vec<(String, solana_sdk::transaction::Transaction)> = n.submitted.clone();
    let mut distinct: Vec<String> = sends.iter().map(|x| x.0.clone()).collect();
    distinct.sort();
    distinct.dedup();
    out.text = format!("{} {args:?} (faults: {faulty}, session: {er}): status {status:?}; submitted {}; printed {text:?} {:?}", id, distinct.len(), err.chars().take(400).collect::<String>());
    let mut bad = |k: &str, m: String| out.found.push((k.to_string(), m));
    if status.is_none() {
        if !faulty {
            bad("the command does not end", String::new());
        }
        return Ok(());
    }
    if n.calls.contains_key("requestAirdrop") && !matches!(cmd, Cmd::Undelegate(_)) {
        bad("an airdrop is requested by a command that has no business with it", String::new());
    }
    if distinct.len() > 1 {
        bad("more than one transaction is submitted", format!("{}", distinct.len()));
    }
    for (_, t) in &sends {
        if t.message.account_keys.first() != Some(&id) {
            bad("a transaction is not paid by the given key", format!("{:?}", t.message.account_keys.first()));
        }
        if t.verify().is_err() {
            bad("a transaction is not properly signed", String::new());
        }
        if t.message.header.num_required_signatures != 1 {
            bad("a transaction asks for other signatures", format!("{}", t.message.header.num_required_signatures));
        }
    }
    let landed: Vec<u64> = distinct.iter().filter_map(|s| n.status.get(s)).filter(|x| x.1.is_none()).map(|x| x.0).collect();
    let view = |m: &BTreeMap<Pubkey, Acct>| -> BTreeMap<Pubkey, Acct> { m.iter().filter(|(k, a)| **k != SLOT_HASHES && !a.is_void()).map(|(k, a)| (*k, a.clone())).collect() };
    let now = view(&n.svm.accts);
    let mut shadow = s.svm.clone();
    shadow.accts = start.clone();
    let want = wanted(&s.svm, id, &cmd);
    match &cmd {
        Cmd::Derive | Cmd::List => {
            if !distinct.is_empty() || now != view(&start) {
                bad("a command that only shows information submits a transaction", format!("{distinct:?}"));
            }
            if let Cmd::Derive = cmd {
                let pk = Pubkey::new_from_array(refvrf::pk_of(refvrf::derive_sk(&me.to_bytes())));
                if !ok && !faulty {
                    bad("a command fails although nothing is wrong", String::new());
                }
                if ok && !text.contains(&pk.to_string()) {
                    bad("the printed public key is wrong", format!("expected {pk}"));
                }
                if ok {
                    out.counters.entry("public keys compared".into()).and_modify(|x| *x += 1).or_insert(1);
                }
            } else if ok {
                let mut listed = 0;
                for i in 0..=255u8 {
                    let q = queue_key(&id, i);
                    let line = text.lines().find(|l| l.contains(&q.to_string()));
                    match (start.get(&q), line) {
                        (None, Some(l)) => bad("a queue is listed that does not exist", l.into()),
                        (Some(a), None) => {
                            if parse_queue(&a.data).is_ok() {
                                bad("an existing queue is not listed", format!("index {i}, {q}"))
                            }
                        }
                        (Some(a), Some(l)) => {
                            if let Ok(v) = parse_queue(&a.data) {
                                listed += 1;
                                let l2 = l.to_lowercase();
                                for (k, x) in [("items", v.entries.len().to_string()), ("index", i.to_string()), ("delegated", (a.owner != VRF).to_string())] {
                                    let got = l2.split([',', ';']).find_map(|p| p.trim().strip_prefix(k).map(|r| r.trim_start_matches([':', '=', ' ']).trim().to_string()));
                                    if got.as_deref() != Some(&x) {
                                        bad("a listed queue is described wrongly", format!("{k} should be {x}: {l}"));
                                    }
                                }
                            }
                        }
                        (None, None) => {}
                    }
                }
                *out.counters.entry("queues listed and compared".into()).or_default() += listed;
            } else if !faulty {
                bad("a command fails although nothing is wrong", String::new());
            }
        }
        _ => {
            let slot = landed.first().copied().unwrap_or(slot0);
            shadow.warp(slot - slot0);
            let res = want.clone().map(|ix| shadow.exec(&Tx::new(ix, &[id])));
            let allowed = res.as_ref().is_some_and(|r| r.ok()) && start.get(&id).is_some_and(|a| a.lamports >= 5000);
            // a tool cannot know what else was allocated before
            let partial = matches!(&cmd, Cmd::InitQueue(i, x, _) if i.parse().is_ok_and(|k| start.contains_key(&queue_key(&k, *x))));
            if ok {
                if landed.is_empty() {
                    bad("success is reported although nothing happened", String::new());
                } else if !allowed {
                    bad("the command did something that was not asked for", format!("the operation itself is impossible: {:?}", res.map(|r| r.err)));
                } else if now != view(&shadow.accts) {
                    let d: Vec<String> = now.keys().chain(shadow.accts.keys()).filter(|k| **k != SLOT_HASHES && now.get(k) != view(&shadow.accts).get(k)).map(|k| k.to_string()).take(4).collect();
                    bad("the command has another effect than its name says", format!("accounts {d:?}"));
                } else {
                    *out.counters.entry("effects compared".into()).or_default() += 1;
                }
                if let Cmd::Undelegate(q) = &cmd {
                    let q: Pubkey = q.parse().map_err(|_| "key")?;
                    if !vrfmon::world::World::scheduled(&q) {
                        bad("no undelegation was scheduled", q.to_string());
                    }
                }
                if let (Some(sig), false) = (distinct.first(), landed.is_empty()) {
                    if !text.contains(sig) {
                        bad("the printed signature is not the transaction's", sig.clone());
                    }
                }
            } else {
                if landed.is_empty() && now != view(&start) {
                    return Err("the chain changed by itself".into());
                }
                if !landed.is_empty() && !faulty {
                    bad("failure is reported although the operation was carried out", err.chars().take(300).collect());
                }
                if !landed.is_empty() && (!allowed || now != view(&shadow.accts)) {
                    bad("the command had another effect than its name says", String::new());
                }
                if allowed && !faulty && !partial && landed.is_empty() {
                    bad("the command fails although the operation is allowed", err.chars().take(300).collect());
                }
                if !allowed {
                    *out.counters.entry("refusals compared".into()).or_default() += 1;
                }
            }
        }
    }
    Ok(())
}

/// cli <seed> <tier> <out> <bindir> <shim> <scratch> [only]
pub fn main(a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let n = if a[1] == "thorough" { 12_000 } else { 1000 };
    let out = &a[2];
    let (bin, shim, scratch) = (PathBuf::from(&a[3]).join("vrf-cli"), PathBuf::from(&a[4]), PathBuf::from(&a[5]));
    let only: Option<u64> = a.get(6).and_then(|x| x.parse().ok());
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<(u64, Case)>> = Mutex::default();
    let beat = Mutex::new(std::fs::File::create(format!("{out}.beat")).unwrap());
    std::thread::scope(|sc| {
        for w in 0..10 {
            let (next, res, beat, bin, shim, scratch) = (&next, &res, &beat, &bin, &shim, &scratch);
            sc.spawn(move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= if only.is_some() { 1 } else { n } {
                    return;
                }
                let s = only.unwrap_or(seed.wrapping_mul(1_000_003).wrapping_add(5_000 + i as u64) & 0xffff_ffff_ffff);
                let dir = scratch.join(format!("c{w}"));
                let mut c = Case::default();
                for _ in 0..3 {
                    let _ = std::fs::remove_dir_all(&dir);
                    std::fs::create_dir_all(&dir).unwrap();
                    let (b, h, d) = (bin.clone(), shim.clone(), dir.clone());
                    // thread-local logs of the modelled programs start empty
                    c = std::thread::spawn(move || case(s, &b, &h, &d)).join().unwrap_or_else(|e| Case { error: Some(vrfmon::svm::panic_text(&e)), ..Default::default() });
                    if c.error.is_none() {
                        break;
                    }
                }
                let _ = std::fs::remove_dir_all(&dir);
                if i % 10 == 0 {
                    let _ = writeln!(beat.lock().unwrap(), "case {i}");
                }
                res.lock().unwrap().push((s, c));
            });
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut viol, mut errs, mut samples) = (vec![], vec![], vec![]);
    let mut shapes = std::collections::BTreeSet::new();
    for (s, c) in &v {
        if only.is_some() {
            println!("{}\n{:?}\n{:?}", c.text, c.found, c.error);
        }
        if let Some(e) = &c.error {
            errs.push(json!(format!("{s}: {e}")));
            continue;
        }
        for (k, x) in &c.counters {
            *counters.entry(k.clone()).or_default() += x;
        }
        shapes.insert(c.text.split_once(' ').map(|x| x.1).unwrap_or("").to_string());
        if samples.len() < 4 {
            samples.push(json!(c.text));
        }
        for (k, m) in &c.found {
            if viol.len() < 10 && viol.iter().filter(|v: &&serde_json::Value| v["kind"] == *k).count() < 3 {
                viol.push(json!({"kind": k, "msg": format!("{m} -- {}", c.text), "replay": {"kind": "cli", "seed": s}}));
            }
        }
    }
    let ev = counters.get("commands run").copied().unwrap_or(0);
    std::fs::write(out, json!({"evaluations": ev, "nontrivial": shapes.len(), "counters": counters, "samples": samples, "other": {}, "harness_errors": errs, "violations": viol}).to_string()).unwrap();
}
