//! One scenario: a chain, a faulty node, the real oracle service, a judgement.
use crate::monitor::*;
use crate::node::*;
use serde_json::{json, Value};
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::Keypair;
use solana_sdk::signer::Signer;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use vrfmon::layout::*;
use vrfmon::refvrf;
use vrfmon::svm::{meta, Acct, Prog, Rt, Svm, Tx};
use vrfmon::util::Rng;
use vrfmon::world::{key_from, World, SOL};

pub const REQ_MAGIC: &[u8; 8] = b"\xfeREQST\xfe\xfe";

pub struct Chain {
    pub svm: Svm,
    pub me: Keypair,
    pub other: Keypair,
    pub admin: Keypair,
    pub users: Vec<Pubkey>,
    pub progs: Vec<Pubkey>,
    pub state: Vec<Pubkey>,
    pub own: Vec<(Pubkey, u8)>,
    pub foreign: Vec<(Pubkey, u8)>,
    pub ixs: Arc<Mutex<Vec<Instruction>>>,
}

pub fn caller(id: Pubkey, ixs: Arc<Mutex<Vec<Instruction>>>) -> Prog {
    Prog::Builtin(Arc::new(move |rt: &mut Rt, accts, data: &[u8]| {
        if data.len() == 16 && &data[..8] == REQ_MAGIC {
            let i = u64::from_le_bytes(data[8..].try_into().unwrap()) as usize;
            let ix = ixs.lock().unwrap()[i].clone();
            return rt.builtin_invoke(&ix, &[identity_of(&id)]);
        }
        if data.first() == Some(&0xee) {
            return Err("the callback fails".into());
        }
        for a in accts {
            let mut x = rt.get(&a.key);
            if a.writable && x.owner == id && !x.data.is_empty() {
                x.data[0] = x.data[0].wrapping_add(1);
                rt.set(&a.key, x)?;
            }
        }
        Ok(())
    }))
}

pub fn must(svm: &mut Svm, ix: Instruction, signers: &[Pubkey]) -> Result<(), String> {
    let r = svm.exec(&Tx::new(vec![ix.clone()], signers));
    match r.err {
        None => Ok(()),
        Some(e) => Err(format!("set-up failed ({:?}): {e}", ix.data.first())),
    }
}

/// A chain on which both oracles are registered and own queues.
pub fn chain(seed: u64, rng: &mut Rng) -> Result<Chain, String> {
    let w = World::new(seed, 1);
    let mut svm = w.base.svm.clone();
    svm.slot = match rng.below(6) {
        0 => (1 << 32) - rng.below(3000),
        1 => (1 << 33) + rng.below(1000),
        _ => 2000 + rng.below(1_000_000),
    };
    let me = key_from(seed, "service", 0);
    let other = key_from(seed, "service", 1);
    let admin = key_from(seed, "service", 2);
    svm.accts.insert(programdata_key(), Acct { lamports: SOL, data: build_programdata(Some(admin.pubkey())), owner: LOADER_UPGRADEABLE, executable: false });
    for k in [me.pubkey(), other.pubkey(), admin.pubkey()] {
        svm.accts.insert(k, Acct::wallet(1000 * SOL));
    }
    let users: Vec<Pubkey> = (3..6).map(|i| key_from(seed, "service", i).pubkey()).collect();
    for k in &users {
        svm.accts.insert(*k, Acct::wallet(1000 * SOL));
    }
    let ixs: Arc<Mutex<Vec<Instruction>>> = Arc::default();
    let progs: Vec<Pubkey> = (10..12).map(|i| key_from(seed, "service", i).pubkey()).collect();
    let mut state = vec![];
    for (i, p) in progs.iter().enumerate() {
        svm.add_program(*p, caller(*p, ixs.clone()));
        for j in 0..2 {
            let k = key_from(seed, "service", 20 + (i * 2 + j) as u64).pubkey();
            svm.accts.insert(k, Acct { lamports: 10 * SOL, data: vec![0; 16], owner: *p, executable: false });
            state.push(k);
        }
    }
    svm.add_program(BUDGET, Prog::Builtin(Arc::new(|_: &mut Rt, _, _: &[u8]| Ok(()))));
    svm.refresh_sysvars();
    must(&mut svm, vrfmon::ixs::initialize(admin.pubkey()), &[admin.pubkey()])?;
    for k in [&me, &other] {
        let pk = refvrf::pk_of(refvrf::derive_sk(&k.to_bytes()));
        must(&mut svm, vrfmon::ixs::modify(admin.pubkey(), k.pubkey(), pk, 0), &[admin.pubkey()])?;
    }
    svm.warp(MATURITY + 5);
    let pool = [0u8, 1, 2, 7, 19, 128, 254, 255];
    let take = |n: usize, rng: &mut Rng| -> Vec<u8> {
        let mut s = BTreeSet::new();
        while s.len() < n {
            s.insert(*rng.pick(&pool));
        }
        s.into_iter().collect()
    };
    let own_queues = *rng.pick(&[1usize, 2, 2, 2, 3]);
    let (a, b) = (take(own_queues, rng), take(1, rng));
    let mut own = vec![];
    let mut foreign = vec![];
    for (k, l, v) in [(&me, a, &mut own), (&other, b, &mut foreign)] {
        for i in l {
            let ix = vrfmon::ixs::init_queue(k.pubkey(), k.pubkey(), i, 9000);
            must(&mut svm, ix, &[k.pubkey()])?;
            v.push((queue_key(&k.pubkey(), i), i));
        }
    }
    Ok(Chain { svm, me, other, admin, users, progs, state, own, foreign, ixs })
}

/// A user's request, as a transaction of its callback program.
pub fn request_tx(c: &Chain, rng: &mut Rng, queue: Pubkey, poison: bool) -> Tx {
    let program = *rng.pick(&c.progs);
    let user = *rng.pick(&c.users);
    let mut disc = rng.bytes(1 + (rng.0 % 8) as usize);
    disc[0] = if poison { 0xee } else { disc[0] & 0x7f };
    let mut metas = vec![];
    for _ in 0..rng.idx(6) {
        let k = match rng.below(5) {
            0 => Pubkey::new_from_array(rng.b32()),
            1 => *rng.pick(&c.users),
            2 if rng.chance(1, 3) => queue,
            _ => *rng.pick(&c.state),
        };
        metas.push((k, rng.chance(1, 5), rng.chance(1, 2)));
    }
    let n = rng.idx(80);
    let r = Request { seed: rng.b32(), program, disc, metas, args: rng.bytes(n) };
    let high = rng.chance(1, 2);
    let ix = vrfmon::ixs::request(user, queue, &r, high);
    let mut v = c.ixs.lock().unwrap();
    v.push(ix.clone());
    let mut data = REQ_MAGIC.to_vec();
    data.extend_from_slice(&(v.len() as u64 - 1).to_le_bytes());
    let mut accounts: Vec<_> = ix.accounts.iter().map(|m| meta(m.pubkey, m.is_signer && m.pubkey == user, m.is_writable)).collect();
    accounts.push(meta(VRF, false, false));
    Tx::new(vec![Instruction { program_id: program, accounts, data }], &[user])
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Style {
    Calm,
    Storm,
    Restart,
    Outage,
    StartOutage,
    BadData,
    Expiry,
    Boundary,
    Busy,
    Fork,
    LongFail,
    Idle,
    Stats,
    Prompt,
    Churn,
}
pub const STYLES: [(&str, Style); 15] = [
    ("churn", Style::Churn),
    ("prompt", Style::Prompt),
    ("idle", Style::Idle),
    ("calm", Style::Calm),
    ("storm", Style::Storm),
    ("restart", Style::Restart),
    ("outage", Style::Outage),
    ("start-outage", Style::StartOutage),
    ("bad-data", Style::BadData),
    ("expiry", Style::Expiry),
    ("boundary", Style::Boundary),
    ("busy", Style::Busy),
    ("fork", Style::Fork),
    ("long-fail", Style::LongFail),
    ("stats", Style::Stats),
];

fn some(rng: &mut Rng, f: Vec<Fault>, n: usize, top: u64) -> Vec<(f64, Fault)> {
    (0..n).map(|_| (rng.below(top) as f64 / 100.0, rng.pick(&f).clone())).collect()
}

pub fn storm(rng: &mut Rng, style: Style) -> Mix {
    use Fault::*;
    let d = 20 + rng.below(500);
    let n = 1 + rng.below(8);
    let far = if rng.chance(1, 3) { 200 } else { 40 };
    let back = 1 + rng.below(far);
    let common = || vec![Delay(d), Http(500), Http(503), Close, Lost, Garbage, Truncated, Rpc(-32005), Rpc(-32603), Null, Http(429)];
    let mut m = Mix::default();
    if rng.chance(1, 5) {
        return m; // a quiet moment
    }
    let mut s = common();
    s.extend([Fault::Drop, Fault::Drop, Late(n), WrongSig, Fails, Lost]);
    let mut st = common();
    st.extend([Null, Null]);
    let mut h = common();
    h.extend([BadHash, Old(back), Old(140 + rng.below(60))]);
    let mut sc = common();
    sc.extend([Stale(back), Empty]);
    if rng.chance(1, 12) {
        s.push(Hang(1700));
        st.push(Hang(1700));
        h.push(Hang(1700));
        sc.push(Hang(1700));
    }
    let top = *rng.pick(&[10, 30, 60, 100]);
    if rng.chance(1, 2) {
        // scans are few, so they get their own share
        m.scan = some(rng, sc.clone(), 2, 100);
    }
    for (v, f) in [(&mut m.send, s), (&mut m.status, st), (&mut m.hash, h), (&mut m.scan, sc)] {
        if rng.chance(2, 3) {
            let n = 1 + rng.idx(3);
            *v = some(rng, f, n, top);
        }
    }
    let mut p = |a: u64| if rng.chance(1, 2) { rng.below(a) as f64 / 100.0 } else { 0.0 };
    m.ws_refuse = p(100);
    m.ws_bad_reply = p(60);
    m.ws_drop = p(100);
    m.ws_dup = p(60);
    m.ws_stale = p(40);
    m.ws_cut = p(30);
    m.ws_delay = p(50);
    m.ws_mute = rng.chance(1, 8);
    if style == Style::BadData {
        m.scan.push((0.6, Odd));
        m.ws_odd = 0.5;
        // malformed notifications end a subscription: new ones must be had for the next
        if rng.chance(3, 4) {
            m.ws_refuse = 0.0;
            m.ws_bad_reply = 0.0;
            m.ws_mute = false;
        }
        m.send.retain(|x| x.1 != Lost);
    }
    m
}

pub struct Proc {
    pub child: Child,
    pub epoch: u32,
    pub http: u16,
    pub err: PathBuf,
    pub seen_up: bool,
}
impl Proc {
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
    pub fn stderr(&self) -> String {
        let b = std::fs::read(&self.err).unwrap_or_default();
        String::from_utf8_lossy(&b[b.len().saturating_sub(1500)..]).to_string()
    }
}
impl std::ops::Drop for Proc {
    fn drop(&mut self) {
        self.kill();
    }
}

pub struct Setup {
    pub bin: PathBuf,
    pub shim: PathBuf,
    pub dir: PathBuf,
    pub factor: u64,
}

fn spawn(s: &Setup, c: &Chain, epoch: u32, rpc: u16, ws: u16, laser: bool, rng: &mut Rng) -> std::io::Result<Proc> {
    let http = free_port();
    let err = s.dir.join(format!("err{epoch}"));
    let mut cmd = Command::new(&s.bin);
    if laser {
        cmd.arg("--laserstream-endpoint").arg(format!("http://127.0.0.1:{ws}")).arg("--laserstream-api-key").arg(crate::laser::token_of(epoch));
    }
    let child = cmd
        .arg("--rpc-url")
        .arg(format!("http://127.0.0.1:{rpc}/{}/e{epoch}", token()))
        .arg("--websocket-url")
        .arg(format!("ws://127.0.0.1:{ws}/{}/e{epoch}", token()))
        .arg("--http-port")
        .arg(http.to_string())
        .arg("--identity")
        .arg(c.me.to_base58_string())
        .env("LD_PRELOAD", &s.shim)
        .env("WARP_FACTOR", s.factor.to_string())
        .env("RUST_BACKTRACE", "0")
        .env("VRF_ORACLE_SKIP_PREFLIGHT", if rng.chance(1, 4) { "false" } else { "true" })
        .env("TOKIO_WORKER_THREADS", if rng.chance(1, 4) { "1" } else { "4" })
        .env_remove("RUST_LOG")
        .current_dir(&s.dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&err)?)
        .spawn()?;
    Ok(Proc { child, epoch, http, err, seen_up: false })
}

pub fn http_get(port: u16, method: &str, path: &str) -> Option<(u16, String)> {
    let mut c = std::net::TcpStream::connect_timeout(&std::net::SocketAddr::from(([127, 0, 0, 1], port)), Duration::from_millis(500)).ok()?;
    c.set_read_timeout(Some(Duration::from_millis(1500))).ok()?;
    c.write_all(format!("{method} {path} HTTP/1.1\r\nhost: x\r\nconnection: close\r\ncontent-length: 0\r\n\r\n").as_bytes()).ok()?;
    let mut b = vec![];
    c.read_to_end(&mut b).ok()?;
    let t = String::from_utf8_lossy(&b).to_string();
    let code = t.split_whitespace().nth(1)?.parse().ok()?;
    Some((code, t.split_once("\r\n\r\n").map(|x| x.1.to_string()).unwrap_or_default()))
}

/// How long the threads of a process have been waiting for a processor, in ns.
fn run_delay(pid: u32) -> u64 {
    let mut sum = 0;
    for t in std::fs::read_dir(format!("/proc/{pid}/task")).into_iter().flatten().flatten() {
        let s = std::fs::read_to_string(t.path().join("schedstat")).unwrap_or_default();
        sum += s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    }
    sum
}
/// Notices when the service gets less processor time than it wants.
struct Load {
    at: Instant,
    pid: u32,
    sum: u64,
}
impl Load {
    fn look(&mut self, proc: &Option<Proc>, node: &Shared) {
        let Some(p) = proc else { return };
        let t = self.at.elapsed();
        if t < Duration::from_millis(100) {
            return;
        }
        let sum = run_delay(p.child.id());
        let late = sum.saturating_sub(self.sum) as f64 / t.as_nanos() as f64;
        if self.pid == p.child.id() {
            let mut n = node.lock().unwrap();
            let k = match (late * 100.0) as u64 {
                0..=9 => "load: waiting below 10%",
                10..=29 => "load: waiting 10 to 30%",
                30..=59 => "load: waiting 30 to 60%",
                60..=99 => "load: waiting 60 to 100%",
                _ => "load: waiting above 100%",
            };
            n.mon.count(k);
            if late > 1.5 {
                n.mon.slow_until = Some(Instant::now() + Duration::from_millis(if late > 4.0 { 4000 } else { 2000 }));
            }
        }
        *self = Load { at: Instant::now(), pid: p.child.id(), sum };
    }
}

/// A request some user made in an own queue.
#[derive(Clone)]
struct Made {
    queue: Pubkey,
    slot: u64,
    poison: bool,
    /// full scans answered and time passed in calm while it was alive, and while it was expired
    calm_live: u64,
    calm_dead: u64,
    live_since: Option<Duration>,
    dead_since: Option<Duration>,
    done: Option<&'static str>,
}

pub struct Outcome {
    pub found: Vec<Violation>,
    pub counters: BTreeMap<String, u64>,
    pub error: Option<String>,
    pub requests: u64,
    pub resolved: u64,
    pub log: Vec<String>,
    pub states: u64,
}

pub fn run(setup: &Setup, seed: u64, style: Style) -> Outcome {
    let mut out = Outcome { found: vec![], counters: BTreeMap::new(), error: None, requests: 0, resolved: 0, log: vec![], states: 0 };
    match inner(setup, seed, style, &mut out) {
        Ok(()) => {}
        Err(e) => out.error = Some(e),
    }
    out
}

const CALM_SCANS: u64 = 6;
const CALM_TIME: Duration = Duration::from_secs(11);

fn inner(setup: &Setup, seed: u64, style: Style, out: &mut Outcome) -> Result<(), String> {
    let mut rng = Rng::new(seed ^ 0x5e11_c0de);
    // where updates come from
    let laser = seed % 3 == 1;
    let c = chain(seed, &mut rng)?;
    let pk = refvrf::pk_of(refvrf::derive_sk(&c.me.to_bytes()));
    let mon = Monitor::new(c.me.pubkey(), pk, c.own.iter().copied().collect(), setup.factor);
    let node = Arc::new(Mutex::new(Node::new(c.svm.clone(), mon, Rng::new(seed ^ 77), setup.factor)));
    let (rpc, ws) = loop {
        let (a, b) = (free_port(), free_port());
        if a != b {
            break (a, b);
        }
    };
    let up = |node: &Shared| -> Result<(Server, Server), String> {
        for _ in 0..100 {
            let a = Server::start(rpc, node.clone(), http_conn);
            let b = Server::start(ws, node.clone(), if laser { crate::laser::conn } else { ws_conn });
            if let (Some(a), Some(b)) = (a, b) {
                return Ok((a, b));
            }
            std::thread::sleep(Duration::from_millis(20));
        }
        Err("ports are taken".into())
    };
    let mut servers = None;
    let mut made: BTreeMap<[u8; 32], Made> = BTreeMap::new();
    let mut made_foreign = 0u64;
    let mut epoch = 0u32;
    let mut proc: Option<Proc> = None;
    let mut restarts = 0u64;

    // a user makes a request, which lands at once
    let ask_of = |node: &Shared, rng: &mut Rng, made: &mut BTreeMap<[u8; 32], Made>, q: Pubkey, poison: bool, age: u64| {
        let foreign = !c.own.iter().any(|x| x.0 == q);
        let tx = request_tx(&c, rng, q, poison);
        let mut n = node.lock().unwrap();
        if n.fork.is_some() {
            return 0;
        }
        let before = n.snap();
        // an old request comes to light, say when a delegated queue returns
        n.svm.slot -= age;
        let r = n.svm.exec(&tx);
        n.svm.slot += age;
        if !r.ok() {
            n.mon.count("requests refused");
            return 0;
        }
        n.remember();
        let slot = n.svm.slot;
        if !foreign {
            if let Ok(v) = parse_queue(n.svm.data(&q)) {
                for e in v.entries {
                    made.entry(e.id).or_insert(Made { queue: q, slot: e.slot, poison, calm_live: 0, calm_dead: 0, live_since: None, dead_since: None, done: None });
                }
            }
        }
        let after = n.snap();
        for (k, a) in after.iter() {
            if before.get(k) != Some(a) {
                n.notify(*k, a.clone(), slot, false);
            }
        }
        1
    };

    let ask_at = |node: &Shared, rng: &mut Rng, made: &mut BTreeMap<[u8; 32], Made>, foreign: bool, poison: bool, age: u64| {
        let q = if foreign { rng.pick(&c.foreign).0 } else { rng.pick(&c.own).0 };
        ask_of(node, rng, made, q, poison, age)
    };
    let ask = |node: &Shared, rng: &mut Rng, made: &mut BTreeMap<[u8; 32], Made>, foreign: bool, poison: bool| ask_at(node, rng, made, foreign, poison, 0);
    // somebody else answers requests (another instance with the same key) or purges queues
    let outside = |node: &Shared, rng: &mut Rng, all: bool| {
        let mut n = node.lock().unwrap();
        if n.fork.is_some() {
            return;
        }
        let before = n.snap();
        let sk = refvrf::derive_sk(&c.me.to_bytes());
        let (q, i) = *rng.pick(&c.own);
        let mut list = vec![];
        if let Ok(v) = parse_queue(n.svm.data(&q)) {
            if rng.chance(1, 4) && v.entries.iter().any(|e| e.slot + TTL < n.svm.slot) {
                list.push((vrfmon::ixs::purge(c.me.pubkey(), i), "purges by others"));
            }
            for e in v.entries.iter() {
                if !all && rng.chance(1, 2) {
                    continue;
                }
                let k = curve25519_dalek::scalar::Scalar::from_bytes_mod_order(rng.b32());
                let p = refvrf::prove(sk, &e.id, k);
                list.push((vrfmon::ixs::provide(c.me.pubkey(), q, &e.id, &p, e.program, &e.metas), "answers by others"));
            }
        }
        for (ix, what) in list {
            let signers: Vec<Pubkey> = ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
            let t = solana_sdk::transaction::Transaction::new_unsigned(solana_sdk::message::Message::new(&[ix.clone()], Some(&c.me.pubkey())));
            let ok = n.svm.exec(&Tx::new(vec![ix], &signers)).ok();
            if ok {
                n.mon.count(what);
            }
            n.txlog.push((t, ok));
        }
        n.remember();
        let slot = n.svm.slot;
        for (k, a) in n.snap().iter() {
            if before.get(k) != Some(a) {
                n.notify(*k, a.clone(), slot, false);
            }
        }
    };

    // --------------------------------------------------------------- opening
    let before = rng.idx(4);
    if style != Style::Idle && (style != Style::Stats || rng.chance(1, 2)) {
        for _ in 0..before {
            ask(&node, &mut rng, &mut made, false, false);
        }
    }
    if style == Style::Boundary {
        // requests of several ages; the node then stands still at a chosen slot
        let n = 2 + rng.idx(4);
        for _ in 0..n {
            ask(&node, &mut rng, &mut made, false, false);
            let d = rng.below(3);
            node.lock().unwrap().jump(d);
        }
        let mut n = node.lock().unwrap();
        let base = made.values().map(|m| m.slot).min().unwrap();
        let top = made.values().map(|m| m.slot).max().unwrap();
        let off = *rng.pick(&[TTL - 1, TTL, TTL, TTL + 1, TTL + 1, TTL + 2]);
        let target = if rng.chance(1, 2) { base + off } else { top + off };
        let s = n.svm.slot;
        n.jump(target.saturating_sub(s).max(1));
        n.frozen = true;
    }
    if style == Style::Expiry && rng.chance(1, 2) {
        let d = 200 + rng.below(100);
        node.lock().unwrap().jump(d);
        for _ in 0..rng.idx(4) {
            ask(&node, &mut rng, &mut made, false, false);
        }
    }
    if style == Style::BadData || rng.chance(1, 4) {
        // malformed accounts that stay: every scan shows them
        let mut n = node.lock().unwrap();
        for _ in 0..1 + rng.below(3) {
            n.plant_malformed();
        }
    }
    node.lock().unwrap().tick();
    let start_dark = style == Style::StartOutage;
    if start_dark {
        if rng.chance(1, 2) {
            let mut n = node.lock().unwrap();
            use Fault::*;
            let f = [Http(500), Close, Garbage, Rpc(-32005), Null, Truncated, BadHash, Http(429)];
            n.mix.hash = vec![(1.0, rng.pick(&f).clone())];
            if rng.chance(1, 2) {
                n.mix.hash = vec![];
                n.mix.scan = vec![(1.0, rng.pick(&f[..6]).clone())];
            }
            n.mix.ws_refuse = if rng.chance(1, 2) { 1.0 } else { 0.0 };
            drop(n);
            servers = Some(up(&node)?);
        }
    } else {
        servers = Some(up(&node)?);
    }
    epoch += 1;
    let boot = |epoch: u32, rng: &mut Rng| spawn(setup, &c, epoch, rpc, ws, laser, rng).map_err(|e| format!("cannot start the service: {e}"));
    proc.replace(boot(epoch, &mut rng)?);

    // ---------------------------------------------------------------- faults
    let t0 = Instant::now();
    let echo = match style {
        Style::Calm => rng.chance(3, 4),
        Style::Busy => rng.chance(1, 3),
        Style::Storm => rng.chance(1, 4),
        _ => false,
    };
    let active = Duration::from_millis(match style {
        Style::Calm if echo => 8000,
        Style::Calm | Style::Busy | Style::Stats => 3000,
        Style::LongFail => 7500,
        Style::Prompt => 13000,
        Style::Churn => 4500,
        Style::Idle => 7600,
        Style::Boundary => 1200,
        _ => 2500 + rng.below(2000),
    });
    let mut next_mix = Instant::now();
    let mut next_tick = Instant::now();
    let mut dark_until: Option<Instant> = if servers.is_none() { Some(t0 + Duration::from_millis(300 + rng.below(1500))) } else { None };
    let mut boot_at: Option<Instant> = None;
    let mut longfail: Option<Mix> = None;
    let mut rewind = false;
    if style == Style::LongFail {
        use Fault::*;
        let mut m = Mix::default();
        let f = [Rpc(-32603), Http(500), Fault::Drop, Fails, Close];
        match rng.below(4) {
            0 | 1 => m.send = vec![(1.0, rng.pick(&f).clone())],
            2 => m.status = vec![(1.0, rng.pick(&[Rpc(-32603), Http(500), Null, Garbage]).clone())],
            _ => m.hash = vec![(1.0, rng.pick(&[Rpc(-32603), Http(500), Old(200), BadHash]).clone())],
        }
        // and scans that show a queue as it was some time ago
        rewind = rng.chance(1, 2);
        if rewind {
            m.scan = vec![(0.35, Stale(1 + rng.below(60))), (0.35, Stale(20 + rng.below(200)))];
        }
        longfail = Some(m);
    }
    let mut exited: Option<String> = None;
    let mut stats = StatsCheck::default();
    if style == Style::Stats {
        let mut n = node.lock().unwrap();
        n.hold_scan_ms = 150;
        n.mix.ws_dup = if rng.chance(1, 2) { 0.3 } else { 0.0 };
        n.mix.ws_drop = if rng.chance(1, 3) { 0.3 } else { 0.0 };
    }
    if style == Style::Busy {
        let mut n = node.lock().unwrap();
        n.slow = 60;
    }
    node.lock().unwrap().echo = echo;
    // many requests of one queue pile up
    let crowd = if style == Style::LongFail && rng.chance(1, 2) { Some(rng.pick(&c.own).0) } else { None };
    rewind &= crowd.is_none();
    let mut prompt = Prompt::default();
    let mut churn = false;
    let mut load = Load { at: Instant::now(), pid: 0, sum: 0 };
    while t0.elapsed() < active {
        std::thread::sleep(Duration::from_millis(2));
        load.look(&proc, &node);
        let now = Instant::now();
        if let Some(d) = dark_until {
            if now >= d {
                dark_until = None;
                servers = Some(up(&node)?);
            }
        }
        if let Some(b) = boot_at {
            if now >= b {
                boot_at = None;
                epoch += 1;
                proc.replace(boot(epoch, &mut rng)?);
            }
        }
        if now >= next_mix {
            next_mix = now + Duration::from_millis(200 + rng.below(700));
            match style {
                Style::Storm | Style::Restart | Style::BadData => node.lock().unwrap().mix = storm(&mut rng, style),
                Style::Expiry => {
                    node.lock().unwrap().mix = if rng.chance(1, 2) { Mix::default() } else { storm(&mut rng, style) };
                    if rng.chance(1, 2) {
                        let d = 100 + rng.below(200);
                        node.lock().unwrap().jump(d);
                    }
                }
                Style::Busy => {
                    let mut n = node.lock().unwrap();
                    n.mix.send = vec![(0.3, Fault::Drop), (0.1, Fault::Late(3))];
                    n.mix.status = vec![(0.3, Fault::Null)];
                    n.mix.ws_dup = 0.5;
                }
                Style::Fork => node.lock().unwrap().want_fork = true,
                Style::Churn => {
                    // what has to be begun again and again
                    use Fault::*;
                    let mut m = Mix::default();
                    match seed / 3 % 4 {
                        // starts that fail
                        0 => m.scan = vec![(1.0, rng.pick(&[Http(500), Rpc(-32603), Garbage]).clone())],
                        // connections to the source of updates
                        1 => m.ws_refuse = *rng.pick(&[0.3, 1.0]),
                        // answers that do not come
                        2 if rng.chance(1, 3) => m.scan = vec![(1.0, Hang(1700))],
                        // failing answers
                        2 => m.send = vec![(1.0, rng.pick(&[Rpc(-32603), Http(500), Fails]).clone())],
                        _ => {
                            m.scan = vec![(0.5, Http(500))];
                            m.hash = vec![(0.5, Http(500))];
                            m.send = vec![(0.5, Http(500))];
                        }
                    }
                    let cut = seed / 3 % 2 == 1;
                    node.lock().unwrap().mix = m;
                    if cut {
                        churn = true;
                    }
                }
                // some requests are answered late, some only purged
                Style::Stats if rng.chance(1, 3) => {
                    let d = *rng.pick(&[40, 200, TTL, TTL + 20, 3 * TTL]);
                    node.lock().unwrap().jump(d);
                }
                Style::LongFail => {
                    let m = longfail.clone().unwrap();
                    node.lock().unwrap().mix = m;
                }
                Style::StartOutage if now > t0 + Duration::from_millis(700) => node.lock().unwrap().mix = Mix::default(),
                _ => {}
            }
            if style == Style::Outage && dark_until.is_none() && rng.chance(1, 2) {
                if let Some((a, b)) = servers.take() {
                    a.stop();
                    b.stop();
                    node.lock().unwrap().subs.clear();
                    node.lock().unwrap().mon.count("outages");
                    let d = if rng.chance(1, 8) { 1900 } else { 50 + rng.below(900) };
                    dark_until = Some(now + Duration::from_millis(d));
                }
            }
            if style == Style::Restart && boot_at.is_none() && rng.chance(1, 2) {
                if let Some(mut p) = proc.take() {
                    if let Ok(Some(st)) = p.child.try_wait() {
                        exited = Some(format!("{st}: {}", p.stderr()));
                    }
                    p.kill();
                    restarts += 1;
                    node.lock().unwrap().subs.clear();
                    boot_at = Some(now + Duration::from_millis(rng.below(600)));
                }
            }
        }
        if churn {
            // no connection lasts
            let mut n = node.lock().unwrap();
            if !n.subs.is_empty() {
                let all = n.subs.len() as u64;
                for s in n.subs.drain(..) {
                    let _ = s.out.send(WsOut::Cut);
                }
                *n.mon.counters.entry("connections cut".into()).or_default() += all;
            }
        }
        if now >= next_tick {
            next_tick = now + Duration::from_millis(18);
            if style == Style::Stats && node.lock().unwrap().last_scan.elapsed() < Duration::from_millis(150) {
                continue;
            }
            node.lock().unwrap().tick();
            if style == Style::BadData && rng.chance(1, 4) {
                node.lock().unwrap().notify_odd();
            }
            if style == Style::Busy && rng.chance(2, 5) {
                // say everything again and again
                let mut n = node.lock().unwrap();
                let s = n.svm.slot - 1;
                for (q, _) in &c.own {
                    let a = n.svm.get(q);
                    n.notify(*q, a, s, false);
                }
            }
            if style == Style::Prompt {
                prompt.step(&node, epoch, &mut rng, now);
                match &mut prompt.phase {
                    Phase::Dark(t) if now >= *t => {
                        if servers.is_none() && dark_until.is_none() {
                            servers = Some(up(&node)?);
                        }
                    }
                    Phase::Watch(t) if now < *t && rng.chance(1, 7) && made.len() < 150 => {
                        let old: BTreeSet<[u8; 32]> = made.keys().copied().collect();
                        if prompt.odd && rng.chance(1, 4) {
                            node.lock().unwrap().notify_odd();
                        }
                        // several queues may change in one slot
                        for _ in 0..1 + rng.idx(3) {
                            // some can never be answered, which is no reason for others to wait
                            let poison = prompt.poison && rng.chance(1, 4);
                            ask(&node, &mut rng, &mut made, false, poison);
                        }
                        let told = { let n = node.lock().unwrap(); n.subs.iter().any(|s| s.epoch == epoch && !s.mute) && !n.mon.slow_until.is_some_and(|t| now < t) };
                        if told {
                            prompt.asked.extend(made.iter().filter(|x| !old.contains(x.0)).map(|x| (x.1.queue, *x.0, now)));
                        }
                    }
                    Phase::Fault => {
                        prompt.fault(&node, &mut rng, now);
                        if rng.chance(1, 3) {
                            if let Some((a, b)) = servers.take() {
                                a.stop();
                                b.stop();
                                let mut n = node.lock().unwrap();
                                n.subs.clear();
                                n.mon.count("outages");
                                dark_until = Some(now + Duration::from_millis(50 + rng.below(600)));
                            }
                        }
                    }
                    _ => {}
                }
            }
            let mut rate = if style == Style::Boundary || style == Style::Prompt { 0 } else { 12 + 24 * echo as u64 };
            if style == Style::Idle {
                // for a long time nothing happens but the passing of slots; then requests of any age appear
                let t = t0.elapsed();
                if t < Duration::from_millis(300) {
                    let d = rng.below(30);
                    node.lock().unwrap().jump(d);
                }
                rate = 0;
                if t > Duration::from_millis(6600) && rng.chance(1, 6) && made.len() < 12 {
                    let age = *rng.pick(&[0, 0, 20, 150, TTL + 200, TTL + 300, TTL + 350]);
                    ask_at(&node, &mut rng, &mut made, false, false, age);
                }
            }
            // when every answer fails, some queues are left to fall silent
            let rate = if style == Style::LongFail && t0.elapsed() > Duration::from_millis(1500) { rate / 6 } else { rate };
            if rng.chance(rate, 100) && made.len() < if echo { 150 } else if crowd.is_some() { 20 } else { 40 } {
                let poison = matches!(style, Style::Busy | Style::Storm | Style::Expiry) && rng.chance(1, 6);
                ask(&node, &mut rng, &mut made, false, poison);
            }
            if let (Some(q), true) = (crowd, t0.elapsed() < Duration::from_millis(500)) {
                ask_of(&node, &mut rng, &mut made, q, false, 0);
            }
            let others = match style {
                Style::LongFail if !rewind => 50 * (t0.elapsed() > Duration::from_millis(600)) as u64,
                Style::Storm | Style::Expiry | Style::Restart | Style::Busy => 20,
                Style::Outage | Style::BadData | Style::Stats => 8,
                _ => 0,
            };
            if rng.chance(others, 1000) {
                outside(&node, &mut rng, style == Style::LongFail);
            }
            if rng.chance(rate, 300) {
                made_foreign += ask(&node, &mut rng, &mut made, true, false);
            }
            if let (Style::Stats, Some(p)) = (style, proc.as_mut()) {
                if rng.chance(1, 6) {
                    stats.poll(p, &node, &mut rng, &c);
                }
            }
        }
        if let Some(p) = proc.as_mut() {
            if let Ok(Some(st)) = p.child.try_wait() {
                exited = Some(format!("{st}: {}", p.stderr()));
                break;
            }
        }
    }

    // ------------------------------------------------------------------ calm
    if exited.is_none() {
        if servers.is_none() {
            servers = Some(up(&node)?);
        }
        if proc.is_none() {
            epoch += 1;
            proc.replace(boot(epoch, &mut rng)?);
        }
        {
            let mut n = node.lock().unwrap();
            let keep_mute = n.mix.ws_mute;
            n.mix = Mix::default();
            n.want_fork = false;
            n.slow = 0;
            n.echo_now();
            n.echo = false;
            n.echo_keys.clear();
            let _ = keep_mute; // silent subscriptions stay silent: polling has to do
        }
        let mut phase = 0;
        let calm0 = Instant::now();
        let mut seen_scans = node.lock().unwrap().mon.epoch(epoch).scans_ok;
        // time in which the service could run: it stands still while the machine is overloaded
        let mut ran = Duration::ZERO;
        let mut last_loop = Instant::now();
        let mut last_scan_at = ran;
        let mut last_link_at = ran;
        'calm: loop {
            std::thread::sleep(Duration::from_millis(4));
            load.look(&proc, &node);
            let now = Instant::now();
            let overloaded = node.lock().unwrap().mon.slow_until.is_some_and(|t| now < t);
            if !overloaded {
                ran += now.duration_since(last_loop).min(Duration::from_millis(20));
            }
            last_loop = now;
            if let Some(p) = proc.as_mut() {
                if let Ok(Some(st)) = p.child.try_wait() {
                    exited = Some(format!("{st}: {}", p.stderr()));
                    break;
                }
            }
            if now >= next_tick {
                // slots are slow now so that a live request has many chances
                next_tick = now + Duration::from_millis(60);
                let mut n = node.lock().unwrap();
                if !(style == Style::Stats && n.last_scan.elapsed() < Duration::from_millis(150)) {
                    n.tick();
                }
                drop(n);
                if let (Style::Stats, Some(p)) = (style, proc.as_mut()) {
                    stats.poll(p, &node, &mut rng, &c);
                }
            }
            // what is still pending?
            let (slot, scans, pending, fork) = {
                let mut n = node.lock().unwrap();
                let mut pend = BTreeMap::new();
                for (q, _) in &c.own {
                    if let Ok(v) = parse_queue(n.svm.data(q)) {
                        for e in v.entries {
                            pend.insert(e.id, *q);
                        }
                    }
                }
                (n.svm.slot, n.mon.epoch(epoch).scans_ok, pend, n.fork.is_some())
            };
            let mut new_scans = scans - seen_scans;
            if new_scans > 0 {
                last_scan_at = ran;
            }
            if overloaded {
                new_scans = 0;
            }
            seen_scans = scans;
            if ran - last_scan_at > Duration::from_secs(20) {
                node.lock().unwrap().mon.found.push(Violation { props: vec!["C27", "C30"], kind: "the service no longer polls the node".into(), msg: format!("no complete scan for {} virtual seconds although the node is reachable", 20 * setup.factor) });
                break;
            }
            let linked = node.lock().unwrap().mon.links.get(&epoch).is_some_and(|x| *x > 0);
            if linked {
                last_link_at = ran;
            } else if ran - last_link_at > Duration::from_secs(6) {
                node.lock().unwrap().mon.found.push(Violation { props: vec!["C30", "C35"], kind: "the service no longer connects to the source of updates".into(), msg: format!("no connection for {} virtual seconds although it is reachable", 6 * setup.factor) });
                break;
            }
            for (id, m) in made.iter_mut() {
                if !pending.contains_key(id) {
                    if m.done.is_none() && !fork {
                        m.done = Some("gone");
                    }
                    continue;
                }
                m.done = None;
                let live = slot <= m.slot + TTL;
                let (n, since) = if live { (&mut m.calm_live, &mut m.live_since) } else { (&mut m.calm_dead, &mut m.dead_since) };
                *n += new_scans;
                let since = *since.get_or_insert(ran);
                let late = *n >= CALM_SCANS && (ran - since) > CALM_TIME;
                if late && (!live || !m.poison) {
                    let mut n = node.lock().unwrap();
                    let (props, kind) = if live {
                        (vec!["C27", "C30", "C29"], "a live request is never answered")
                    } else {
                        (vec!["C27", "C29"], "an expired request is never purged")
                    };
                    let msg = format!("request {} of slot {} in queue {} is still pending at slot {slot}: the node has been healthy for {} scans and {:.0} virtual seconds", hex4(id), m.slot, n.mon.queues[&m.queue], if live { m.calm_live } else { m.calm_dead }, (ran - since).as_secs_f64() * setup.factor as f64);
                    n.mon.say(format!("VIOLATION {kind}: {msg}"));
                    n.mon.found.push(Violation { props, kind: kind.into(), msg });
                    break 'calm;
                }
            }
            if fork {
                continue;
            }
            let open: Vec<&Made> = made.iter().filter(|(id, _)| pending.contains_key(*id)).map(|(_, m)| m).collect();
            let waiting = open.iter().any(|m| !m.poison || slot > m.slot + TTL);
            if !waiting && linked {
                match phase {
                    0 => {
                        // new requests are served, too
                        if style == Style::Boundary {
                            node.lock().unwrap().frozen = false;
                        }
                        for _ in 0..2 {
                            ask(&node, &mut rng, &mut made, false, false);
                        }
                        phase = 1;
                    }
                    1 if !open.is_empty() => {
                        node.lock().unwrap().jump(TTL + 10);
                        phase = 2;
                    }
                    _ => break,
                }
            }
            if ran > Duration::from_secs(45) || calm0.elapsed() > Duration::from_secs(80) {
                if ran <= Duration::from_secs(45) {
                    node.lock().unwrap().mon.count("scenarios given up because the machine was overloaded");
                }
                break;
            }
        }
    }
    if style == Style::Churn && exited.is_none() && node.lock().unwrap().mon.found.is_empty() {
        if let Some(p) = &proc {
            idle_load(p, &node, setup.factor, epoch);
        }
    }
    if let Some(e) = &exited {
        if e.contains("error binding") || e.contains("Address already in use") {
            return Err(format!("port conflict: {e}"));
        }
        node.lock().unwrap().mon.found.push(Violation { props: vec!["C30", "C27"], kind: "the service process ended".into(), msg: e.clone() });
    }
    if let (Style::Stats, Some(p), None) = (style, proc.as_mut(), &exited) {
        std::thread::sleep(Duration::from_millis(300));
        stats.finish(p, &node, &c);
    }
    // what became of the requests: the history of successful transactions
    let errs: String = (1..=epoch).map(|e| std::fs::read_to_string(setup.dir.join(format!("err{e}"))).unwrap_or_default()).collect();
    if let Some(mut p) = proc.take() {
        p.kill();
    }
    if let Some((a, b)) = servers.take() {
        a.stop();
        b.stop();
    }
    let mut n = node.lock().unwrap();
    let mut fulfilled = BTreeSet::new();
    let mut purges = 0;
    for (t, ok) in &n.txlog {
        if *ok {
            for ix in instructions(t).unwrap_or_default() {
                if ix.program_id == VRF && ix.data.first() == Some(&4) {
                    fulfilled.insert(<[u8; 32]>::try_from(&ix.data[8..40]).unwrap());
                }
                if ix.program_id == VRF && ix.data.first() == Some(&9) {
                    purges += 1;
                }
            }
        }
    }
    let mut purged_live = vec![];
    for (id, m) in &made {
        if m.done.is_some() {
            out.resolved += 1;
            if !fulfilled.contains(id) && !m.poison && m.calm_live >= CALM_SCANS {
                purged_live.push(format!("{} of slot {}", hex4(id), m.slot));
            }
        }
    }
    if !purged_live.is_empty() {
        n.mon.found.push(Violation { props: vec!["C27", "C29"], kind: "a live request is left to expire".into(), msg: format!("{purged_live:?}") });
    }
    out.requests = made.len() as u64;
    out.found = n.mon.found.clone();
    out.found.extend(stats.found);
    out.counters = std::mem::take(&mut n.mon.counters);
    let mut add = |k: &str, v: u64| {
        if v > 0 {
            *out.counters.entry(k.to_string()).or_default() += v;
        }
    };
    add("requests made", made.len() as u64);
    add("requests made to other oracles", made_foreign);
    add("requests fulfilled", fulfilled.len() as u64);
    add("purges landed", purges);
    add("restarts", restarts);
    add("forks dropped", n.forks_done);
    add("task panics contained", errs.matches("panicked at").count() as u64);
    add("statistics replies compared", stats.replies);
    add("averages compared", stats.averages);
    add("not-found replies", stats.notfound);
    out.states = n.mon.epochs.values().map(|e| e.deliveries.len() as u64).sum();
    out.log = std::mem::take(&mut n.mon.log);
    if aliens() > 0 {
        return Err("the service of another scenario called".into());
    }
    if n.mon.epochs.values().all(|e| e.scans == 0) && exited.is_none() && out.found.is_empty() {
        return Err("the service never contacted the node".into());
    }
    Ok(())
}

// --------------------------------------------------------- background load

/// Nothing is pending and nothing fails: what does the service still do?
fn idle_load(p: &Proc, node: &Shared, factor: u64, epoch: u32) {
    let wait = |d: u64| {
        let t = Instant::now();
        while t.elapsed() < Duration::from_millis(d) {
            std::thread::sleep(Duration::from_millis(40));
            node.lock().unwrap().tick();
        }
    };
    // what was answered last is forgotten after 30 seconds
    wait(32_000 / factor);
    let count = |m: &str| node.lock().unwrap().calls.get(m).copied().unwrap_or(0);
    let (h, s, x) = (count("getLatestBlockhash"), count("getProgramAccounts"), count("sendTransaction"));
    let t = Instant::now();
    wait(120_000 / factor);
    let span = t.elapsed().as_secs_f64() * factor as f64;
    let (h, s, x) = (count("getLatestBlockhash") - h, count("getProgramAccounts") - s, count("sendTransaction") - x);
    let threads = std::fs::read_dir(format!("/proc/{}/task", p.child.id())).map_or(0, |d| d.count());
    let files = std::fs::read_dir(format!("/proc/{}/fd", p.child.id())).map_or(0, |d| d.count());
    let cpus = std::thread::available_parallelism().map_or(8, |x| x.get());
    let mut n = node.lock().unwrap();
    let links = n.mon.links.get(&epoch).copied().unwrap_or(0);
    n.mon.count("idle services examined");
    n.mon.say(format!("idle for {span:.0} virtual seconds: {h} blockhashes, {s} scans, {x} transactions, {links} links, {threads} threads, {files} files"));
    for (what, v) in [("idle: blockhashes asked for", h), ("idle: scans", s), ("idle: threads", threads as u64), ("idle: open files", files as u64)] {
        *n.mon.counters.entry(what.into()).or_default() += v;
    }
    let mut bad = |what: String| {
        n.mon.say(format!("VIOLATION {what}"));
        n.mon.found.push(Violation { props: vec!["C36"], kind: "background work piles up".into(), msg: what });
    };
    if h as f64 > span / 60.0 + 5.0 {
        bad(format!("an idle service asked for {h} blockhashes in {span:.0} seconds"));
    }
    if s as f64 > span / 30.0 + 2.0 {
        bad(format!("an idle service scanned {s} times in {span:.0} seconds"));
    }
    if x > 0 {
        bad(format!("an idle service sent {x} transactions in {span:.0} seconds"));
    }
    if links > 1 {
        bad(format!("an idle service holds {links} connections to the source of updates"));
    }
    if threads > 3 * cpus + 16 {
        bad(format!("an idle service runs {threads} threads"));
    }
    if files > 64 {
        bad(format!("an idle service holds {files} open files"));
    }
}

// ------------------------------------------------------------- promptness

/// Trouble with the source of updates, then quiet, then requests whose answers must not wait for a scan.
enum Phase {
    Fault,
    Dark(Instant),
    Settle(Instant),
    Watch(Instant),
}
impl Default for Phase {
    fn default() -> Self {
        Phase::Settle(Instant::now())
    }
}
#[derive(Default)]
struct Prompt {
    phase: Phase,
    asked: Vec<(Pubkey, [u8; 32], Instant)>,
    /// malformed updates in between: they may cost a connection
    odd: bool,
    poison: bool,
    nsub: u64,
}
impl Prompt {
    fn fault(&mut self, node: &Shared, rng: &mut Rng, now: Instant) {
        let mut n = node.lock().unwrap();
        n.mix.ws_cut = *rng.pick(&[0.0, 0.3, 1.0]);
        n.mix.ws_refuse = *rng.pick(&[0.0, 0.5, 1.0]);
        n.mix.ws_bad_reply = *rng.pick(&[0.0, 0.0, 0.5, 1.0]);
        n.mix.ws_odd = *rng.pick(&[0.0, 0.5]);
        n.notify_odd();
        let own = n.mon.own_queues();
        let s = n.svm.slot.saturating_sub(1);
        for q in own {
            let a = n.svm.get(&q);
            n.notify(q, a, s, false);
        }
        self.phase = Phase::Dark(now + Duration::from_millis(100 + rng.below(900)));
    }
    fn step(&mut self, node: &Shared, epoch: u32, rng: &mut Rng, now: Instant) {
        let linked = {
            let n = node.lock().unwrap();
            n.mon.links.get(&epoch).is_some_and(|x| *x > 0) && n.subs.iter().any(|s| s.epoch == epoch)
        };
        match self.phase {
            Phase::Dark(t) if now >= t => {
                let mut n = node.lock().unwrap();
                n.mix = Mix::default();
                // a second and a bit for a lingering connection of old to be noticed
                self.phase = Phase::Settle(now + Duration::from_millis(1300));
            }
            Phase::Settle(t) if now >= t && linked => {
                self.odd = rng.chance(1, 4);
                self.poison = rng.chance(1, 2);
                node.lock().unwrap().slow = *rng.pick(&[0, 0, 0, 120]);
                self.nsub = node.lock().unwrap().nsub;
                self.phase = Phase::Watch(now + Duration::from_millis(1500 + rng.below(800)))
            }
            Phase::Watch(t) if now >= t + Duration::from_millis(1600) => {
                self.judge(node, epoch);
                self.phase = Phase::Fault;
            }
            _ => {}
        }
    }
    fn judge(&mut self, node: &Shared, epoch: u32) {
        let mut n = node.lock().unwrap();
        let busy = n.mon.slow_until.is_some_and(|t| Instant::now() < t + Duration::from_secs(4));
        let ep = n.mon.epoch(epoch);
        let (mut soon, mut late, mut very) = (0, vec![], 0);
        for (q, id, t) in self.asked.drain(..) {
            let Some(next) = ep.scan_at.iter().find(|s| **s >= t) else { continue };
            if next.duration_since(t) < Duration::from_millis(500) {
                continue;
            }
            match ep.known.get(&(q, id)).and_then(|k| k.first_send) {
                Some(x) if x < *next => soon += 1,
                _ => {
                    late.push(hex4(&id));
                    very += (next.duration_since(t) > Duration::from_millis(800)) as u64;
                }
            }
        }
        if busy {
            n.mon.count("rounds of promptness not judged because the machine was overloaded");
            return;
        }
        *n.mon.counters.entry("requests answered before the next scan".into()).or_default() += soon;
        *n.mon.counters.entry("requests that had to wait for a scan".into()).or_default() += late.len() as u64;
        if soon + late.len() as u64 >= 3 {
            n.mon.count("rounds of promptness judged");
        }
        if !self.odd {
            *n.mon.counters.entry("late in undisturbed rounds".into()).or_default() += late.len() as u64;
        }
        let undisturbed = !self.odd && n.nsub == self.nsub;
        if undisturbed {
            n.mon.count("undisturbed rounds of promptness judged");
        }
        if late.len() >= 3 && soon == 0 || undisturbed && very > 0 {
            let msg = format!("{} requests announced over an open subscription while nothing failed were not taken up before the next scan: {late:?}", late.len());
            n.mon.say(format!("VIOLATION {msg}"));
            n.mon.found.push(Violation { props: vec!["C35"], kind: "announced requests wait for the next poll".into(), msg });
        }
    }
}

// -------------------------------------------------------------- statistics

#[derive(Default)]
struct StatsCheck {
    found: Vec<Violation>,
    replies: u64,
    averages: u64,
    notfound: u64,
}
impl StatsCheck {
    fn bad(&mut self, kind: &str, msg: String) {
        if self.found.len() < 5 {
            self.found.push(Violation { props: vec!["C31"], kind: kind.into(), msg });
        }
    }
    fn poll(&mut self, p: &mut Proc, node: &Shared, rng: &mut Rng, c: &Chain) {
        if rng.chance(1, 4) {
            let (m, path) = *rng.pick(&[("GET", "/"), ("GET", "/stat"), ("GET", "/stats/"), ("GET", "/metrics"), ("POST", "/stats"), ("DELETE", "/stats"), ("GET", "/stats/x"), ("GET", "//stats"), ("PUT", "/")]);
            if let Some((code, _)) = http_get(p.http, m, path) {
                p.seen_up = true;
                self.notfound += 1;
                if code != 404 {
                    self.bad("an unknown path is not answered with not-found", format!("{m} {path}: {code}"));
                }
            }
            return;
        }
        let early = node.lock().unwrap().mon.epoch(p.epoch).deliveries.len();
        let Some((code, body)) = http_get(p.http, "GET", "/stats") else { return };
        p.seen_up = true;
        let v: Value = serde_json::from_str(&body).unwrap_or(Value::Null);
        self.replies += 1;
        if code != 200 || !v["queues"].is_object() || !v["avg_response_slots"].is_object() {
            return self.bad("the statistics reply is malformed", format!("{code} {body}"));
        }
        let _ = early;
        let mut n = node.lock().unwrap();
        let dl = n.mon.epoch(p.epoch).deliveries.clone();
        for (k, x) in v["queues"].as_object().unwrap() {
            let Some((q, _)) = c.own.iter().find(|(q, _)| q.to_string() == *k) else {
                self.bad("statistics for something that is not an own queue", k.clone());
                continue;
            };
            let ok = dl.iter().any(|d| d.queue == *q && json!(d.ids.len()) == *x);
            if !ok {
                self.bad("a queue size that was never true", format!("{k}: {x}"));
            }
        }
        for k in v["avg_response_slots"].as_object().unwrap().keys() {
            if !c.own.iter().any(|(q, _)| q.to_string() == *k) {
                self.bad("statistics for something that is not an own queue", k.clone());
            }
        }
    }
    /// At rest the reply must equal what the deliveries imply.
    fn finish(&mut self, p: &mut Proc, node: &Shared, c: &Chain) {
        let mut got = None;
        let mut want = Value::Null;
        for _ in 0..20 {
            let dl = node.lock().unwrap().mon.epoch(p.epoch).deliveries.clone();
            if dl.last().is_some_and(|d| d.at.elapsed() < Duration::from_millis(250)) {
                std::thread::sleep(Duration::from_millis(60));
                continue;
            }
            let Some((code, body)) = http_get(p.http, "GET", "/stats") else {
                std::thread::sleep(Duration::from_millis(100));
                continue;
            };
            let after = node.lock().unwrap().mon.epoch(p.epoch).deliveries.len();
            if after != dl.len() {
                continue;
            }
            let mut sizes = serde_json::Map::new();
            let mut avgs: BTreeMap<String, f64> = BTreeMap::new();
            for (q, _) in &c.own {
                let mine: Vec<&Delivery> = dl.iter().filter(|d| d.queue == *q).collect();
                let Some(l) = mine.last() else { continue };
                sizes.insert(q.to_string(), json!(l.ids.len()));
                let mut tracked: BTreeMap<[u8; 32], u64> = BTreeMap::new();
                let mut lat = vec![];
                for d in &mine {
                    let gone: Vec<[u8; 32]> = tracked.keys().filter(|k| !d.ids.contains_key(*k)).copied().collect();
                    for g in gone {
                        let at = tracked.remove(&g).unwrap();
                        if let Some(s) = d.slot {
                            lat.push(s.saturating_sub(at) as f64);
                        }
                    }
                    for (k, s) in &d.ids {
                        tracked.entry(*k).or_insert(*s);
                    }
                }
                if !lat.is_empty() {
                    avgs.insert(q.to_string(), lat.iter().sum::<f64>() / lat.len() as f64);
                }
            }
            want = json!({"queues": sizes, "avg_response_slots": avgs});
            let v: Value = serde_json::from_str(&body).unwrap_or(Value::Null);
            got = Some((code, v.clone()));
            let same_sizes = v["queues"] == want["queues"];
            let empty = serde_json::Map::new();
            let g = v["avg_response_slots"].as_object().unwrap_or(&empty);
            let same_avgs = g.len() == avgs.len() && avgs.iter().all(|(k, a)| g.get(k).and_then(|x| x.as_f64()).is_some_and(|x| (x - a).abs() < 1e-6 * (1.0 + a.abs())));
            if code == 200 && same_sizes && same_avgs {
                self.replies += 1;
                self.averages += avgs.len() as u64;
                return;
            }
            std::thread::sleep(Duration::from_millis(100));
        }
        match got {
            None => self.bad("the statistics endpoint does not answer", format!("port {}", p.http)),
            Some((c, v)) => self.bad("the statistics differ from what happened", format!("reply {c} {v}, but the node's history gives {want}")),
        }
    }
}
