//! A stand-in for a Solana node: JSON-RPC over HTTP and account subscriptions
//! over WebSocket, executing the real program in the instrumented runtime, with
//! injectable faults. Everything a client can observe is logged to the monitor.
use crate::monitor::Monitor;
use base64::Engine as _;
use serde_json::{json, Value};
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use solana_sdk::transaction::Transaction;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};
use vrfmon::layout::*;
use vrfmon::svm::{Acct, Svm, Tx};
use vrfmon::util::Rng;

pub const BUDGET: Pubkey = solana_program::pubkey!("ComputeBudget111111111111111111111111111111");
/// compute units below which the instruction cannot complete on chain
pub const FLOOR_PROVIDE: u64 = 100_000;
pub const FLOOR_PURGE: u64 = 30_000;

pub type Snap = Arc<BTreeMap<Pubkey, Acct>>;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// answer after this long (real time)
    Delay(u64),
    Http(u16),
    /// close the connection; the request is not processed
    Close,
    /// process, then close without an answer
    Lost,
    Hang(u64),
    Garbage,
    Truncated,
    Rpc(i64),
    Null,
    // transactions
    Drop,
    Late(u64),
    WrongSig,
    Fails,
    // slot and blockhash
    BadHash,
    Old(u64),
    // accounts
    Stale(u64),
    Empty,
    Odd,
}

#[derive(Clone, Default, Debug)]
pub struct Mix {
    pub send: Vec<(f64, Fault)>,
    pub status: Vec<(f64, Fault)>,
    pub hash: Vec<(f64, Fault)>,
    pub scan: Vec<(f64, Fault)>,
    /// questions about single accounts
    pub info: Vec<(f64, Fault)>,
    // subscriptions
    pub ws_refuse: f64,
    pub ws_bad_reply: f64,
    pub ws_drop: f64,
    pub ws_dup: f64,
    pub ws_stale: f64,
    pub ws_cut: f64,
    pub ws_odd: f64,
    pub ws_delay: f64,
    /// subscriptions look alive but say nothing
    pub ws_mute: bool,
    /// nothing is reachable
    pub down: bool,
}

pub struct Sub {
    pub epoch: u32,
    pub out: mpsc::Sender<WsOut>,
    pub filters: Vec<Filter>,
    pub n: u64,
    pub mute: bool,
}
pub enum WsOut {
    Text(String, u64),
    Cut,
}
#[derive(Clone)]
pub enum Filter {
    Mem(usize, Vec<u8>),
    Size(usize),
    Never,
}

pub enum Reply {
    Json(Value),
    Raw(String),
    Cut(Value),
    Http(u16),
    Close,
    Hang,
}
pub struct Plan {
    pub delay: u64,
    pub reply: Reply,
    pub token: Option<Token>,
}
pub enum Token {
    Scan { epoch: u32, n: u64, snap: Snap },
    Hash { epoch: u32, slot: u64 },
    Send { epoch: u32, seq: u64 },
    Status { epoch: u32, seq: u64, ok: Vec<String> },
}

pub struct Node {
    pub svm: Svm,
    pub history: VecDeque<(u64, Snap)>,
    pub mempool: Vec<(u64, Transaction, String)>,
    pub status: HashMap<String, (u64, Option<Value>)>,
    pub mix: Mix,
    pub rng: Rng,
    pub subs: Vec<Sub>,
    pub mon: Monitor,
    pub nsub: u64,
    pub seq: u64,
    pub fork: Option<(u64, BTreeMap<Pubkey, Acct>, Vec<String>)>,
    pub want_fork: bool,
    pub forks_done: u64,
    /// do not advance the slot
    pub frozen: bool,
    /// delay every answer to a transaction or a status question by up to this (ms)
    pub slow: u64,
    pub calls: BTreeMap<String, u64>,
    pub odd: Vec<(Pubkey, Acct)>,
    pub factor: u64,
    pub last_notify: Instant,
    pub hold_scan_ms: u64,
    /// notifications about own queues wait for the next scan and arrive together with its answer
    pub echo: bool,
    pub echo_keys: Vec<Pubkey>,
    pub last_scan: Instant,
    pub txlog: Vec<(Transaction, bool)>,
    /// everything that arrived, with its signature
    pub submitted: Vec<(String, Transaction)>,
}

pub fn b64(d: &[u8]) -> String {
    base64::engine::general_purpose::STANDARD.encode(d)
}
fn account_json(a: &Acct, enc: &str) -> Result<Value, String> {
    let data = match enc {
        "base64" | "base64+zstd" => json!([b64(&a.data), "base64"]),
        _ if a.data.len() > 128 => return Err("Encoded binary (base 58) data should be less than 128 bytes, please use Base64 encoding.".into()),
        "base58" => json!([bs58::encode(&a.data).into_string(), "base58"]),
        _ => json!(bs58::encode(&a.data).into_string()),
    };
    Ok(json!({"lamports": a.lamports, "data": data, "owner": a.owner.to_string(), "executable": a.executable, "rentEpoch": u64::MAX, "space": a.data.len()}))
}
fn filters(v: &Value) -> Vec<Filter> {
    let mut out = vec![];
    for f in v.as_array().into_iter().flatten() {
        if let Some(m) = f.get("memcmp") {
            let off = m["offset"].as_u64().unwrap_or(0) as usize;
            let bytes = match &m["bytes"] {
                Value::Array(a) => Some(a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect::<Vec<u8>>()),
                Value::String(s) if m["encoding"] == "base64" => base64::engine::general_purpose::STANDARD.decode(s).ok(),
                Value::String(s) => bs58::decode(s).into_vec().ok(),
                _ => None,
            };
            out.push(bytes.map_or(Filter::Never, |b| Filter::Mem(off, b)));
        } else if let Some(n) = f.get("dataSize") {
            out.push(Filter::Size(n.as_u64().unwrap_or(0) as usize));
        } else {
            out.push(Filter::Never);
        }
    }
    out
}
fn passes(f: &[Filter], d: &[u8]) -> bool {
    f.iter().all(|f| match f {
        Filter::Mem(o, b) => d.len() >= o + b.len() && d[*o..o + b.len()] == b[..],
        Filter::Size(n) => d.len() == *n,
        Filter::Never => false,
    })
}

pub fn instructions(t: &Transaction) -> Option<Vec<Instruction>> {
    let m = &t.message;
    let mut out = vec![];
    for c in &m.instructions {
        let mut accounts = vec![];
        for a in &c.accounts {
            let i = *a as usize;
            accounts.push(AccountMeta { pubkey: *m.account_keys.get(i)?, is_signer: m.is_signer(i), is_writable: m.is_maybe_writable(i, None) });
        }
        out.push(Instruction { program_id: *m.account_keys.get(c.program_id_index as usize)?, accounts, data: c.data.clone() });
    }
    Some(out)
}
/// the compute unit limit of a transaction
pub fn budget(ixs: &[Instruction]) -> u64 {
    for i in ixs {
        if i.program_id == BUDGET && i.data.len() == 5 && i.data[0] == 2 {
            return u32::from_le_bytes(i.data[1..5].try_into().unwrap()) as u64;
        }
    }
    200_000 * ixs.iter().filter(|i| i.program_id != BUDGET).count() as u64
}

impl Node {
    pub fn new(svm: Svm, mon: Monitor, rng: Rng, factor: u64) -> Node {
        let mut n = Node {
            svm,
            history: VecDeque::new(),
            mempool: vec![],
            status: HashMap::new(),
            mix: Mix::default(),
            rng,
            subs: vec![],
            mon,
            nsub: 1,
            seq: 0,
            fork: None,
            want_fork: false,
            forks_done: 0,
            frozen: false,
            slow: 0,
            calls: BTreeMap::new(),
            odd: vec![],
            factor,
            last_notify: Instant::now(),
            hold_scan_ms: 0,
            echo: false,
            echo_keys: vec![],
            last_scan: Instant::now(),
            txlog: vec![],
            submitted: vec![],
        };
        n.remember();
        n
    }
    pub fn snap(&self) -> Snap {
        Arc::new(self.svm.accts.iter().filter(|(_, a)| a.owner == VRF && !a.executable).map(|(k, a)| (*k, a.clone())).collect())
    }
    pub fn snap_all(&self) -> BTreeMap<Pubkey, Acct> {
        self.svm.accts.clone()
    }
    pub fn remember(&mut self) {
        let s = self.snap();
        let slot = self.svm.slot;
        if self.history.back().is_some_and(|x| x.0 == slot) {
            self.history.pop_back();
        }
        self.history.push_back((slot, s));
        while self.history.len() > 300 {
            self.history.pop_front();
        }
    }
    pub fn at(&self, back: u64) -> (u64, Snap) {
        let want = self.svm.slot.saturating_sub(back);
        self.history.iter().rev().find(|x| x.0 <= want).or(self.history.front()).cloned().unwrap()
    }
    fn back_of(commitment: &Value) -> u64 {
        match commitment.as_str() {
            Some("processed") | Some("recent") => 0,
            Some("confirmed") | Some("single") => 2,
            _ => 32,
        }
    }
    pub fn hash_of(&self, slot: u64) -> solana_sdk::hash::Hash {
        let mut h = self.svm.slot_hash(slot);
        h[0] ^= 0x5a;
        solana_sdk::hash::Hash::new_from_array(h)
    }
    fn hash_ok(&self, h: &solana_sdk::hash::Hash) -> bool {
        (0..=150).any(|b| self.svm.slot >= b && self.hash_of(self.svm.slot - b) == *h)
    }

    /// Execute one transaction on the current state; the error as JSON.
    pub fn execute(&mut self, t: &Transaction, dry: bool) -> Result<Option<Value>, String> {
        if t.verify().is_err() {
            return Err("signature verification failure".into());
        }
        let Some(ixs) = instructions(t) else { return Err("failed to sanitize".into()) };
        if !self.hash_ok(&t.message.recent_blockhash) {
            return Err("Blockhash not found".into());
        }
        let payer = t.message.account_keys[0];
        if self.svm.lamports(&payer) < 5000 {
            return Err("Attempt to debit an account but found no record of a prior credit.".into());
        }
        let signers: Vec<Pubkey> = t.message.account_keys.iter().take(t.message.header.num_required_signatures as usize).copied().collect();
        let limit = budget(&ixs);
        let tx = Tx::new(ixs.iter().filter(|i| i.program_id != BUDGET).cloned().collect(), &signers);
        let shift = ixs.iter().take_while(|i| i.program_id == BUDGET).count();
        for (i, ix) in ixs.iter().enumerate() {
            if ix.program_id == VRF && !ix.data.is_empty() {
                let floor = match ix.data[0] {
                    4 => FLOOR_PROVIDE,
                    9 => FLOOR_PURGE,
                    _ => 0,
                };
                if limit < floor {
                    return Ok(Some(json!({"InstructionError": [i, "ComputationalBudgetExceeded"]})));
                }
            }
        }
        let keep = if dry { Some(self.svm.accts.clone()) } else { None };
        let r = self.svm.exec(&tx);
        if let Some(k) = keep {
            self.svm.accts = k;
        }
        Ok(r.err.map(|_| {
            let i = r.failed_ix.unwrap_or(0) + shift;
            match r.custom {
                Some(c) => json!({"InstructionError": [i, {"Custom": c}]}),
                None => json!({"InstructionError": [i, "InvalidAccountData"]}),
            }
        }))
    }

    /// One slot passes: land transactions, tell subscribers.
    pub fn tick(&mut self) {
        if let Some((end, accts, sigs)) = self.fork.take() {
            if self.svm.slot >= end {
                // the fork loses: its blocks never happened
                let before = self.snap();
                self.svm.accts = accts;
                let slot = self.svm.slot;
                self.svm.slot = slot; // slots go on
                self.svm.refresh_sysvars();
                for s in sigs {
                    self.status.remove(&s);
                }
                self.forks_done += 1;
                self.remember();
                if self.rng.chance(1, 2) {
                    self.notify_changes(&before);
                }
            } else {
                self.fork = Some((end, accts, sigs));
            }
        }
        let before = self.snap();
        let slot = self.svm.slot;
        let due: Vec<(u64, Transaction, String)> = {
            let (a, b) = std::mem::take(&mut self.mempool).into_iter().partition(|x| x.0 <= slot);
            self.mempool = b;
            a
        };
        let saved = self.svm.accts.clone();
        let mut sigs = vec![];
        for (_, t, sig) in due {
            if self.status.contains_key(&sig) {
                continue;
            }
            match self.execute(&t, false) {
                Ok(e) => {
                    self.mon.landed(&t, e.is_none(), slot);
                    self.txlog.push((t, e.is_none()));
                    self.status.insert(sig.clone(), (slot, e));
                    sigs.push(sig);
                }
                Err(_) => {
                    self.mon.count("transactions the node discarded");
                }
            }
        }
        if self.want_fork && self.fork.is_none() && sigs.iter().any(|s| matches!(self.status.get(s), Some((_, None)))) && self.snap() != before {
            self.want_fork = false;
            self.fork = Some((slot + 4, saved, sigs));
        }
        if !self.frozen {
            self.svm.warp(1);
        }
        self.remember();
        self.notify_changes(&before);
    }
    /// Slots pass without blocks.
    pub fn jump(&mut self, n: u64) {
        self.svm.warp(n);
        self.remember();
    }

    pub fn notify_changes(&mut self, before: &Snap) {
        let after = self.snap();
        for (k, a) in after.iter() {
            if before.get(k) != Some(a) {
                self.notify(*k, a.clone(), self.svm.slot.saturating_sub(!self.frozen as u64), false);
            }
        }
    }
    pub fn notify(&mut self, k: Pubkey, a: Acct, slot: u64, forged: bool) {
        self.last_notify = Instant::now();
        let m = self.mix.clone();
        if m.down {
            return;
        }
        if self.echo && !forged && self.mon.queues.contains_key(&k) {
            if !self.echo_keys.contains(&k) {
                self.echo_keys.push(k);
            }
            return;
        }
        let mut i = 0;
        while i < self.subs.len() {
            if self.subs[i].mute || m.ws_mute || !passes(&self.subs[i].filters, &a.data) {
                i += 1;
                continue;
            }
            if self.rng.chance((m.ws_cut * 1000.0) as u64, 1000) {
                let _ = self.subs[i].out.send(WsOut::Cut);
                self.subs.remove(i);
                continue;
            }
            if self.rng.chance((m.ws_drop * 1000.0) as u64, 1000) {
                i += 1;
                continue;
            }
            let mut msgs = vec![(slot, a.clone())];
            if !forged && self.rng.chance((m.ws_dup * 1000.0) as u64, 1000) {
                msgs.push((slot, a.clone()));
            }
            if !forged && self.rng.chance((m.ws_stale * 1000.0) as u64, 1000) {
                let back = 1 + self.rng.below(12);
                let (s, sn) = self.at(back);
                if let Some(o) = sn.get(&k) {
                    msgs.push((s, o.clone()));
                }
            }
            let delay = if self.rng.chance((m.ws_delay * 1000.0) as u64, 1000) { self.rng.below(60) } else { 0 };
            for (s, x) in msgs {
                let (n, epoch) = (self.subs[i].n, self.subs[i].epoch);
                let v = json!({"jsonrpc": "2.0", "method": "programNotification", "params": {"result": {"context": {"slot": s, "apiVersion": "3.0.0"}, "value": {"pubkey": k.to_string(), "account": account_json(&x, "base64").unwrap()}}, "subscription": n}});
                if !forged {
                    self.mon.shown(epoch, &k, &x, Some(s));
                }
                let _ = self.subs[i].out.send(WsOut::Text(v.to_string(), delay));
            }
            if self.rng.chance((m.ws_odd * 1000.0) as u64, 1000) {
                let t = self.odd_message(i);
                let _ = self.subs[i].out.send(WsOut::Text(t, 0));
                self.mon.count("malformed notifications sent");
            }
            i += 1;
        }
    }
    /// What was held back arrives, at the very moment a scan is answered.
    pub fn echo_now(&mut self) {
        if !self.echo || self.echo_keys.is_empty() || self.fork.is_some() {
            return;
        }
        self.echo = false;
        let slot = self.svm.slot.saturating_sub(!self.frozen as u64);
        for k in std::mem::take(&mut self.echo_keys) {
            if let Some(a) = self.snap().get(&k).cloned() {
                self.mon.count("notifications that arrived with a scan");
                self.notify(k, a, slot, false);
            }
        }
        self.echo = true;
    }
    /// Every open subscription gets a malformed notification.
    pub fn notify_odd(&mut self) {
        for i in 0..self.subs.len() {
            if !self.subs[i].mute && !self.mix.down {
                let t = self.odd_message(i);
                let _ = self.subs[i].out.send(WsOut::Text(t, 0));
                self.mon.count("malformed notifications sent");
            }
        }
    }
    /// A notification no healthy node would send.
    pub fn odd_message(&mut self, i: usize) -> String {
        let n = self.subs[i].n;
        let slot = self.svm.slot;
        let own = self.mon.own_queues();
        let k = *self.rng.pick(&own);
        let real = self.svm.get(&k);
        let wrap = |acc: Value, key: String| json!({"jsonrpc": "2.0", "method": "programNotification", "params": {"result": {"context": {"slot": slot}, "value": {"pubkey": key, "account": acc}}, "subscription": n}}).to_string();
        let good = |a: &Acct| account_json(a, "base64").unwrap();
        match self.rng.below(12) {
            0 => "this is not json".into(),
            1 => "{}".into(),
            2 => json!({"jsonrpc": "2.0", "method": "programNotification", "params": {"result": 7, "subscription": n}}).to_string(),
            3 => wrap(json!({"lamports": 1, "data": ["!!!not base64!!!", "base64"], "owner": VRF.to_string(), "executable": false, "rentEpoch": 0, "space": 3}), k.to_string()),
            4 => {
                let l = self.rng.idx(24);
                let mut a = real;
                a.data.truncate(l);
                wrap(good(&a), k.to_string())
            }
            5 => {
                // another program's account that mimics a queue with a request
                let mut a = real;
                a.owner = Pubkey::new_from_array(self.rng.b32());
                a.data = self.fake_queue_data();
                wrap(good(&a), k.to_string())
            }
            6 => {
                let a = Acct { lamports: 1, data: self.fake_queue_data(), owner: VRF, executable: false };
                let key = Pubkey::new_from_array(self.rng.b32());
                wrap(good(&a), key.to_string())
            }
            7 => wrap(good(&real), "not a key".into()),
            8 => {
                // a corrupt queue at a foreign address
                let key = Pubkey::new_from_array(self.rng.b32());
                let a = Acct { lamports: 1, data: self.corrupt_queue(), owner: VRF, executable: false };
                wrap(good(&a), key.to_string())
            }
            9 => {
                // a corrupt image of an own queue
                let a = Acct { lamports: 1, data: self.corrupt_queue(), owner: VRF, executable: false };
                for s in &self.subs {
                    self.mon.corrupt_shown(s.epoch, &k, &a.data, Some(slot));
                }
                wrap(good(&a), k.to_string())
            }
            10 => {
                let mut a = real;
                a.data[0] = 1;
                wrap(good(&a), k.to_string())
            }
            _ => wrap(json!({"lamports": 1, "data": {"parsed": {"x": 1}, "program": "spl-token", "space": 0}, "owner": VRF.to_string(), "executable": false, "rentEpoch": 0, "space": 0}), k.to_string()),
        }
    }
    pub fn fake_entries(&mut self) -> Vec<Entry> {
        let n = 1 + self.rng.idx(3);
        (0..n)
            .map(|_| Entry { slot: self.svm.slot.saturating_sub(self.rng.below(300)), id: self.rng.b32(), program: Pubkey::new_from_array(self.rng.b32()), disc: vec![1], metas: vec![], args: vec![], prio: self.rng.below(2) as u8 })
            .collect()
    }
    pub fn fake_queue_data(&mut self) -> Vec<u8> {
        let e = self.fake_entries();
        let ix = self.mon.own_indices();
        let i = *self.rng.pick(&ix);
        build_queue(i, 4000, &e)
    }
    /// Queue bytes that hold no valid entry list.
    pub fn corrupt_queue(&mut self) -> Vec<u8> {
        let ix = self.mon.own_indices();
        let i = *self.rng.pick(&ix);
        let e = self.fake_entries();
        let mut d = build_queue(i, 1200, &e);
        match self.rng.below(6) {
            0 => d[12..16].copy_from_slice(&u32::MAX.to_le_bytes()),
            1 => d[8..12].copy_from_slice(&u32::MAX.to_le_bytes()),
            2 => {
                for o in [72, 76, 80] {
                    d[24 + o..28 + o].copy_from_slice(&(self.rng.u64() as u32).to_le_bytes());
                }
            }
            3 => d[24 + 84..24 + 90].copy_from_slice(&[0xff; 6]),
            4 => {
                d.truncate(24 + self.rng.idx(100));
            }
            _ => {
                let b = self.rng.bytes(d.len() - 16);
                d[16..].copy_from_slice(&b);
            }
        }
        d
    }

    /// An account of the program, at a foreign address, that looks like a queue and holds no valid one.
    pub fn plant_malformed(&mut self) {
        let key = Pubkey::new_from_array(self.rng.b32());
        let mut data = match self.rng.below(4) {
            0 => vec![3, 0, 0, 0, 0, 0, 0, 0],
            1 => {
                let n = self.rng.idx(16);
                let mut d = vec![3, 0, 0, 0, 0, 0, 0, 0];
                d.extend(self.rng.bytes(n));
                d
            }
            2 => {
                let mut d = self.corrupt_queue();
                d[0] = 3;
                d
            }
            _ => self.corrupt_queue(),
        };
        if data.len() > 12 && self.rng.chance(1, 3) {
            data[12..].reverse();
        }
        self.svm.accts.insert(key, Acct { lamports: 5_000_000, data, owner: VRF, executable: false });
        self.mon.count("malformed accounts that stay");
        self.remember();
    }

    fn draw(&mut self, v: &[(f64, Fault)]) -> Option<Fault> {
        let mut x = self.rng.below(1_000_000) as f64 / 1e6;
        for (p, f) in v {
            if x < *p {
                return Some(f.clone());
            }
            x -= p;
        }
        None
    }

    pub fn handle(&mut self, epoch: u32, req: &Value) -> Plan {
        let method = req["method"].as_str().unwrap_or("").to_string();
        let p = req["params"].clone();
        let id = req["id"].clone();
        *self.calls.entry(method.clone()).or_default() += 1;
        let m = self.mix.clone();
        let fault = match method.as_str() {
            "sendTransaction" => self.draw(&m.send),
            "getSignatureStatuses" => self.draw(&m.status),
            "getLatestBlockhash" => self.draw(&m.hash),
            "getProgramAccounts" => self.draw(&m.scan),
            "getAccountInfo" | "getMultipleAccounts" => self.draw(&m.info),
            _ => None,
        };
        if let Some(f) = &fault {
            let t = format!("fault: {} {}", method, format!("{f:?}").split('(').next().unwrap());
            self.mon.count(&t);
        }
        let ok = |v: Value| json!({"jsonrpc": "2.0", "result": v, "id": id});
        let err = |c: i64, m: &str| json!({"jsonrpc": "2.0", "error": {"code": c, "message": m}, "id": id});
        let mut plan = Plan { delay: 0, reply: Reply::Close, token: None };
        if self.mix.down || fault == Some(Fault::Close) {
            return plan;
        }
        if let Some(Fault::Http(c)) = fault {
            plan.reply = Reply::Http(c);
            return plan;
        }
        if let Some(Fault::Rpc(c)) = fault {
            plan.reply = Reply::Json(err(c, "injected error"));
            if method == "sendTransaction" {
                self.incoming(epoch, &p);
            }
            return plan;
        }
        if let Some(Fault::Garbage) = fault {
            plan.reply = Reply::Raw(["", "<html>busy</html>", "{\"jsonrpc\":\"2.0\"}", "[1,2", "null", "{\"result\":{\"context\":{\"slot\":\"x\"},\"value\":{}}}"][self.rng.idx(6)].to_string());
            return plan;
        }
        let (slot, _) = self.at(0);
        let value: Value = match method.as_str() {
            "getLatestBlockhash" => {
                let mut back = Self::back_of(&p[0]["commitment"]);
                if let Some(Fault::Old(n)) = fault {
                    back += n;
                }
                let s = slot.saturating_sub(back);
                let h = if fault == Some(Fault::BadHash) { "!!not-a-hash!!".to_string() } else { self.hash_of(s).to_string() };
                if fault != Some(Fault::BadHash) {
                    plan.token = Some(Token::Hash { epoch, slot: s });
                }
                json!({"context": {"slot": s, "apiVersion": "3.0.0"}, "value": {"blockhash": h, "lastValidBlockHeight": s + 150}})
            }
            "getSlot" | "getBlockHeight" => json!(slot),
            "getHealth" => json!("ok"),
            "getVersion" => json!({"solana-core": "3.0.0", "feature-set": 1}),
            "isBlockhashValid" => {
                let h: Option<solana_sdk::hash::Hash> = p[0].as_str().and_then(|s| s.parse().ok());
                json!({"context": {"slot": slot}, "value": h.is_some_and(|h| self.hash_ok(&h))})
            }
            "getProgramAccounts" => {
                let mut back = Self::back_of(&p[1]["commitment"]);
                if let Some(Fault::Stale(n)) = fault {
                    back += n;
                }
                let (s, sn) = self.at(back);
                let program: Option<Pubkey> = p[0].as_str().and_then(|x| x.parse().ok());
                let enc = p[1]["encoding"].as_str().unwrap_or("").to_string();
                let fl = filters(&p[1]["filters"]);
                let mut list = vec![];
                let n = self.mon.scan_started(epoch);
                let mut shown: BTreeMap<Pubkey, Acct> = BTreeMap::new();
                let mut bad = None;
                if program == Some(VRF) && fault != Some(Fault::Empty) {
                    for (k, a) in sn.iter() {
                        if !passes(&fl, &a.data) {
                            continue;
                        }
                        match account_json(a, &enc) {
                            Ok(v) => list.push(json!({"pubkey": k.to_string(), "account": v})),
                            Err(e) => bad = Some(e),
                        }
                        shown.insert(*k, a.clone());
                    }
                    if fault == Some(Fault::Odd) {
                        for _ in 0..1 + self.rng.below(4) {
                            let key = Pubkey::new_from_array(self.rng.b32());
                            let (d, owner) = match self.rng.below(5) {
                                0 => (vec![], VRF),
                                1 => (vec![3, 0, 0, 0, 0, 0, 0, 0], VRF),
                                2 => (self.fake_queue_data(), VRF),
                                3 => (self.corrupt_queue(), VRF),
                                _ => (self.fake_queue_data(), key),
                            };
                            let at = self.rng.idx(list.len() + 1);
                            list.insert(at, json!({"pubkey": key.to_string(), "account": account_json(&Acct { lamports: 5, data: d, owner, executable: false }, "base64").unwrap()}));
                        }
                        // and another program's account under one of our addresses
                        if self.rng.chance(1, 3) {
                            let own = self.mon.own_queues();
                            let key = *self.rng.pick(&own);
                            let d = self.fake_queue_data();
                            let owner = Pubkey::new_from_array(self.rng.b32());
                            list.push(json!({"pubkey": key.to_string(), "account": account_json(&Acct { lamports: 5, data: d, owner, executable: false }, "base64").unwrap()}));
                        }
                        // a corrupt image of an own queue in its place
                        if self.rng.chance(1, 3) {
                            let own = self.mon.own_queues();
                            let key = *self.rng.pick(&own);
                            list.retain(|x| x["pubkey"] != key.to_string());
                            shown.remove(&key);
                            let d = self.corrupt_queue();
                            self.mon.corrupt_shown(epoch, &key, &d, None);
                            list.push(json!({"pubkey": key.to_string(), "account": account_json(&Acct { lamports: 5, data: d, owner: VRF, executable: false }, "base64").unwrap()}));
                        }
                    }
                }
                if let Some(e) = bad {
                    plan.reply = Reply::Json(err(-32600, &e));
                    return plan;
                }
                for (k, a) in &shown {
                    self.mon.shown(epoch, k, a, None);
                }
                plan.token = Some(Token::Scan { epoch, n, snap: Arc::new(shown) });
                if p[1]["withContext"] == true {
                    json!({"context": {"slot": s}, "value": list})
                } else {
                    json!(list)
                }
            }
            "getAccountInfo" => {
                let k: Option<Pubkey> = p[0].as_str().and_then(|x| x.parse().ok());
                let enc = p[1]["encoding"].as_str().unwrap_or("").to_string();
                let v = match k.and_then(|k| self.svm.accts.get(&k)) {
                    Some(a) => match account_json(a, &enc) {
                        Ok(v) => v,
                        Err(e) => {
                            plan.reply = Reply::Json(err(-32600, &e));
                            return plan;
                        }
                    },
                    None => Value::Null,
                };
                json!({"context": {"slot": slot, "apiVersion": "3.0.0"}, "value": v})
            }
            "getMultipleAccounts" => {
                let enc = p[1]["encoding"].as_str().unwrap_or("").to_string();
                let mut list = vec![];
                for k in p[0].as_array().into_iter().flatten() {
                    let k: Option<Pubkey> = k.as_str().and_then(|x| x.parse().ok());
                    match k.and_then(|k| self.svm.accts.get(&k)).map(|a| account_json(a, &enc)) {
                        Some(Ok(v)) => list.push(v),
                        Some(Err(e)) => {
                            plan.reply = Reply::Json(err(-32600, &e));
                            return plan;
                        }
                        None => list.push(Value::Null),
                    }
                }
                if list.len() > 100 {
                    plan.reply = Reply::Json(err(-32602, "Too many inputs provided; max 100"));
                    return plan;
                }
                json!({"context": {"slot": slot, "apiVersion": "3.0.0"}, "value": list})
            }
            "getSignatureStatuses" => {
                let mut out = vec![];
                let mut good = vec![];
                for s in p[0].as_array().into_iter().flatten() {
                    let s = s.as_str().unwrap_or("").to_string();
                    let v = match (self.status.get(&s), &fault) {
                        (_, Some(Fault::Null)) | (None, _) => Value::Null,
                        (Some((at, e)), _) => {
                            let d = slot.saturating_sub(*at);
                            let cs = if d >= 32 {
                                "finalized"
                            } else if d >= 2 {
                                "confirmed"
                            } else {
                                "processed"
                            };
                            let st = match e {
                                None => {
                                    good.push(s.clone());
                                    json!({"Ok": null})
                                }
                                Some(x) => json!({"Err": x}),
                            };
                            json!({"slot": at, "confirmations": if d >= 32 { Value::Null } else { json!(d) }, "err": e, "status": st, "confirmationStatus": cs})
                        }
                    };
                    out.push(v);
                }
                self.seq += 1;
                let seq = self.seq;
                let sigs: Vec<String> = p[0].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(String::from)).collect();
                self.mon.status_asked(epoch, seq, &sigs);
                plan.token = Some(Token::Status { epoch, seq, ok: good });
                plan.delay = if self.slow > 0 { self.rng.below(self.slow) } else { 0 };
                json!({"context": {"slot": slot, "apiVersion": "3.0.0"}, "value": out})
            }
            "sendTransaction" => {
                let Some((t, sig)) = self.incoming(epoch, &p) else {
                    plan.reply = Reply::Json(err(-32602, "invalid transaction"));
                    return plan;
                };
                self.seq += 1;
                let seq = self.seq;
                self.mon.send_started(epoch, seq);
                plan.token = Some(Token::Send { epoch, seq });
                plan.delay = if self.slow > 0 { self.rng.below(self.slow) } else { 0 };
                let skip = p[1]["skipPreflight"].as_bool().unwrap_or(false);
                if !skip {
                    let e = match self.execute(&t, true) {
                        Ok(None) => None,
                        Ok(Some(e)) => Some((e.clone(), "Transaction simulation failed: Error processing Instruction".to_string())),
                        Err(e) => Some((json!("BlockhashNotFound"), format!("Transaction simulation failed: {e}"))),
                    };
                    if let Some((e, msg)) = e {
                        plan.reply = Reply::Json(json!({"jsonrpc": "2.0", "error": {"code": -32002, "message": msg, "data": {"err": e, "logs": [], "accounts": null, "unitsConsumed": 0, "returnData": null, "innerInstructions": null, "replacementBlockhash": null}}, "id": id}));
                        return plan;
                    }
                }
                let at = match fault {
                    Some(Fault::Late(n)) => Some(slot + n),
                    Some(Fault::Drop) => None,
                    Some(Fault::Fails) => {
                        self.status.insert(sig.clone(), (slot, Some(json!({"InstructionError": [1, {"Custom": 77}]}))));
                        None
                    }
                    _ => Some(0),
                };
                if let Some(at) = at {
                    self.mempool.push((at, t, sig.clone()));
                }
                if fault == Some(Fault::WrongSig) {
                    json!(bs58::encode([7u8; 64]).into_string())
                } else {
                    json!(sig)
                }
            }
            "requestAirdrop" => {
                self.mon.count("airdrops requested");
                json!(bs58::encode([9u8; 64]).into_string())
            }
            _ => {
                plan.reply = Reply::Json(err(-32601, "Method not found"));
                self.mon.count("unknown methods called");
                return plan;
            }
        };
        plan.reply = Reply::Json(ok(value));
        match fault {
            Some(Fault::Delay(n)) => plan.delay += n,
            Some(Fault::Lost) => plan.reply = Reply::Close,
            Some(Fault::Hang(n)) => {
                plan.delay = n;
                plan.reply = Reply::Hang;
            }
            Some(Fault::Truncated) => {
                if let Reply::Json(v) = plan.reply {
                    plan.reply = Reply::Cut(v);
                }
            }
            Some(Fault::Null) if method != "getSignatureStatuses" => plan.reply = Reply::Json(ok(Value::Null)),
            _ => {}
        }
        plan
    }
    /// A transaction arrives: log it, whatever happens to it next.
    fn incoming(&mut self, epoch: u32, p: &Value) -> Option<(Transaction, String)> {
        let s = p[0].as_str()?;
        let raw = match p[1]["encoding"].as_str() {
            Some("base64") => base64::engine::general_purpose::STANDARD.decode(s).ok()?,
            _ => bs58::decode(s).into_vec().ok()?,
        };
        let t: Transaction = bincode::deserialize(&raw).ok()?;
        let sig = t.signatures.first()?.to_string();
        let (slot, factor) = (self.svm.slot, self.factor);
        let told: Vec<u64> = self.mon.epoch(epoch).slots.iter().rev().map(|x| x.1).collect();
        let hash_slot = told.into_iter().find(|s| self.hash_of(*s) == t.message.recent_blockhash);
        self.mon.sent(epoch, &t, &sig, slot, factor, hash_slot);
        if self.submitted.len() < 50 {
            self.submitted.push((sig.clone(), t.clone()));
        }
        Some((t, sig))
    }
    pub fn done(&mut self, t: &Token) {
        match t {
            Token::Scan { epoch, n, snap } => {
                self.last_scan = Instant::now();
                self.mon.scan_answered(*epoch, *n, snap)
            }
            Token::Hash { epoch, slot } => self.mon.slot_told(*epoch, *slot),
            Token::Send { epoch, seq } => self.mon.send_answered(*epoch, *seq),
            Token::Status { epoch, seq, ok } => self.mon.status_answered(*epoch, *seq, ok),
        }
    }
}

// ------------------------------------------------------------------ servers

pub type Shared = Arc<Mutex<Node>>;

pub struct Server {
    pub port: u16,
    stop: Arc<AtomicBool>,
    conns: Arc<Mutex<Vec<TcpStream>>>,
    thread: Option<std::thread::JoinHandle<()>>,
}

/// A port outside the range the system hands out by itself.
/// A port below the ephemeral range; scenarios running side by side look in different places.
pub fn free_port() -> u16 {
    static NEXT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
    loop {
        let p = 10_000 + ((std::process::id().wrapping_mul(41) + NEXT.fetch_add(1, Ordering::Relaxed)) % 20_000) as u16;
        if TcpListener::bind(("127.0.0.1", p)).is_ok() && TcpListener::bind(("0.0.0.0", p)).is_ok() {
            return p;
        }
    }
}

impl Server {
    /// `None` when the port is taken.
    pub fn start(port: u16, node: Shared, talk: fn(TcpStream, Shared)) -> Option<Server> {
        let l = TcpListener::bind(("127.0.0.1", port)).ok()?;
        l.set_nonblocking(true).ok()?;
        let stop = Arc::new(AtomicBool::new(false));
        let conns: Arc<Mutex<Vec<TcpStream>>> = Arc::default();
        let (s2, c2) = (stop.clone(), conns.clone());
        let thread = std::thread::spawn(move || {
            while !s2.load(Ordering::Relaxed) {
                match l.accept() {
                    Ok((c, _)) => {
                        let _ = c.set_nonblocking(false);
                        let _ = c.set_nodelay(true);
                        if let Ok(d) = c.try_clone() {
                            let mut v = c2.lock().unwrap();
                            v.retain(|x| x.peer_addr().is_ok());
                            v.push(d);
                        }
                        let n = node.clone();
                        let end = c.try_clone();
                        std::thread::spawn(move || {
                            talk(c, n);
                            // other handles of it remain
                            if let Ok(e) = end {
                                let _ = e.shutdown(Shutdown::Both);
                            }
                        });
                    }
                    Err(_) => std::thread::sleep(Duration::from_millis(1)),
                }
            }
        });
        Some(Server { port, stop, conns, thread: Some(thread) })
    }
    /// Stop listening and cut every connection.
    pub fn stop(mut self) {
        self.stop.store(true, Ordering::Relaxed);
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
        for c in self.conns.lock().unwrap().drain(..) {
            let _ = c.shutdown(Shutdown::Both);
        }
    }
}

/// The first part of the path names the scenario: connections of another scenario's service are refused.
pub fn token() -> String {
    format!("s{}", std::process::id())
}

static ALIENS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
pub fn aliens() -> u32 {
    ALIENS.load(Ordering::Relaxed)
}
pub fn note_alien() {
    ALIENS.fetch_add(1, Ordering::Relaxed);
}
fn alien(path: &str) -> bool {
    let a = !path.starts_with(&format!("/{}/", token()));
    if a {
        note_alien();
    }
    a
}

fn epoch_of(path: &str) -> u32 {
    path.rsplit('/').next().and_then(|x| x.strip_prefix('e')).and_then(|x| x.parse().ok()).unwrap_or(0)
}

pub fn http_conn(mut c: TcpStream, node: Shared) {
    let mut buf: Vec<u8> = vec![];
    let mut tmp = [0u8; 16384];
    loop {
        // head
        let head_end = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break i + 4;
            }
            match c.read(&mut tmp) {
                Ok(0) | Err(_) => return,
                Ok(n) => buf.extend_from_slice(&tmp[..n]),
            }
        };
        let head = String::from_utf8_lossy(&buf[..head_end]).to_string();
        let path = head.split_whitespace().nth(1).unwrap_or("/").to_string();
        let len: usize = head.lines().find_map(|l| l.to_ascii_lowercase().strip_prefix("content-length:").map(|x| x.trim().parse().unwrap_or(0))).unwrap_or(0);
        while buf.len() < head_end + len {
            match c.read(&mut tmp) {
                Ok(0) | Err(_) => return,
                Ok(n) => buf.extend_from_slice(&tmp[..n]),
            }
        }
        if alien(&path) {
            return;
        }
        let body: Vec<u8> = buf[head_end..head_end + len].to_vec();
        buf.drain(..head_end + len);
        let req: Value = serde_json::from_slice(&body).unwrap_or(Value::Null);
        if req["method"] == "getProgramAccounts" {
            // keep a distance to notifications where the scenario asks for it
            loop {
                let n = node.lock().unwrap();
                let w = n.hold_scan_ms;
                if w == 0 || n.last_notify.elapsed() > Duration::from_millis(w) {
                    break;
                }
                drop(n);
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        let plan = node.lock().unwrap().handle(epoch_of(&path), &req);
        if plan.delay > 0 {
            std::thread::sleep(Duration::from_millis(plan.delay));
        }
        let send = |c: &mut TcpStream, code: u16, text: &str, full: bool| {
            let b = if full { text } else { &text[..text.len() / 2] };
            let r = match code {
                200 => "OK",
                429 => "Too Many Requests",
                _ => "Error",
            };
            c.write_all(format!("HTTP/1.1 {code} {r}\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{b}", text.len()).as_bytes())
        };
        let token = plan.token;
        let mark = |full: bool| {
            if let (Some(t), true) = (&token, full) {
                node.lock().unwrap().done(t);
            } else if let Some(t @ (Token::Send { .. } | Token::Status { .. })) = &token {
                // the caller cannot have learnt anything, but the call is over
                match t {
                    Token::Status { epoch, seq, .. } => node.lock().unwrap().mon.status_answered(*epoch, *seq, &[]),
                    _ => node.lock().unwrap().done(t),
                }
            }
        };
        match plan.reply {
            Reply::Json(v) => {
                mark(true);
                let text = v.to_string();
                // news meets the answer to a scan on its way into the service
                let mut news = None;
                if req["method"] == "getProgramAccounts" {
                    let mut n = node.lock().unwrap();
                    if n.echo && !n.echo_keys.is_empty() {
                        news = Some(n.rng.below(9000) as i64 - 2000);
                    }
                }
                if let Some(d @ ..=-1) = news {
                    node.lock().unwrap().echo_now();
                    std::thread::sleep(Duration::from_micros(-d as u64));
                }
                let ok = send(&mut c, 200, &text, true);
                if let Some(d @ 0..) = news {
                    std::thread::sleep(Duration::from_micros(d as u64));
                    node.lock().unwrap().echo_now();
                }
                if ok.is_err() {
                    return;
                }
            }
            Reply::Raw(s) => {
                mark(false);
                if send(&mut c, 200, &s, true).is_err() {
                    return;
                }
            }
            Reply::Http(code) => {
                mark(false);
                if send(&mut c, code, "busy", true).is_err() {
                    return;
                }
            }
            Reply::Cut(v) => {
                mark(false);
                let _ = send(&mut c, 200, &v.to_string(), false);
                let _ = c.shutdown(Shutdown::Both);
                return;
            }
            Reply::Close | Reply::Hang => {
                mark(false);
                let _ = c.shutdown(Shutdown::Both);
                return;
            }
        }
    }
}

/// Counts an open connection to the source of updates.
pub struct Link(Shared, u32);
impl Link {
    pub fn new(node: &Shared, epoch: u32) -> Link {
        *node.lock().unwrap().mon.links.entry(epoch).or_default() += 1;
        Link(node.clone(), epoch)
    }
}
impl Drop for Link {
    fn drop(&mut self) {
        if let Ok(mut n) = self.0.lock() {
            *n.mon.links.entry(self.1).or_default() -= 1;
        }
    }
}

pub fn ws_conn(c: TcpStream, node: Shared) {
    use tungstenite::handshake::server::{ErrorResponse, Request, Response};
    use tungstenite::Message;
    let raw = c.try_clone().ok();
    let (refuse, bad) = {
        let mut n = node.lock().unwrap();
        let m = n.mix.clone();
        let r = n.rng.chance((m.ws_refuse * 1000.0) as u64, 1000) || m.down;
        let b = n.rng.chance((m.ws_bad_reply * 1000.0) as u64, 1000);
        if r {
            n.mon.count("fault: subscription refused");
        } else if b {
            n.mon.count("fault: bad reply to a subscription");
        }
        (r, if b { Some(n.rng.below(4)) } else { None })
    };
    let mut path = String::new();
    let mode = node.lock().unwrap().rng.below(2);
    let cb = |r: &Request, resp: Response| -> Result<Response, ErrorResponse> {
        path = r.uri().path().to_string();
        if refuse && mode == 0 {
            let mut e = ErrorResponse::new(None);
            *e.status_mut() = tungstenite::http::StatusCode::SERVICE_UNAVAILABLE;
            return Err(e);
        }
        Ok(resp)
    };
    if refuse && mode == 1 {
        return;
    }
    let Ok(mut ws) = tungstenite::accept_hdr(c, cb) else { return };
    if alien(&path) {
        return;
    }
    let epoch = epoch_of(&path);
    let _link = Link::new(&node, epoch);
    let Ok(msg) = ws.read() else { return };
    let Ok(req) = serde_json::from_str::<Value>(&msg.into_text().unwrap_or_default()) else { return };
    if let Some(k) = bad {
        let s = match k {
            0 => json!({"jsonrpc": "2.0", "error": {"code": -32603, "message": "injected"}, "id": req["id"]}).to_string(),
            1 => "nonsense".into(),
            2 => return,
            _ => json!({"jsonrpc": "2.0", "result": "abc", "id": req["id"]}).to_string(),
        };
        let _ = ws.send(Message::Text(s));
        return;
    }
    let (tx, rx) = mpsc::channel();
    {
        let mut n = node.lock().unwrap();
        n.nsub += 1;
        let id = n.nsub;
        let ok = req["method"] == "programSubscribe" && req["params"][0] == VRF.to_string();
        let fl = if ok { filters(&req["params"][1]["filters"]) } else { vec![Filter::Never] };
        if ws.send(Message::Text(json!({"jsonrpc": "2.0", "result": id, "id": req["id"]}).to_string())).is_err() {
            return;
        }
        let mute = n.mix.ws_mute;
        n.subs.push(Sub { epoch, out: tx, filters: fl, n: id, mute });
        n.mon.count("subscriptions accepted");
    }
    let mut last = Instant::now();
    loop {
        match rx.recv_timeout(Duration::from_millis(100)) {
            Ok(WsOut::Text(s, d)) => {
                if d > 0 {
                    std::thread::sleep(Duration::from_millis(d));
                }
                if ws.send(Message::Text(s)).is_err() {
                    return;
                }
            }
            Ok(WsOut::Cut) => {
                if let Some(r) = raw {
                    let _ = r.shutdown(Shutdown::Both);
                }
                return;
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                if last.elapsed() > Duration::from_secs(1) {
                    last = Instant::now();
                    if ws.send(Message::Ping(vec![])).is_err() {
                        return;
                    }
                }
            }
            Err(_) => return,
        }
    }
}
