//! The online monitor of everything the oracle service sends to the node.
use crate::node::{budget, instructions, Snap, BUDGET};
use solana_program::pubkey::Pubkey;
use solana_sdk::transaction::Transaction;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::time::{Duration, Instant};
use vrfmon::layout::*;
use vrfmon::refvrf;
use vrfmon::svm::Acct;
use vrfmon::util::short;

pub type Req = (Pubkey, [u8; 32]);

#[derive(Clone)]
pub struct Violation {
    pub props: Vec<&'static str>,
    pub kind: String,
    pub msg: String,
}

pub struct Known {
    pub entry: Entry,
    pub ever_absent: bool,
    /// the first scan of an uninterrupted series of full scans without it
    pub gone_since: Option<u64>,
    pub after_gone: u32,
    pub sends: u32,
    pub first_send: Option<Instant>,
}

/// What one service process was told and did.
pub struct Epoch {
    pub known: HashMap<Req, Known>,
    pub scans: u64,
    pub scans_ok: u64,
    pub scan_at: Vec<Instant>,
    pub slots: Vec<(Instant, u64)>,
    pub tainted: bool,
    pub open_sends: HashMap<u64, (Option<Req>, Instant)>,
    pub open_status: HashMap<u64, (Vec<String>, Instant)>,
    pub sigs: HashMap<String, Req>,
    pub deliveries: Vec<Delivery>,
    pub provides: u64,
    pub purges: u64,
    pub confirmed: BTreeSet<[u8; 32]>,
    pub started: Instant,
    /// images in scans: when handed out, when the answer was sent, what they held
    images: Vec<(u64, Instant, Option<Instant>, Pubkey, BTreeSet<[u8; 32]>)>,
    last_req: Option<Req>,
}
#[derive(Clone)]
pub struct Delivery {
    pub at: Instant,
    pub queue: Pubkey,
    /// slot of the notification, none for a scan
    pub slot: Option<u64>,
    pub ids: BTreeMap<[u8; 32], u64>,
}
impl Epoch {
    fn new() -> Epoch {
        Epoch {
            known: HashMap::new(),
            scans: 0,
            scans_ok: 0,
            scan_at: vec![],
            slots: vec![],
            tainted: false,
            open_sends: HashMap::new(),
            open_status: HashMap::new(),
            sigs: HashMap::new(),
            deliveries: vec![],
            provides: 0,
            purges: 0,
            confirmed: BTreeSet::new(),
            started: Instant::now(),
            images: vec![],
            last_req: None,
        }
    }
}

pub struct Monitor {
    pub me: Pubkey,
    pub pk: [u8; 32],
    pub queues: BTreeMap<Pubkey, u8>,
    pub epochs: HashMap<u32, Epoch>,
    pub counters: BTreeMap<String, u64>,
    pub found: Vec<Violation>,
    pub log: Vec<String>,
    pub t0: Instant,
    pub factor: u64,
    pub judge: bool,
    /// open connections of each process to the source of updates
    pub links: HashMap<u32, u32>,
    /// until when the service may be far behind what it is told, because the machine is busy
    pub slow_until: Option<Instant>,
}

impl Monitor {
    pub fn new(me: Pubkey, pk: [u8; 32], queues: BTreeMap<Pubkey, u8>, factor: u64) -> Monitor {
        Monitor { me, pk, queues, epochs: HashMap::new(), counters: BTreeMap::new(), found: vec![], log: vec![], t0: Instant::now(), factor, judge: true, links: HashMap::new(), slow_until: None }
    }
    pub fn count(&mut self, k: &str) {
        *self.counters.entry(k.to_string()).or_default() += 1;
    }
    pub fn own_queues(&self) -> Vec<Pubkey> {
        self.queues.keys().copied().collect()
    }
    pub fn own_indices(&self) -> Vec<u8> {
        self.queues.values().copied().collect()
    }
    pub fn say(&mut self, s: String) {
        if self.log.len() < 4000 {
            self.log.push(format!("{:8.3} {s}", self.t0.elapsed().as_secs_f64()));
        }
    }
    fn bad(&mut self, props: &[&'static str], kind: &str, msg: String) {
        self.say(format!("VIOLATION {kind}: {msg}"));
        if self.found.len() < 40 {
            self.found.push(Violation { props: props.to_vec(), kind: kind.into(), msg });
        }
    }
    fn slow(&mut self) -> bool {
        let s = self.slow_until.is_some_and(|x| Instant::now() < x);
        if s {
            self.count("transactions judged mildly while the machine was overloaded");
        }
        s
    }
    pub fn epoch(&mut self, e: u32) -> &mut Epoch {
        self.epochs.entry(e).or_insert_with(Epoch::new)
    }

    // ------------------------------------------------ what the service is told

    /// An image of an account is about to be delivered.
    pub fn shown(&mut self, epoch: u32, k: &Pubkey, a: &Acct, slot: Option<u64>) {
        if !self.queues.contains_key(k) || a.owner != VRF {
            return;
        }
        let Ok(v) = parse_queue(&a.data) else { return };
        self.count(if slot.is_some() { "notifications sent" } else { "queue images in scans" });
        let ids: BTreeMap<[u8; 32], u64> = v.entries.iter().map(|e| (e.id, e.slot)).collect();
        let line = format!("show e{epoch} {} queue {} {:?}", slot.map_or("scan".into(), |s| format!("note@{s}")), self.queues[k], ids.keys().map(|x| hex4(x)).collect::<Vec<_>>());
        self.say(line);
        let ep = self.epoch(epoch);
        if slot.is_none() {
            let n = ep.scans;
            ep.images.push((n, Instant::now(), None, *k, ids.keys().copied().collect()));
        }
        ep.images.retain(|x| x.2.map_or(x.1.elapsed() < Duration::from_secs(4), |t| t.elapsed() < Duration::from_millis(600)));
        // notifications sent before a scan may be looked at after it
        let before: Vec<BTreeSet<[u8; 32]>> = match slot {
            None => ep.deliveries.iter().rev().take_while(|d| d.at.elapsed() < Duration::from_millis(500)).filter(|d| d.queue == *k && d.slot.is_some()).map(|d| d.ids.keys().copied().collect()).collect(),
            _ => vec![],
        };
        for e in v.entries {
            // an older image without it may still be on its way
            let overtakes = ep.images.iter().any(|x| x.3 == *k && !x.4.contains(&e.id));
            let n = ep.known.entry((*k, e.id)).or_insert_with(|| Known { entry: e.clone(), ever_absent: overtakes, gone_since: None, after_gone: 0, sends: 0, first_send: None });
            n.gone_since = None;
            n.after_gone = 0;
            if n.sends == 0 && before.iter().any(|x| !x.contains(&e.id)) {
                n.ever_absent = true;
            }
        }
        for ((q, id), n) in ep.known.iter_mut() {
            if q == k && !ids.contains_key(id) {
                n.ever_absent = true;
            }
        }
        ep.deliveries.push(Delivery { at: Instant::now(), queue: *k, slot, ids });
    }
    /// A broken image of an own queue is delivered: unknown requests may follow.
    pub fn corrupt_shown(&mut self, epoch: u32, k: &Pubkey, _data: &[u8], _slot: Option<u64>) {
        self.count("corrupt images of own queues delivered");
        let ep = self.epoch(epoch);
        ep.tainted = true;
        for ((q, _), n) in ep.known.iter_mut() {
            if q == k {
                n.ever_absent = true;
            }
        }
    }
    pub fn scan_started(&mut self, epoch: u32) -> u64 {
        self.count("scans served");
        let ep = self.epoch(epoch);
        ep.scans += 1;
        ep.scan_at.push(Instant::now());
        ep.scans
    }
    pub fn scan_answered(&mut self, epoch: u32, n: u64, snap: &Snap) {
        let queues = self.queues.clone();
        let ep = self.epoch(epoch);
        ep.scans_ok += 1;
        for x in ep.images.iter_mut().filter(|x| x.0 == n) {
            x.2 = Some(Instant::now());
        }
        for q in queues.keys() {
            let Some(a) = snap.get(q) else { continue };
            let Ok(v) = parse_queue(&a.data) else { continue };
            let ids: BTreeSet<[u8; 32]> = v.entries.iter().map(|e| e.id).collect();
            for ((kq, id), k) in ep.known.iter_mut() {
                if kq == q && !ids.contains(id) && k.gone_since.is_none() {
                    k.gone_since = Some(n);
                }
            }
        }
    }
    pub fn slot_told(&mut self, epoch: u32, slot: u64) {
        self.epoch(epoch).slots.push((Instant::now(), slot));
    }
    pub fn status_asked(&mut self, epoch: u32, seq: u64, sigs: &[String]) {
        let s = sigs.to_vec();
        self.epoch(epoch).open_status.insert(seq, (s, Instant::now()));
    }
    pub fn status_answered(&mut self, epoch: u32, seq: u64, ok: &[String]) {
        let ep = self.epoch(epoch);
        ep.open_status.remove(&seq);
        for s in ok {
            if let Some((_, id)) = ep.sigs.get(s) {
                ep.confirmed.insert(*id);
            }
        }
    }
    pub fn send_started(&mut self, epoch: u32, seq: u64) {
        let ep = self.epoch(epoch);
        let r = ep.last_req.take();
        ep.open_sends.insert(seq, (r, Instant::now()));
    }
    pub fn send_answered(&mut self, epoch: u32, seq: u64) {
        self.epoch(epoch).open_sends.remove(&seq);
    }
    pub fn landed(&mut self, t: &Transaction, ok: bool, slot: u64) {
        self.count(if ok { "transactions landed" } else { "transactions failed on chain" });
        let s = format!("land {} at {slot}: {}", t.signatures[0].to_string().get(..6).unwrap_or(""), if ok { "ok" } else { "failed" });
        self.say(s);
    }

    // ---------------------------------------------------- what the service does

    pub fn sent(&mut self, epoch: u32, t: &Transaction, sig: &str, slot: u64, factor: u64, hash_slot: Option<u64>) {
        if !self.judge {
            return;
        }
        self.count("transactions received");
        self.epoch(epoch).last_req = None;
        let me = self.me;
        if t.verify().is_err() {
            return self.bad(&["C28"], "a transaction is not validly signed", format!("{t:?}"));
        }
        let Some(ixs) = instructions(t) else {
            return self.bad(&["C28"], "a transaction is malformed", format!("{t:?}"));
        };
        if t.message.account_keys[0] != me || t.message.header.num_required_signatures != 1 {
            self.bad(&["C28"], "a transaction is not signed and paid by the identity alone", format!("payer {}", t.message.account_keys[0]));
        }
        let real: Vec<_> = ixs.iter().filter(|i| i.program_id != BUDGET).collect();
        if real.len() != 1 || real[0].program_id != VRF || real[0].data.len() < 8 {
            return self.bad(&["C28"], "a transaction holds something other than one answer", format!("{ixs:?}"));
        }
        let ix = real[0];
        let units = budget(&ixs);
        match ix.data[0] {
            4 if ix.data.len() == 8 + 160 => self.provided(epoch, ix, sig, slot, factor, hash_slot, units),
            9 if ix.data.len() == 9 => self.purged(epoch, ix, slot),
            _ => self.bad(&["C28"], "a transaction is neither a fulfilment nor a purge", format!("{:?}", ix.data)),
        }
    }

    fn provided(&mut self, epoch: u32, ix: &solana_program::instruction::Instruction, sig: &str, slot: u64, factor: u64, hash_slot: Option<u64>, units: u64) {
        self.count("fulfilments received");
        let f = |i: usize| -> [u8; 32] { ix.data[8 + 32 * i..40 + 32 * i].try_into().unwrap() };
        let id = f(0);
        let q = ix.accounts.get(3).map(|a| a.pubkey).unwrap_or_default();
        let me = self.me;
        let line = format!("send e{epoch} provide {} queue {:?} slot {slot}", hex4(&id), self.queues.get(&q));
        self.say(line);
        let pk = self.pk;
        if !refvrf::verify(&pk, &id, &f(1), &f(2), &f(3), &f(4)) {
            self.bad(&["C28", "C27"], "a fulfilment carries an invalid proof", format!("id {}", hex4(&id)));
        }
        if !self.queues.contains_key(&q) {
            return self.bad(&["C28"], "a fulfilment is sent for something that is not an own queue", format!("{q}"));
        }
        let now = Instant::now();
        let limit = Duration::from_millis(16_000 / factor.max(1));
        let slow = self.slow();
        let ep = self.epoch(epoch);
        ep.provides += 1;
        let tainted = ep.tainted;
        let Some(k) = ep.known.get_mut(&(q, id)) else {
            if !tainted {
                self.bad(&["C28", "C30"], "a fulfilment is sent for a request that was never pending", format!("id {}", hex4(&id)));
            }
            return;
        };
        k.sends += 1;
        k.first_send.get_or_insert(now);
        let e = k.entry.clone();
        let mut notes: Vec<(&'static [&'static str], &'static str, String)> = vec![];
        // assembled correctly?
        let want = vrfmon::ixs::provide(me, q, &id, &refvrf::Proof { out: f(1), cb: f(2), ch: f(3), s: f(4) }, e.program, &e.metas);
        let simple = |x: &solana_program::instruction::Instruction| x.accounts.iter().map(|a| a.pubkey).collect::<Vec<_>>();
        let mut writable: HashMap<Pubkey, bool> = HashMap::new();
        for a in &want.accounts {
            *writable.entry(a.pubkey).or_default() |= a.is_writable;
        }
        if simple(&want) != simple(ix) || want.data != ix.data || ix.accounts.iter().any(|a| a.is_writable != writable.get(&a.pubkey).copied().unwrap_or(false) || a.is_signer != (a.pubkey == me)) {
            notes.push((&["C28", "C27"], "a fulfilment is assembled wrongly", format!("wanted {:?} got {:?}", want.accounts, ix.accounts)));
        }
        // enough compute units for the callback?
        let granted = if e.prio == 1 { 300_000 } else { 180_000 };
        if units < granted {
            notes.push((&["C28"], "a fulfilment allows too little computation", format!("id {}: {units} units instead of {granted}, priority {}", hex4(&id), e.prio)));
        }
        // already gone?
        if let (Some(g), false) = (k.gone_since, tainted || slow) {
            if ep.scans >= g + 2 {
                k.after_gone += 1;
                if k.after_gone > 1 {
                    notes.push((&["C28"], "answers keep being sent for a request known to be gone", format!("id {} absent since scan {g}, now in scan {}", hex4(&id), ep.scans)));
                }
            }
        }
        // only one at a time
        if !k.ever_absent && !tainted && !slow {
            for (r, at) in ep.open_sends.values() {
                if *r == Some((q, id)) && now.duration_since(*at) < limit {
                    notes.push((&["C28"], "two answers to one request at the same time", format!("id {}: another transaction for it is still being submitted", hex4(&id))));
                }
            }
            for (s, at) in ep.open_status.values() {
                if s.iter().any(|s| ep.sigs.get(s) == Some(&(q, id))) && now.duration_since(*at) < limit {
                    notes.push((&["C28"], "two answers to one request at the same time", format!("id {}: another transaction for it is being confirmed", hex4(&id))));
                }
            }
        }
        ep.sigs.insert(sig.to_string(), (q, id));
        ep.last_req = Some((q, id));
        // young enough?
        let view = |ms: u64| {
            let i = ep.slots.partition_point(|x| now.duration_since(x.0) > Duration::from_millis(ms));
            &ep.slots[i.saturating_sub(1)..]
        };
        let old = |s: u64| s.saturating_sub(e.slot) > TTL;
        let all_old = |v: &[(Instant, u64)]| !v.is_empty() && v.iter().all(|x| old(x.1));
        // the slot that came with the blockhash of the transaction says when it was built
        let by_hash = hash_slot.is_none_or(old);
        let view = if by_hash { view(2500) } else { view(7000) };
        if !tainted && all_old(view) && (hash_slot.is_some_and(old) || !slow) {
            notes.push((&["C29"], "a fulfilment is sent for an expired request", format!("id {} of slot {}, the node said {:?}", hex4(&id), e.slot, view.iter().map(|x| x.1).collect::<Vec<_>>())));
        }
        if e.slot + TTL >= slot {
            self.count("fulfilments of live requests");
        }
        if e.slot + TTL == slot {
            self.count("fulfilments in the last slot before expiry");
        }
        for (p, a, b) in notes {
            self.bad(p, a, b);
        }
    }

    fn purged(&mut self, epoch: u32, ix: &solana_program::instruction::Instruction, slot: u64) {
        self.count("purges received");
        let me = self.me;
        let idx = ix.data[8];
        let line = format!("send e{epoch} purge queue {idx} slot {slot}");
        self.say(line);
        let q = queue_key(&me, idx);
        let want = vrfmon::ixs::purge(me, idx);
        if !self.queues.contains_key(&q) || ix.accounts.iter().map(|a| a.pubkey).ne(want.accounts.iter().map(|a| a.pubkey)) {
            return self.bad(&["C28", "C29"], "a purge is not for an own queue", format!("index {idx}, accounts {:?}", ix.accounts));
        }
        let slow = self.slow();
        let ep = self.epoch(epoch);
        ep.purges += 1;
        if ep.tainted || slow {
            return;
        }
        let top = ep.slots.iter().map(|x| x.1).max().unwrap_or(0);
        let expired = ep.known.iter().any(|((kq, _), k)| *kq == q && top.saturating_sub(k.entry.slot) > TTL && k.gone_since.is_none_or(|g| ep.scans < g + 3));
        if !expired {
            let all: Vec<u64> = ep.known.iter().filter(|((kq, _), k)| *kq == q && k.gone_since.is_none()).map(|(_, k)| k.entry.slot).collect();
            self.bad(&["C29", "C28"], "a purge is sent although nothing has expired", format!("queue {idx}: pending since slots {all:?}, the node said at most {top}"));
        } else {
            self.count("purges of expired requests");
            if ep_exact(self.epochs.get(&epoch).unwrap(), &q, slot) {
                self.count("purges in the first slot after expiry");
            }
        }
    }
}

fn ep_exact(ep: &Epoch, q: &Pubkey, slot: u64) -> bool {
    ep.known.iter().any(|((kq, _), k)| kq == q && k.entry.slot + TTL + 1 == slot)
}
pub fn hex4(id: &[u8; 32]) -> String {
    id[..4].iter().map(|b| format!("{b:02x}")).collect()
}
#[allow(dead_code)]
pub fn name(k: &Pubkey) -> String {
    short(k)
}
