//! Workload: long random histories of honest, careless and hostile use, with
//! boundary-seeking choices of slots, sizes, accounts and nesting.
use crate::ixs;
use crate::layout::*;
use crate::refvrf;
use crate::svm::*;
use crate::util::Rng;
use crate::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

pub const NOPS: usize = 20;
pub const OP_WARP: usize = 0;
pub const OP_REGISTER: usize = 1;
pub const OP_REMOVE: usize = 2;
pub const OP_INITQ: usize = 3;
pub const OP_REQUEST: usize = 4;
pub const OP_PROVIDE: usize = 5;
pub const OP_BADPROVIDE: usize = 6;
pub const OP_PURGE: usize = 7;
pub const OP_CLOSE: usize = 8;
pub const OP_DELEGATE: usize = 9;
pub const OP_SESSION: usize = 10;
pub const OP_SETTLE: usize = 11;
pub const OP_DONATE: usize = 12;
pub const OP_MUTATE: usize = 13;
pub const OP_ATTACK: usize = 14;
pub const OP_BUNDLE: usize = 15;
pub const OP_AUTHORITY: usize = 16;
pub const OP_BEHAVE: usize = 17;
pub const OP_FILL: usize = 18;
pub const OP_DRAIN: usize = 19;

#[derive(Clone, Copy)]
pub struct Profile {
    pub w: [u32; NOPS],
    pub big: bool,
    pub min_queue: u32,
    pub max_queue: u32,
}

pub fn profile(name: &str) -> Profile {
    //                  war reg rem ini req pro bad pur clo del ses set don mut att bun aut beh fil dra
    let base: [u32; NOPS] = [14, 4, 2, 6, 20, 16, 6, 7, 4, 2, 6, 2, 3, 16, 6, 6, 1, 2, 2, 2];
    let mut p = Profile { w: base, big: false, min_queue: 24, max_queue: 3000 };
    match name {
        "mixed" | "scale-queues" | "scale-oracles" | "scale-requests" => {}
        "registry" => {
            p.w = [16, 14, 12, 8, 4, 3, 1, 2, 6, 1, 0, 1, 6, 20, 8, 4, 4, 1, 0, 0];
        }
        "hostile" => {
            p.w = [8, 3, 2, 4, 10, 6, 14, 4, 2, 2, 4, 2, 3, 45, 30, 4, 1, 2, 1, 1];
        }
        "queue" => {
            p.w = [10, 0, 0, 2, 40, 26, 1, 10, 2, 0, 0, 0, 1, 2, 0, 10, 0, 1, 8, 6];
        }
        "expiry" => {
            p.w = [30, 0, 0, 2, 34, 6, 1, 24, 4, 1, 4, 1, 1, 4, 1, 6, 0, 1, 3, 2];
        }
        "session" => {
            p.w = [10, 1, 1, 4, 14, 8, 2, 4, 3, 14, 30, 12, 2, 10, 6, 3, 0, 1, 1, 1];
        }
        "lifecycle" => {
            p.w = [22, 8, 10, 26, 6, 3, 1, 5, 18, 4, 3, 4, 8, 10, 8, 4, 0, 1, 1, 2];
            p.big = true;
            p.max_queue = 45_000;
        }
        "callback" => {
            p.w = [14, 0, 0, 2, 26, 30, 8, 4, 1, 0, 2, 0, 1, 8, 4, 4, 0, 14, 0, 0];
        }
        _ => panic!("profile {name}"),
    }
    p
}

pub struct Engine {
    pub w: World,
    pub p: Profile,
    /// proofs seen so far: (oracle index, input, proof)
    pub seen: Vec<(usize, [u8; 32], [Vec<u8>; 4])>,
    pub consumed: Vec<(Pubkey, Entry)>,
}

impl Engine {
    pub fn new(seed: u64, p: Profile) -> Engine {
        Engine::make(seed, p, false)
    }
    /// `twin`: also run what the real client builders make
    pub fn make(seed: u64, p: Profile, twin: bool) -> Engine {
        let mut r = Rng::new(seed ^ 0xabcdef);
        let mut w = World::new(seed, 2 + r.idx(3));
        w.twin = twin;
        let mut e = Engine { w, p, seen: vec![], consumed: vec![] };
        e.bootstrap();
        e
    }

    pub fn user(&mut self) -> Pubkey {
        let i = self.w.rng.idx(self.w.users.len());
        self.w.users[i]
    }
    pub fn index(&mut self) -> u8 {
        let i = self.w.rng.idx(3);
        self.w.indices[i]
    }
    pub fn prog(&mut self) -> Pubkey {
        if self.w.rng.chance(1, 8) {
            return self.w.evil;
        }
        let i = self.w.rng.idx(self.w.progs.len());
        self.w.progs[i]
    }
    pub fn oracle(&mut self) -> OracleKey {
        let i = self.w.rng.idx(self.w.oracles.len());
        self.w.oracles[i].clone()
    }
    pub fn oracle_by(&self, k: &Pubkey) -> Option<OracleKey> {
        self.w.oracles.iter().find(|o| o.key == *k).cloned()
    }
    pub fn usable(&self, er: bool) -> Vec<(Pubkey, Pubkey, u8)> {
        let c = if er { &self.w.er } else { &self.w.base };
        c.ghost.queues.iter().filter(|(_, q)| q.usable && !q.delegated).map(|(k, q)| (*k, q.oracle, q.index)).collect()
    }
    pub fn usable_one(&mut self, er: bool) -> Option<(Pubkey, Pubkey, u8)> {
        let v = self.usable(er);
        if v.is_empty() {
            return None;
        }
        Some(v[self.w.rng.idx(v.len())])
    }
    pub fn slot(&self, er: bool) -> u64 {
        if er {
            self.w.er.svm.slot
        } else {
            self.w.base.svm.slot
        }
    }
    pub fn pend(&self, er: bool, q: &Pubkey) -> Vec<Entry> {
        let c = if er { &self.w.er } else { &self.w.base };
        c.ghost.queues.get(q).map(|g| g.pending.clone()).unwrap_or_default()
    }

    fn bootstrap(&mut self) {
        if self.w.rng.chance(1, 6) {
            let l = 1 + self.w.rng.below(3_000_000);
            self.donate(&oracles_key(), l);
        }
        let u = self.user();
        self.w.run(false, vec![ixs::initialize(u)], "initialize");
        for i in 0..self.w.oracles.len() {
            if i == 0 || self.w.rng.chance(3, 4) {
                let o = self.w.oracles[i].clone();
                let a = self.w.admin;
                self.w.run(false, vec![ixs::modify(a, o.key, o.pk, 0)], "register oracle");
            }
        }
        self.w.base.svm.warp(200);
        for i in 0..self.w.oracles.len() {
            if self.w.base.ghost.recs.contains_key(&self.w.oracles[i].key) && self.w.rng.chance(4, 5) {
                let o = self.w.oracles[i].clone();
                let size = self.queue_size();
                let u = self.user();
                let mut idx = self.index();
                if i == 0 && free_variant() && self.w.rng.chance(5, 6) {
                    idx = 0;
                }
                self.init_full(u, &o, idx, size);
            }
        }
        for _ in 0..3 {
            self.behave();
        }
        // an injected default ephemeral queue (fee-free)
        if !free_variant() && self.w.rng.chance(1, 3) {
            let d = build_queue(0, 2000, &[]);
            let a = Acct { lamports: rent_min(d.len()), data: d, owner: VRF, executable: false };
            self.w.plant(false, DEFAULT_EPHEMERAL_QUEUE, a);
            self.w.base.ghost.queues.insert(DEFAULT_EPHEMERAL_QUEUE, GhostQueue { oracle: Pubkey::new_from_array([9; 32]), index: 0, pending: vec![], usable: true, delegated: false });
        }
    }

    pub fn queue_size(&mut self) -> u32 {
        let r = &mut self.w.rng;
        match r.below(6) {
            0 => *r.pick(&[24u32, 25, 31, 32, 120, 121, 128, 232, 9500]),
            1 if self.p.big => *r.pick(&[10_240u32, 10_241, 20_480, 20_481, 30_720, 30_721, 40_000]),
            2 => 8 + 16 + 96 * (1 + r.below(6) as u32) + r.below(64) as u32,
            _ => self.p.min_queue + r.below((self.p.max_queue - self.p.min_queue) as u64) as u32,
        }
    }

    pub fn init_full(&mut self, payer: Pubkey, o: &OracleKey, idx: u8, size: u32) {
        let n = size.div_ceil(10_240).max(1);
        let v: Vec<Instruction> = (0..n).map(|_| ixs::init_queue(payer, o.key, idx, size)).collect();
        self.w.run(false, v, "open queue");
    }

    pub fn donate(&mut self, to: &Pubkey, l: u64) {
        let u = self.user();
        let ix = solana_system_interface::instruction::transfer(&u, to, l);
        self.w.run(false, vec![ix], "donate lamports");
    }

    pub fn behave(&mut self) {
        let p = self.prog();
        let st: Vec<Pubkey> = self.w.state_accts.clone();
        let mine = st.iter().find(|k| self.w.base.svm.get(k).owner == p).copied().unwrap_or(st[0]);
        let u = self.user();
        let a = match self.w.rng.below(10) {
            0 | 1 | 2 => vec![],
            3 | 4 => vec![Act::Touch],
            5 => vec![Act::CreditAll(mine), Act::Touch],
            6 => vec![Act::StealSigners(u)],
            7 => vec![Act::Fail],
            8 => vec![Act::Panic],
            _ => {
                // re-enter the program, or change its accounts directly
                let v = self.usable(false);
                match v.first() {
                    Some((q, o, i)) => match self.w.rng.below(4) {
                        0 => vec![Act::Cpi(ixs::purge(*o, *i), vec![])],
                        1 => vec![Act::Data(*q, vec![0; 64])],
                        2 => vec![Act::Move(*q, mine, 1)],
                        _ => vec![Act::Assign(*q, SYSTEM)],
                    },
                    None => vec![],
                }
            }
        };
        set_behaviour(p, a);
    }

    pub fn gen_request(&mut self, er: bool, q: &Pubkey) -> Request {
        let program = self.prog();
        let st = self.w.state_accts.clone();
        let us = self.w.users.clone();
        let os: Vec<Pubkey> = self.w.oracles.iter().map(|o| o.key).collect();
        let room = {
            let c = if er { &self.w.er } else { &self.w.base };
            parse_queue(c.svm.data(q)).map(|v| v.len.saturating_sub(v.used_end)).unwrap_or(0)
        };
        let small = self.w.rng.chance(1, 2);
        let r = &mut self.w.rng;
        let dl = match r.below(12) {
            0 => 0,
            1 => r.idx(8),
            2 => 9 + r.idx(4),
            _ => 8,
        };
        let nm = match r.below(if small { 24 } else { 16 }) {
            0 => 20,
            1 => 21,
            2 => r.idx(20),
            _ => r.idx(4),
        };
        let mut metas = vec![];
        for _ in 0..nm {
            let k = match r.below(20) {
                0 => *q,
                1 => SYSTEM,
                2 => VRF_IDENTITY,
                3 => Pubkey::new_from_array(r.b32()),
                4 if r.chance(1, 3) => *r.pick(&os),
                5 => oracles_key(),
                6 | 7 => *r.pick(&us),
                8 if !metas.is_empty() => {
                    let (k, _, _): &(Pubkey, bool, bool) = r.pick(&metas);
                    *k
                }
                9 => program,
                _ => *r.pick(&st),
            };
            metas.push((k, r.chance(1, 4), r.chance(1, 2)));
        }
        let al = match r.below(16) {
            0 => 512,
            1 => 513 + r.idx(10),
            2 => r.idx(512),
            3..=5 => {
                // aim at the exact end of the account
                let used = ITEM + dl + 33 * nm;
                (room.saturating_sub(used) as i64 + r.below(3) as i64 - 1).clamp(0, 520) as usize
            }
            _ => r.idx(40),
        };
        let seed = if r.chance(2, 3) { [r.below(2) as u8; 32] } else { r.b32() };
        let mut disc = if r.chance(1, 2) { vec![7; dl] } else { r.bytes(dl) };
        if disc.len() == 8 && r.chance(1, 30) {
            disc = b"\xffSCRIPT\xff".to_vec(); // looks like nothing special to the program
            disc[1] = b'x';
        }
        let args = r.bytes(al);
        Request { seed, program, disc, metas, args }
    }

    /// The request wrapped in the callback program that signs with its identity.
    pub fn via_program(&mut self, ix: Instruction, program: Pubkey) -> Instruction {
        script_ix(program, vec![Act::Cpi(ix, vec![identity_of(&program)])], &[])
    }

    pub fn request_ix(&mut self, er: bool, q: Pubkey) -> Instruction {
        let r = self.gen_request(er, &q);
        let high = self.w.rng.chance(1, 2);
        let u = self.user();
        let ix = ixs::request(u, q, &r, high);
        self.via_program(ix, r.program)
    }

    /// An honest fulfilment of a pending request.
    pub fn provide_ix(&mut self, o: &OracleKey, q: Pubkey, e: &Entry) -> Instruction {
        let p = self.w.proof(o, &e.id);
        self.remember(o, &e.id, &p);
        ixs::provide(o.key, q, &e.id, &p, e.program, &e.metas)
    }
    pub fn remember(&mut self, o: &OracleKey, id: &[u8; 32], p: &refvrf::Proof) {
        let i = self.w.oracles.iter().position(|x| x.key == o.key).unwrap_or(0);
        self.seen.push((i, *id, [p.out.to_vec(), p.cb.to_vec(), p.ch.to_vec(), p.s.to_vec()]));
        if self.seen.len() > 64 {
            self.seen.remove(0);
        }
    }

    pub fn pick_pending(&mut self, er: bool) -> Option<(OracleKey, Pubkey, Entry)> {
        let v: Vec<(Pubkey, Pubkey, u8)> = self.usable(er).into_iter().filter(|(q, _, _)| !self.pend(er, q).is_empty()).collect();
        if v.is_empty() {
            return None;
        }
        let (q, o, _) = v[self.w.rng.idx(v.len())];
        let o = self.oracle_by(&o)?;
        let p = self.pend(er, &q);
        let i = match self.w.rng.below(4) {
            0 => 0,
            1 => p.len() - 1,
            _ => self.w.rng.idx(p.len()),
        };
        Some((o, q, p[i].clone()))
    }

    pub fn op(&mut self) {
        let w = self.p.w;
        let op = self.w.rng.weighted(&w);
        // also inside the session, where there is one
        let both = matches!(op, OP_ATTACK | OP_MUTATE | OP_BUNDLE | OP_FILL | OP_DRAIN | OP_BADPROVIDE);
        let er = both && self.w.rng.chance(1, 4) && !self.usable(true).is_empty();
        self.do_op(op, er);
    }

    pub fn do_op(&mut self, op: usize, er: bool) {
        match op {
            OP_WARP => {
                let s = self.slot(er);
                let r = self.w.rng.below(10);
                let n = match r {
                    0..=4 => 1,
                    5 => self.w.rng.below(4),
                    6 => {
                        // up to a registration boundary
                        let regs: Vec<u64> = self.w.base.ghost.recs.values().map(|x| x.1).collect();
                        if regs.is_empty() {
                            1
                        } else {
                            let t = *self.w.rng.pick(&regs) + MATURITY - 1 + self.w.rng.below(3);
                            if t > s { t - s } else { 1 }
                        }
                    }
                    7 | 8 => {
                        // up to an expiry boundary
                        let mut t: Vec<u64> = vec![];
                        for (q, _, _) in self.usable(er) {
                            t.extend(self.pend(er, &q).iter().map(|e| e.slot));
                        }
                        if t.is_empty() {
                            1
                        } else {
                            let x = *self.w.rng.pick(&t) + TTL - 1 + self.w.rng.below(4);
                            if x > s { x - s } else { 1 }
                        }
                    }
                    _ => self.w.rng.below(320),
                };
                let c = if er { &mut self.w.er } else { &mut self.w.base };
                c.svm.warp(n);
                self.w.note(format!("warp {n} slots (session: {er})"));
            }
            OP_REGISTER => {
                let o = self.oracle();
                let a = self.w.admin;
                if self.w.rng.chance(1, 4) {
                    let l = 1 + self.w.rng.below(3_000_000);
                    self.donate(&record_key(&o.key), l);
                }
                let (id, pk) = match self.w.rng.below(12) {
                    0 => (Pubkey::default(), o.pk),
                    1 => (SYSTEM, o.pk),
                    2 => (self.off_curve(), o.pk),
                    3 => (self.user(), self.w.rng.b32()),
                    4 => (Pubkey::new_from_array(self.w.rng.b32()), o.pk),
                    _ => (o.key, o.pk),
                };
                let op = if self.w.rng.chance(1, 20) { self.w.rng.u64() as u8 } else { 0 };
                self.w.run(false, vec![ixs::modify(a, id, pk, op)], "register oracle");
            }
            OP_REMOVE => {
                let l = self.w.base.ghost.list.clone();
                let id = if l.is_empty() || self.w.rng.chance(1, 8) { self.oracle().key } else { l[self.w.rng.idx(l.len())] };
                if self.w.rng.chance(1, 5) {
                    let l = 1 + self.w.rng.below(3_000_000);
                    self.donate(&record_key(&id), l);
                }
                if self.w.rng.chance(1, 8) {
                    let l = 1 + self.w.rng.below(3_000_000);
                    self.donate(&oracles_key(), l);
                }
                let a = self.w.admin;
                self.w.run(false, vec![ixs::modify(a, id, [0; 32], 1)], "remove oracle");
            }
            OP_INITQ => self.op_initq(),
            OP_REQUEST => {
                if let Some((q, _, _)) = self.usable_one(er) {
                    let ix = self.request_ix(er, q);
                    self.w.run(er, vec![ix], "request");
                }
            }
            OP_PROVIDE => {
                if let Some((o, q, e)) = self.pick_pending(er) {
                    let c = if er { &mut self.w.er } else { &mut self.w.base };
                    if c.svm.slot <= e.slot && self.w.rng.chance(7, 8) {
                        let c = if er { &mut self.w.er } else { &mut self.w.base };
                        c.svm.warp(1);
                    }
                    let ix = self.provide_ix(&o, q, &e);
                    let r = self.w.run(er, vec![ix], "provide");
                    if r.ok() {
                        self.consumed.push((q, e));
                        if self.consumed.len() > 40 {
                            self.consumed.remove(0);
                        }
                    }
                }
            }
            OP_BADPROVIDE => self.op_bad_provide(er),
            OP_PURGE => {
                if let Some((_, o, i)) = self.usable_one(er) {
                    let mut ix = ixs::purge(o, i);
                    if self.w.rng.chance(1, 12) {
                        let u = self.user();
                        ix.accounts[0].pubkey = u;
                    }
                    self.w.run(er, vec![ix], "purge");
                }
            }
            OP_CLOSE => {
                let v: Vec<(Pubkey, u8)> = self.w.base.ghost.queues.values().map(|q| (q.oracle, q.index)).collect();
                if !v.is_empty() {
                    let (o, i) = v[self.w.rng.idx(v.len())];
                    self.w.run(false, vec![ixs::close(o, i)], "close queue");
                }
            }
            OP_DELEGATE => {
                if let Some((q, o, i)) = self.usable_one(false) {
                    if self.w.rng.chance(1, 5) {
                        let k = *self.w.rng.pick(&[delegate_buffer(&q), undelegate_buffer(&q)]);
                        let l = 1 + self.w.rng.below(3_000_000);
                        // lamports sent beforehand must not break anything
                        if self.w.rng.chance(1, 2) {
                            self.donate(&k, l);
                        }
                    }
                    self.w.run(false, vec![ixs::delegate(o, i)], "delegate queue");
                }
            }
            OP_SESSION => {
                if self.usable(true).is_empty() {
                    self.do_op(OP_DELEGATE, false);
                }
                for _ in 0..3 {
                    let k = self.w.rng.weighted(&[3, 6, 5, 2, 1]);
                    let o = [OP_WARP, OP_REQUEST, OP_PROVIDE, OP_PURGE, OP_BADPROVIDE][k];
                    self.do_op(o, true);
                }
                // base-layer use of a delegated queue must have no effect
                let d: Vec<(Pubkey, Pubkey, u8)> = self.w.base.ghost.queues.iter().filter(|(_, g)| g.delegated).map(|(k, g)| (*k, g.oracle, g.index)).collect();
                if let Some((q, o, i)) = d.first().copied() {
                    let before = self.w.base.svm.get(&q);
                    let ix = match self.w.rng.below(6) {
                        0 => self.request_ix(false, q),
                        1 => ixs::purge(o, i),
                        2 => ixs::close(o, i),
                        3 => ixs::init_queue(o, o, i, 500),
                        4 => ixs::delegate(o, i),
                        _ => {
                            let p = self.pend(true, &q);
                            match (p.first(), self.oracle_by(&o)) {
                                (Some(e), Some(ok)) => self.provide_ix(&ok, q, &e.clone()),
                                _ => ixs::purge(o, i),
                            }
                        }
                    };
                    self.w.run(false, vec![ix], "use a delegated queue on the base layer");
                    let after = self.w.base.svm.get(&q);
                    if after != before {
                        self.w.bads.push(crate::spec::bad(&["C21", "C20"], "delegated queue changed on the base layer", format!("{q}")));
                    }
                }
            }
            OP_SETTLE => {
                let d: Vec<(Pubkey, Pubkey, u8)> = self.w.base.ghost.queues.iter().filter(|(_, g)| g.delegated).map(|(k, g)| (*k, g.oracle, g.index)).collect();
                if !d.is_empty() {
                    let (q, o, i) = d[self.w.rng.idx(d.len())];
                    let r = self.w.run(true, vec![ixs::undelegate(o, i)], "ask for undelegation");
                    if r.ok() && self.w.undelegation_was_scheduled(&q) {
                        if self.w.rng.chance(1, 4) {
                            let l = 1 + self.w.rng.below(4_000_000);
                            self.donate(&q, l);
                        }
                        self.w.settle(&q);
                    }
                }
            }
            OP_DONATE => {
                let o = self.oracle();
                let i = self.index();
                let k = *self.w.rng.pick(&[record_key(&o.key), queue_key(&o.key, i), oracles_key(), delegate_buffer(&queue_key(&o.key, i)), VRF_IDENTITY]);
                let l = *self.w.rng.pick(&[1u64, 890_879, 890_880, 890_881, 2_000_000, 500_000_000]);
                self.donate(&k, l);
            }
            OP_MUTATE => self.op_mutate(er),
            OP_ATTACK => crate::attacks::random_attack(self, er),
            OP_BUNDLE => {
                let n = 2 + self.w.rng.idx(3);
                let mut v = vec![];
                for _ in 0..n {
                    if let Some(ix) = self.honest(er) {
                        v.push(ix);
                    }
                }
                if self.w.rng.chance(1, 3) {
                    let p = self.prog();
                    v.push(script_ix(p, vec![Act::Fail], &[]));
                }
                if v.len() > 1 {
                    self.w.run(er, v, "bundle");
                }
            }
            OP_AUTHORITY => {
                let a = match self.w.rng.below(4) {
                    0 => None,
                    1 => Some(self.user()),
                    2 => Some(self.off_curve()),
                    _ => Some(self.w.admin),
                };
                let k = programdata_key();
                set_authority(&mut self.w.base.svm.accts.get_mut(&k).unwrap().data, a);
                self.w.note(format!("upgrade authority is now {a:?}"));
                let o = self.oracle();
                let ad = self.w.admin;
                let other = self.user();
                let last = a.unwrap_or(other);
                if a.is_some() && self.w.rng.chance(1, 3) {
                    // handed on, then revoked
                    set_authority(&mut self.w.base.svm.accts.get_mut(&k).unwrap().data, None);
                    self.w.note("upgrade authority is now revoked".into());
                }
                let op = self.w.rng.below(2) as u8;
                self.w.run(false, vec![ixs::modify(last, o.key, o.pk, op)], "registry change by the latest authority");
                self.w.run(false, vec![ixs::modify(ad, o.key, o.pk, op)], "registry change by the former authority");
                self.w.run(false, vec![ixs::modify(other, o.key, o.pk, op)], "registry change by a user");
                set_authority(&mut self.w.base.svm.accts.get_mut(&k).unwrap().data, Some(ad));
            }
            OP_BEHAVE => self.behave(),
            OP_FILL => {
                // fill a queue to the brim
                if let Some((q, _, _)) = self.usable_one(er) {
                    for _ in 0..40 {
                        let ix = self.request_ix(er, q);
                        let r = self.w.run(er, vec![ix], "fill");
                        if !r.ok() && self.w.rng.chance(1, 3) {
                            break;
                        }
                    }
                }
            }
            OP_DRAIN => {
                if let Some((q, o, _)) = self.usable_one(er) {
                    let Some(o) = self.oracle_by(&o) else { return };
                    let c = if er { &mut self.w.er } else { &mut self.w.base };
                    c.svm.warp(1);
                    for p in self.w.progs.clone() {
                        set_behaviour(p, vec![]);
                    }
                    let mut v = self.pend(er, &q);
                    if self.w.rng.chance(1, 2) {
                        v.reverse();
                    }
                    for e in v {
                        let ix = self.provide_ix(&o, q, &e);
                        self.w.run(er, vec![ix], "drain");
                    }
                    if self.pend(er, &q).is_empty() {
                        self.fresh_capacity(er, q);
                    }
                }
            }
            _ => {}
        }
    }

    /// An empty queue must accept a request as large as a fresh one would.
    pub fn fresh_capacity(&mut self, er: bool, q: Pubkey) {
        let c = if er { &self.w.er } else { &self.w.base };
        let Ok(v) = parse_queue(c.svm.data(&q)) else { return };
        let room = v.len.saturating_sub(ITEMS_START);
        if room < ITEM {
            return;
        }
        let mut left = room - ITEM;
        let dl = left.min(8);
        left -= dl;
        let nm = (left / 33).min(20);
        left -= nm * 33;
        let al = left.min(512);
        let program = self.w.progs[0];
        let seed = self.w.rng.b32();
        let r = Request { seed, program, disc: vec![5; dl], metas: (0..nm).map(|_| (SYSTEM, false, false)).collect(), args: vec![6; al] };
        let u = self.user();
        let ix = ixs::request(u, q, &r, true);
        let ix = self.via_program(ix, program);
        self.w.run(er, vec![ix], "largest request into an empty queue");
        self.w.stats.bump("fresh-capacity probes");
    }

    pub fn op_initq(&mut self) {
        let o = self.oracle();
        let idx = self.index();
        let size = self.queue_size();
        let payer = if self.w.rng.chance(1, 3) { o.key } else { self.user() };
        let q = queue_key(&o.key, idx);
        if self.w.rng.chance(1, 5) {
            let l = *self.w.rng.pick(&[1u64, 890_880, 5_000_000, 900_000_000]);
            self.donate(&q, l);
        }
        if size > 10_240 && self.w.rng.chance(2, 3) {
            // step by step, with others interfering in between
            for _ in 0..size.div_ceil(10_240) {
                self.w.run(false, vec![ixs::init_queue(payer, o.key, idx, size)], "queue allocation step");
                match self.w.rng.below(8) {
                    0 => {
                        let l = *self.w.rng.pick(&[1u64, 90_000_000, 900_000_000]);
                        self.donate(&q, l);
                    }
                    1 => {
                        self.w.run(false, vec![ixs::purge(o.key, idx)], "purge of a partly allocated queue");
                    }
                    2 => {
                        let ix = self.request_ix(false, q);
                        self.w.run(false, vec![ix], "request into a partly allocated queue");
                    }
                    3 if self.w.rng.chance(1, 3) => {
                        self.w.run(false, vec![ixs::close(o.key, idx)], "close of a partly allocated queue");
                    }
                    4 => {
                        let s2 = self.queue_size();
                        self.w.run(false, vec![ixs::init_queue(payer, o.key, idx, s2)], "allocation step with another size");
                    }
                    _ => {}
                }
            }
        } else {
            self.init_full(payer, &o, idx, size);
        }
    }

    pub fn off_curve(&mut self) -> Pubkey {
        match self.w.rng.below(3) {
            0 => record_key(&self.w.oracles[0].key),
            1 => identity_of(&self.w.evil),
            _ => loop {
                let k = Pubkey::new_from_array(self.w.rng.b32());
                if !on_curve(&k) {
                    break k;
                }
            },
        }
    }

    /// one well-formed instruction that may or may not be allowed right now
    pub fn honest(&mut self, er: bool) -> Option<Instruction> {
        let u = self.user();
        for _ in 0..4 {
            match self.w.rng.below(if er { 5 } else { 10 }) {
                0 | 1 => {
                    if let Some((q, _, _)) = self.usable_one(er) {
                        return Some(self.request_ix(er, q));
                    }
                }
                2 => {
                    if let Some((o, q, e)) = self.pick_pending(er) {
                        return Some(self.provide_ix(&o, q, &e));
                    }
                }
                3 => {
                    if let Some((_, o, i)) = self.usable_one(er) {
                        return Some(ixs::purge(o, i));
                    }
                }
                4 => {
                    if let Some((_, o, i)) = self.usable_one(er) {
                        return Some(if er { ixs::undelegate(o, i) } else { ixs::close(o, i) });
                    }
                }
                5 => {
                    let o = self.oracle();
                    let i = self.index();
                    let s = self.queue_size();
                    return Some(ixs::init_queue(u, o.key, i, s));
                }
                6 => {
                    let o = self.oracle();
                    let a = self.w.admin;
                    return Some(ixs::modify(a, o.key, o.pk, self.w.rng.below(2) as u8));
                }
                7 => {
                    if let Some((_, o, i)) = self.usable_one(er) {
                        return Some(ixs::delegate(o, i));
                    }
                }
                8 => return Some(ixs::initialize(u)),
                _ => {
                    let o = self.oracle();
                    let i = self.index();
                    let q = queue_key(&o.key, i);
                    let s = vec![b"queue".to_vec(), o.key.to_bytes().to_vec(), vec![i]];
                    return Some(ixs::process_undelegation(q, undelegate_buffer(&q), u, &s));
                }
            }
        }
        None
    }

    pub fn op_bad_provide(&mut self, er: bool) {
        let Some((o, q, e)) = self.pick_pending(er) else { return };
        let k = self.w.rng.below(12);
        if k != 0 {
            let c = if er { &mut self.w.er } else { &mut self.w.base };
            if c.svm.slot <= e.slot {
                c.svm.warp(1);
            }
        }
        let good = self.w.proof(&o, &e.id);
        let mut ix = ixs::provide(o.key, q, &e.id, &good, e.program, &e.metas);
        let body = 8usize;
        let why = match k {
            0 => "provide right away",
            1 => {
                // another oracle's key
                let p = self.oracle();
                let x = self.w.proof(&p, &e.id);
                ix = ixs::provide(o.key, q, &e.id, &x, e.program, &e.metas);
                "proof by another oracle"
            }
            2 => {
                let p = self.oracle();
                let x = self.w.proof(&p, &e.id);
                ix = ixs::provide(p.key, q, &e.id, &x, e.program, &e.metas);
                "another oracle answers"
            }
            3 => {
                let i = body + self.w.rng.idx(160);
                ix.data[i] ^= 1 << self.w.rng.below(8);
                "one bit of the proof flipped"
            }
            4 => {
                let id2 = self.w.rng.b32();
                let x = self.w.proof(&o, &id2);
                ix = ixs::provide(o.key, q, &e.id, &x, e.program, &e.metas);
                "proof for another input"
            }
            5 => {
                // forged output satisfying only the first equation
                let out = crate::crypto::rand_point(&mut self.w.rng);
                let x = crate::crypto::forge_base_only(o.sk, &e.id, out, &mut self.w.rng);
                ix = ixs::provide(o.key, q, &e.id, &x, e.program, &e.metas);
                "forged output, base equation only"
            }
            6 => {
                let out = crate::crypto::rand_point(&mut self.w.rng);
                let x = crate::crypto::forge_hash_only(o.sk, &e.id, out, &mut self.w.rng);
                ix = ixs::provide(o.key, q, &e.id, &x, e.program, &e.metas);
                "forged output, hash equation only"
            }
            7 => {
                if let Some((_, id, p)) = self.seen.last().cloned() {
                    for (j, x) in p.iter().enumerate() {
                        ix.data[body + 32 + 32 * j..body + 64 + 32 * j].copy_from_slice(x);
                    }
                    if self.w.rng.chance(1, 2) {
                        ix.data[body..body + 32].copy_from_slice(&id);
                    }
                }
                "earlier proof replayed"
            }
            8 => {
                if let Some((q2, e2)) = self.consumed.last().cloned() {
                    let x = self.w.proof(&o, &e2.id);
                    ix = ixs::provide(o.key, q2, &e2.id, &x, e2.program, &e2.metas);
                }
                "consumed request answered again"
            }
            9 => {
                let p = self.prog();
                ix.accounts[4].pubkey = p;
                "another callback program"
            }
            10 => {
                if ix.accounts.len() > 5 {
                    let i = 5 + self.w.rng.idx(ix.accounts.len() - 5);
                    if self.w.rng.chance(1, 2) {
                        ix.accounts.remove(i);
                    } else {
                        ix.accounts[i].is_writable = false;
                    }
                }
                "callback accounts missing"
            }
            _ => {
                ix.accounts[0].is_signer = false;
                "oracle signature missing"
            }
        };
        self.w.run(er, vec![ix], why);
    }

    /// Damage an otherwise valid instruction.
    pub fn op_mutate(&mut self, er: bool) {
        let Some(ix) = self.honest(er) else { return };
        // reach the VRF instruction behind a proxy
        let (mut ix, proxy) = if ix.program_id == VRF { (ix, None) } else { (self.unwrap_proxy(&ix), Some(ix.program_id)) };
        let n = 1 + self.w.rng.below(2);
        let mut why = vec![];
        for _ in 0..n {
            why.push(self.mutate(&mut ix, er));
        }
        let ix = match proxy {
            Some(p) => {
                let pid = identity_of(&p);
                script_ix(p, vec![Act::Cpi(ix, vec![pid])], &[])
            }
            None if self.w.rng.chance(1, 6) => {
                let p = self.prog();
                script_ix(p, vec![Act::Cpi(ix, vec![])], &[])
            }
            None => ix,
        };
        let why = format!("damaged: {}", why.join(", "));
        self.w.run(er, vec![ix], &why);
    }

    pub fn unwrap_proxy(&mut self, ix: &Instruction) -> Instruction {
        peek_script(ix).unwrap_or_else(|| ix.clone())
    }

    /// accounts an attacker could pass instead of the real ones
    pub fn impostor(&mut self, er: bool, real: &Pubkey) -> Pubkey {
        let svm = if er { &self.w.er.svm } else { &self.w.base.svm };
        let acc = svm.get(real);
        match self.w.rng.below(10) {
            // same content, other address, foreign owner
            0..=2 => {
                let k = Pubkey::new_from_array(self.w.rng.b32());
                let owner = match self.w.rng.below(4) {
                    0 => SYSTEM,
                    1 => DLP,
                    2 => acc.owner,
                    _ => self.w.evil,
                };
                let owner = if owner == VRF { self.w.evil } else { owner };
                self.w.plant(er, k, Acct { owner, executable: false, lamports: acc.lamports.max(rent_min(acc.data.len())), data: acc.data });
                k
            }
            3 | 4 => {
                // another account of the program
                let v: Vec<Pubkey> = svm.accts.iter().filter(|(_, a)| a.owner == VRF).map(|(k, _)| *k).collect();
                if v.is_empty() {
                    self.w.evil
                } else {
                    v[self.w.rng.idx(v.len())]
                }
            }
            5 => self.user(),
            6 => self.oracle().key,
            7 => *self.w.rng.pick(&[SYSTEM, VRF, DLP, MAGIC, MAGIC_CTX, SLOT_HASHES, VRF_IDENTITY, oracles_key(), programdata_key()]),
            8 if !self.w.fakes.is_empty() => {
                let i = self.w.rng.idx(self.w.fakes.len());
                self.w.fakes[i]
            }
            _ => self.w.evil,
        }
    }

    pub fn mutate(&mut self, ix: &mut Instruction, er: bool) -> String {
        let n = ix.accounts.len();
        let k = self.w.rng.below(20);
        match k {
            0..=5 if n > 0 => {
                let i = self.w.rng.idx(n);
                let real = ix.accounts[i].pubkey;
                let imp = self.impostor(er, &real);
                ix.accounts[i].pubkey = imp;
                if ix.accounts[i].is_signer && !self.w.keys.contains(&imp) && self.w.rng.chance(1, 2) {
                    ix.accounts[i].is_signer = false;
                }
                format!("account {i} substituted")
            }
            6 | 7 if n > 0 => {
                let i = self.w.rng.idx(n);
                ix.accounts[i].is_signer = false;
                format!("signature {i} dropped")
            }
            8 if n > 0 => {
                let i = self.w.rng.idx(n);
                ix.accounts[i].is_writable = false;
                format!("account {i} read-only")
            }
            9 if n > 1 => {
                let (i, j) = (self.w.rng.idx(n), self.w.rng.idx(n));
                ix.accounts.swap(i, j);
                format!("accounts {i} and {j} swapped")
            }
            10 if n > 0 => {
                let i = self.w.rng.idx(n);
                ix.accounts.remove(i);
                format!("account {i} dropped")
            }
            11 => {
                let u = self.user();
                let i = self.w.rng.idx(n + 1);
                ix.accounts.insert(i, meta(u, true, true));
                format!("extra account at {i}")
            }
            12 if n > 1 => {
                let (i, j) = (self.w.rng.idx(n), self.w.rng.idx(n));
                ix.accounts[i] = ix.accounts[j].clone();
                format!("account {i} replaced by account {j}")
            }
            13 => {
                let l = self.w.rng.idx(ix.data.len() + 1);
                ix.data.truncate(l);
                format!("data cut to {l}")
            }
            14 => {
                let m = 1 + self.w.rng.idx(16);
                let b = self.w.rng.bytes(m);
                ix.data.extend(b);
                format!("{m} bytes appended")
            }
            15 | 16 if ix.data.len() > 8 => {
                let i = 8 + self.w.rng.idx(ix.data.len() - 8);
                ix.data[i] = ix.data[i].wrapping_add(1 + self.w.rng.below(3) as u8);
                format!("data byte {i} changed")
            }
            17 if !ix.data.is_empty() => {
                ix.data[0] = *self.w.rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 196, 255]);
                format!("tag changed to {}", ix.data[0])
            }
            18 => {
                // attacker signs in place of the first account
                let u = self.user();
                if n > 0 {
                    ix.accounts[0].pubkey = u;
                }
                "first account replaced by a user".into()
            }
            _ => {
                let l = self.w.rng.idx(64);
                let b = self.w.rng.bytes(l);
                let keep = self.w.rng.below(10) as u8;
                ix.data = vec![keep, 0, 0, 0, 0, 0, 0, 0];
                ix.data.extend(b);
                "random data".into()
            }
        }
    }
}
