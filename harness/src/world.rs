//! A world of oracles, users, programs and an ephemeral session around the
//! program under test, with an online monitor that compares every executed
//! transaction with the specification and with a ghost history.
use crate::layout::*;
use crate::refvrf;
use crate::spec::{self, bad, Bad, Effect, Env, Verdict};
use crate::svm::*;
use crate::util::{hex, short, Rng};
use solana_program::account_info::AccountInfo;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use solana_sdk::signature::Keypair;
use solana_sdk::signer::Signer;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub const SOL: u64 = 1_000_000_000;

// ------------------------------------------------------------------ scripts

/// What a program of the harness does when called.
#[derive(Clone, Debug)]
pub enum Act {
    Cpi(Instruction, Vec<Pubkey>),
    Fail,
    Panic,
    /// overwrite data of an account (legal only when the program owns it)
    Data(Pubkey, Vec<u8>),
    /// move lamports between two accounts
    Move(Pubkey, Pubkey, u64),
    Assign(Pubkey, Pubkey),
    // symbolic ones, for callbacks
    /// bump the first byte of every writable account this program owns
    Touch,
    /// give one lamport to every writable account
    CreditAll(Pubkey),
    /// try to steal: transfer out of every signer and writable account by system call
    StealSigners(Pubkey),
}

thread_local! {
    static SCRIPTS: RefCell<Vec<Vec<Act>>> = const { RefCell::new(vec![]) };
    static BEHAV: RefCell<HashMap<Pubkey, Vec<Act>>> = RefCell::new(HashMap::new());
    static DLP_STATE: RefCell<Option<(Vec<u8>, u64)>> = const { RefCell::new(None) };
    static MAGIC_LOG: RefCell<Vec<Pubkey>> = const { RefCell::new(vec![]) };
}
const MAGIC_SCRIPT: &[u8; 8] = b"\xffSCRIPT\xff";

pub fn script_ix(program: Pubkey, acts: Vec<Act>, extra: &[(Pubkey, bool, bool)]) -> Instruction {
    let mut metas: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
    let mut order = vec![];
    let mut add = |k: Pubkey, s: bool, w: bool| {
        if !metas.contains_key(&k) {
            order.push(k);
        }
        let e = metas.entry(k).or_insert((false, false));
        e.0 |= s;
        e.1 |= w;
    };
    for a in &acts {
        match a {
            Act::Cpi(ix, pdas) => {
                for m in &ix.accounts {
                    add(m.pubkey, m.is_signer && !pdas.contains(&m.pubkey), m.is_writable);
                }
                add(ix.program_id, false, false);
            }
            Act::Data(k, _) | Act::Assign(k, _) => add(*k, false, true),
            Act::Move(f, t, _) => {
                add(*f, false, true);
                add(*t, false, true);
            }
            _ => {}
        }
    }
    for (k, s, w) in extra {
        add(*k, *s, *w);
    }
    let id = SCRIPTS.with(|s| {
        let mut s = s.borrow_mut();
        s.push(acts);
        s.len() - 1
    });
    let mut data = MAGIC_SCRIPT.to_vec();
    data.extend_from_slice(&(id as u64).to_le_bytes());
    Instruction { program_id: program, accounts: order.iter().map(|k| meta(*k, metas[k].0, metas[k].1)).collect(), data }
}
pub fn clear_scripts() {
    SCRIPTS.with(|s| s.borrow_mut().clear());
}
pub fn set_behaviour(p: Pubkey, a: Vec<Act>) {
    BEHAV.with(|b| b.borrow_mut().insert(p, a));
}

fn run_acts(rt: &mut Rt, accts: &[IxAcct], me: &Pubkey, acts: &[Act]) -> Result<(), String> {
    for a in acts {
        match a {
            Act::Fail => return Err("callee failed on purpose".into()),
            Act::Panic => return Err("callee panicked on purpose".into()),
            Act::Cpi(ix, pdas) => rt.builtin_invoke(ix, pdas)?,
            Act::Data(k, d) => {
                let mut x = rt.get(k);
                x.data = d.clone();
                rt.set(k, x)?;
            }
            Act::Assign(k, o) => {
                let mut x = rt.get(k);
                x.owner = *o;
                rt.set(k, x)?;
            }
            Act::Move(f, t, n) => {
                let mut x = rt.get(f);
                x.lamports = x.lamports.checked_sub(*n).ok_or("insufficient")?;
                rt.set(f, x)?;
                let mut y = rt.get(t);
                y.lamports += n;
                rt.set(t, y)?;
            }
            Act::Touch => {
                for x in accts {
                    let mut y = rt.get(&x.key);
                    if x.writable && y.owner == *me && !y.data.is_empty() {
                        y.data[0] = y.data[0].wrapping_add(1);
                        rt.set(&x.key, y)?;
                    }
                }
            }
            Act::CreditAll(from) => {
                if !accts.iter().any(|x| x.key == *from && x.writable) {
                    continue;
                }
                for x in accts {
                    let mut f = rt.get(from);
                    if x.writable && x.key != *from && f.owner == *me && f.lamports > 10 * SOL {
                        f.lamports -= 1;
                        rt.set(from, f)?;
                        let mut y = rt.get(&x.key);
                        y.lamports += 1;
                        rt.set(&x.key, y)?;
                    }
                }
            }
            Act::StealSigners(to) => {
                for x in accts {
                    let y = rt.get(&x.key);
                    if x.writable && x.signer && y.owner == SYSTEM && y.lamports > SOL && x.key != *to {
                        let ix = solana_system_interface::instruction::transfer(&x.key, to, 12345);
                        let _ = rt.builtin_invoke(&ix, &[]);
                    }
                }
            }
        }
    }
    Ok(())
}

fn script_program(id: Pubkey) -> Prog {
    Prog::Builtin(Arc::new(move |rt: &mut Rt, accts: &[IxAcct], data: &[u8]| {
        if data.len() == 16 && &data[..8] == MAGIC_SCRIPT {
            let i = u64::from_le_bytes(data[8..16].try_into().unwrap()) as usize;
            let acts = SCRIPTS.with(|s| s.borrow().get(i).cloned()).ok_or("no such script")?;
            return run_acts(rt, accts, &id, &acts);
        }
        let acts = BEHAV.with(|b| b.borrow().get(&id).cloned()).unwrap_or_default();
        run_acts(rt, accts, &id, &acts)
    }))
}

// ------------------------------------------------- delegation program model

fn dlp(rt: &mut Rt, a: &[IxAcct], data: &[u8]) -> Result<(), String> {
    match data.first() {
        // delegate: payer, account, owner program, buffer, record, metadata, system
        Some(0) => {
            if a.len() != 7 || !a[0].signer || !a[1].signer {
                return Err("dlp: bad accounts".into());
            }
            let (q, owner) = (a[1].key, a[2].key);
            let acc = rt.get(&q);
            if acc.owner != DLP {
                return Err("dlp: account not assigned to the delegation program".into());
            }
            if a[4].key != delegation_record(&q) || a[5].key != delegation_metadata(&q) {
                return Err("dlp: wrong record or metadata".into());
            }
            if a[3].key != Pubkey::find_program_address(&[b"buffer", q.as_ref()], &owner).0 {
                return Err("dlp: wrong buffer".into());
            }
            if !rt.get(&a[4].key).data.is_empty() {
                return Err("dlp: already delegated".into());
            }
            let seeds = spec::parse_delegate_args(&data[8..]).ok_or("dlp: args")?;
            let s: Vec<&[u8]> = seeds.iter().map(|v| v.as_slice()).collect();
            if solana_program::pubkey::Pubkey::find_program_address(&s, &owner).0 != q {
                return Err("dlp: seeds".into());
            }
            let buf = rt.get(&a[3].key);
            let mut rec = rt.get(&a[4].key);
            let mut md = rt.get(&a[5].key);
            let r = rent_min(32);
            let mut payer = rt.get(&a[0].key);
            payer.lamports = payer.lamports.checked_sub(2 * r).ok_or("dlp: funds")?;
            // builtin: act as the system program for funding and creation
            rt.builtin_invoke(&solana_system_interface::instruction::transfer(&a[0].key, &a[4].key, r), &[])?;
            rt.builtin_invoke(&solana_system_interface::instruction::transfer(&a[0].key, &a[5].key, r), &[])?;
            for (k, x) in [(a[4].key, &mut rec), (a[5].key, &mut md)] {
                rt.builtin_invoke(&solana_system_interface::instruction::allocate(&k, 32), &[k])?;
                rt.builtin_invoke(&solana_system_interface::instruction::assign(&k, &DLP), &[k])?;
                *x = rt.get(&k);
                x.data.copy_from_slice(owner.as_ref());
                rt.set(&k, x.clone())?;
            }
            let mut acc = rt.get(&q);
            acc.data = buf.data;
            rt.set(&q, acc)
        }
        // model only: settle an undelegation with the session's final state.
        // payer(s,w), account(w), owner program, buffer(w), record(w), metadata(w), system; seeds follow the tag
        Some(0xF0) => {
            let (payer, q, owner, buffer) = (a[0].key, a[1].key, a[2].key, a[3].key);
            if !a[0].signer || buffer != undelegate_buffer(&q) {
                return Err("dlp: bad accounts".into());
            }
            let rec = rt.get(&a[4].key);
            if a[4].key != delegation_record(&q) || rec.data.len() != 32 || rec.data != owner.as_ref() {
                return Err("dlp: not delegated".into());
            }
            let (state, lamports) = DLP_STATE.with(|s| s.borrow().clone()).ok_or("dlp: no state")?;
            // refund record and metadata
            for k in [a[4].key, a[5].key] {
                let x = rt.get(&k);
                let l = x.lamports;
                rt.set(&k, Acct { lamports: 0, data: vec![], owner: DLP, executable: false })?;
                let mut p = rt.get(&payer);
                p.lamports += l;
                rt.set(&payer, p)?;
            }
            for k in [a[4].key, a[5].key] {
                let mut x = rt.get(&k);
                x.owner = SYSTEM;
                rt.set(&k, x)?;
            }
            // buffer with the committed state
            let have = rt.get(&buffer).lamports;
            let need = rent_min(state.len()).saturating_sub(have);
            if need > 0 {
                rt.builtin_invoke(&solana_system_interface::instruction::transfer(&payer, &buffer, need), &[])?;
            }
            rt.builtin_invoke(&solana_system_interface::instruction::allocate(&buffer, state.len() as u64), &[buffer])?;
            rt.builtin_invoke(&solana_system_interface::instruction::assign(&buffer, &DLP), &[buffer])?;
            let mut b = rt.get(&buffer);
            b.data = state.clone();
            rt.set(&buffer, b)?;
            // close the delegated account into the payer
            let mut x = rt.get(&q);
            let l = x.lamports;
            x.lamports = 0;
            x.data = vec![];
            rt.set(&q, x.clone())?;
            let mut p = rt.get(&payer);
            p.lamports += l;
            rt.set(&payer, p)?;
            x.owner = SYSTEM;
            rt.set(&q, x)?;
            // let the owner program re-create it
            let mut d = vec![196, 28, 41, 206, 48, 37, 51, 167];
            d.extend_from_slice(&data[1..]);
            let ix = Instruction {
                program_id: owner,
                accounts: vec![meta(q, false, true), meta(buffer, true, true), meta(payer, true, true), meta(SYSTEM, false, false)],
                data: d,
            };
            rt.builtin_invoke(&ix, &[buffer])?;
            let y = rt.get(&q);
            if y.owner != owner || y.data != state {
                return Err("dlp: the owner program did not restore the account".into());
            }
            if lamports > y.lamports {
                rt.builtin_invoke(&solana_system_interface::instruction::transfer(&payer, &q, lamports - y.lamports), &[])?;
            }
            let mut b = rt.get(&buffer);
            let l = b.lamports;
            b.lamports = 0;
            b.data = vec![];
            rt.set(&buffer, b.clone())?;
            let mut p = rt.get(&payer);
            p.lamports += l;
            rt.set(&payer, p)?;
            b.owner = SYSTEM;
            rt.set(&buffer, b)
        }
        _ => Err("dlp: unknown instruction".into()),
    }
}

fn magic(rt: &mut Rt, a: &[IxAcct], data: &[u8]) -> Result<(), String> {
    let _ = &rt;
    if data != [2, 0, 0, 0] || a.len() < 3 || !a[0].signer || a[1].key != MAGIC_CTX || !a[1].writable {
        return Err("magic: bad request".into());
    }
    MAGIC_LOG.with(|l| l.borrow_mut().extend(a[2..].iter().map(|x| x.key)));
    Ok(())
}

// -------------------------------------------------------------------- world

#[derive(Clone)]
pub struct OracleKey {
    pub kp: Arc<Keypair>,
    pub key: Pubkey,
    pub sk: curve25519_dalek::scalar::Scalar,
    pub pk: [u8; 32],
}

#[derive(Clone, Debug, PartialEq)]
pub struct GhostQueue {
    pub oracle: Pubkey,
    pub index: u8,
    pub pending: Vec<Entry>,
    pub usable: bool,
    pub delegated: bool,
}

#[derive(Clone, Default)]
pub struct Ghost {
    pub init: bool,
    pub list: Vec<Pubkey>,
    pub recs: BTreeMap<Pubkey, ([u8; 32], u64)>,
    pub queues: BTreeMap<Pubkey, GhostQueue>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub txs: u64,
    pub ok: u64,
    pub vrf_calls: u64,
    pub vrf_ok: u64,
    pub rejected: BTreeMap<&'static str, u64>,
    pub accepted: BTreeMap<&'static str, u64>,
    pub callbacks: u64,
    pub musts: u64,
    pub worlds: u64,
    pub consumed: u64,
    pub purged: u64,
    pub roundtrips: u64,
    pub states: BTreeSet<u64>,
    pub extra: BTreeMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.txs += o.txs;
        self.ok += o.ok;
        self.vrf_calls += o.vrf_calls;
        self.vrf_ok += o.vrf_ok;
        self.callbacks += o.callbacks;
        self.musts += o.musts;
        self.worlds += o.worlds;
        self.consumed += o.consumed;
        self.purged += o.purged;
        self.roundtrips += o.roundtrips;
        for (k, v) in o.rejected {
            *self.rejected.entry(k).or_default() += v;
        }
        for (k, v) in o.accepted {
            *self.accepted.entry(k).or_default() += v;
        }
        for (k, v) in o.extra {
            *self.extra.entry(k).or_default() += v;
        }
        self.states.extend(o.states);
    }
    pub fn bump(&mut self, k: &str) {
        *self.extra.entry(k.to_string()).or_default() += 1;
    }
}

pub struct Chain {
    pub svm: Svm,
    pub ghost: Ghost,
    pub name: &'static str,
    /// accounts injected by the harness that only look like ours
    pub planted: BTreeSet<Pubkey>,
    total: u128,
}

pub struct World {
    pub rng: Rng,
    pub base: Chain,
    pub er: Chain,
    pub oracles: Vec<OracleKey>,
    pub users: Vec<Pubkey>,
    pub admin: Pubkey,
    pub progs: Vec<Pubkey>,
    pub evil: Pubkey,
    pub state_accts: Vec<Pubkey>,
    pub fakes: Vec<Pubkey>,
    pub keys: BTreeSet<Pubkey>,
    pub stats: Stats,
    pub bads: Vec<Bad>,
    pub trace: Vec<String>,
    /// also run what the real client builders make
    pub twin: bool,
    pub seed: u64,
    /// the queue indices this world uses
    pub indices: [u8; 3],
    /// all ids ever recorded, with a digest of their origin
    pub ids: HashMap<[u8; 32], (u64, Pubkey, Vec<u8>)>,
}

pub fn native_vrf() -> Prog {
    Prog::Native(Arc::new(|id: &Pubkey, infos: &[AccountInfo], d: &[u8]| {
        // SAFETY: the runtime's account views outlive the call
        let infos: &[AccountInfo<'static>] = unsafe { std::mem::transmute(infos) };
        ephemeral_vrf_program::process_instruction(id, infos, d)
    }))
}

pub fn key_from(seed: u64, tag: &str, i: u64) -> Keypair {
    use sha2::Digest;
    let mut h = sha2::Sha256::new();
    h.update(seed.to_le_bytes());
    h.update(tag.as_bytes());
    h.update(i.to_le_bytes());
    let b: [u8; 32] = h.finalize().into();
    Keypair::new_from_array(b)
}

/// A separate build of the monitors replaces the published address of the
/// fee-free queue by this oracle's queue, whose key is known.
pub fn free_oracle() -> Keypair {
    key_from(77, "free oracle", 0)
}
pub fn free_variant() -> bool {
    queue_key(&free_oracle().pubkey(), 0) == DEFAULT_EPHEMERAL_QUEUE
}

fn install(svm: &mut Svm, progs: &[Pubkey]) {
    svm.add_program(VRF, native_vrf());
    svm.accts.get_mut(&VRF).unwrap().owner = LOADER_UPGRADEABLE;
    svm.add_program(DLP, Prog::Builtin(Arc::new(dlp)));
    svm.add_program(MAGIC, Prog::Builtin(Arc::new(magic)));
    for p in progs {
        svm.add_program(*p, script_program(*p));
    }
}

impl World {
    pub fn new(seed: u64, n_oracles: usize) -> World {
        clear_scripts();
        BEHAV.with(|b| b.borrow_mut().clear());
        let mut rng = Rng::new(seed);
        let oracles: Vec<OracleKey> = (0..n_oracles)
            .map(|i| {
                let kp = if i == 0 && free_variant() { free_oracle() } else { key_from(seed % 8, "oracle", i as u64) };
                let sk = refvrf::derive_sk(&kp.to_bytes());
                OracleKey { key: kp.pubkey(), pk: refvrf::pk_of(sk), sk, kp: Arc::new(kp) }
            })
            .collect();
        let users: Vec<Pubkey> = (0..3).map(|i| key_from(seed % 8, "user", i).pubkey()).collect();
        let admin = key_from(seed % 8, "admin", 0).pubkey();
        let progs: Vec<Pubkey> = (0..3).map(|i| key_from(seed % 8, "program", i).pubkey()).collect();
        let evil = key_from(seed % 8, "evil", 0).pubkey();
        let mut svm = Svm::new();
        svm.slot = match rng.below(8) {
            // around the places where a narrower slot number would wrap
            0 => (1 << 32) - 1 - rng.below(600),
            1 => (1 << *rng.pick(&[33u32, 40, 48])) + rng.below(1000),
            2 => *rng.pick(&[1u64 << 16, 1 << 24, 1 << 31]) - rng.below(600),
            3 => 4 + rng.below(300),
            _ => 500 + rng.below(100_000),
        };
        let indices = match rng.below(6) {
            0 => [0, 1, 255],
            1 => [255, 127, 128],
            2 => [rng.below(256) as u8, 200, 15],
            3 => [0, 16, 64],
            _ => [0, 1, 2],
        };
        svm.hash_salt = rng.u64();
        svm.refresh_sysvars();
        let mut all = progs.clone();
        all.push(evil);
        install(&mut svm, &all);
        let mut keys: BTreeSet<Pubkey> = users.iter().copied().collect();
        keys.insert(admin);
        keys.extend(oracles.iter().map(|o| o.key));
        for k in &keys {
            svm.accts.insert(*k, Acct::wallet(1_000_000 * SOL));
        }
        svm.accts.insert(programdata_key(), Acct { lamports: SOL, data: build_programdata(Some(admin)), owner: LOADER_UPGRADEABLE, executable: false });
        svm.accts.insert(MAGIC_CTX, Acct { lamports: SOL, data: vec![0; 8], owner: MAGIC, executable: false });
        let mut state_accts = vec![];
        for (i, p) in all.iter().enumerate() {
            for j in 0..2 {
                let k = key_from(seed % 8, "state", (i * 2 + j) as u64).pubkey();
                svm.accts.insert(k, Acct { lamports: 1000 * SOL, data: vec![0; 16], owner: *p, executable: false });
                state_accts.push(k);
            }
        }
        let mut w = World {
            rng,
            base: Chain { svm, ghost: Ghost::default(), name: "base", planted: BTreeSet::new(), total: 0 },
            er: Chain { svm: Svm::new(), ghost: Ghost::default(), name: "session", planted: BTreeSet::new(), total: 0 },
            oracles,
            users,
            admin,
            progs,
            evil,
            state_accts,
            fakes: vec![],
            keys,
            stats: Stats { worlds: 1, ..Default::default() },
            bads: vec![],
            trace: vec![],
            twin: false,
            seed,
            ids: HashMap::new(),
            indices: if free_variant() { [0, 1, indices[0]] } else { indices },
        };
        w.er.svm.slot = match w.base.svm.slot {
            x if x > 1 << 20 && w.rng.chance(3, 4) => x - 300 + w.rng.below(600),
            _ => 7 + w.rng.below(1_000_000),
        };
        w.er.svm.hash_salt = w.rng.u64();
        w.er.svm.refresh_sysvars();
        install(&mut w.er.svm, &all);
        for k in w.keys.iter().chain(w.state_accts.iter()).chain([MAGIC_CTX, programdata_key()].iter()) {
            let a = w.base.svm.get(k);
            w.er.svm.accts.insert(*k, a);
        }
        w.base.total = w.base.svm.total_lamports();
        w.er.total = w.er.svm.total_lamports();
        w
    }

    /// Put an account on the ledger from outside (not through a program).
    pub fn plant(&mut self, er: bool, k: Pubkey, a: Acct) {
        let c = if er { &mut self.er } else { &mut self.base };
        c.svm.accts.insert(k, a);
        c.planted.insert(k);
        c.total = c.svm.total_lamports();
        self.fakes.push(k);
    }
    pub fn retotal(&mut self) {
        self.base.total = self.base.svm.total_lamports();
        self.er.total = self.er.svm.total_lamports();
    }

    pub fn note(&mut self, s: String) {
        if self.trace.len() > 400 {
            self.trace.drain(..200);
        }
        self.trace.push(s);
    }

    pub fn run(&mut self, er: bool, ixs: Vec<Instruction>, why: &str) -> TxResult {
        // every key of the world signs wherever its signature is asked for
        let signers: BTreeSet<Pubkey> = ixs.iter().flat_map(|i| i.accounts.iter()).filter(|m| m.is_signer && self.keys.contains(&m.pubkey)).map(|m| m.pubkey).collect();
        let mut tx = Tx { payer: signers.iter().next().copied(), ixs, signers };
        // somebody else may pay for it, in particular one of the accounts it mentions
        if !self.twin && self.rng.chance(1, 6) {
            let said: Vec<Pubkey> = tx.ixs.iter().flat_map(|i| i.accounts.iter()).map(|m| m.pubkey).filter(|k| self.users.contains(k) || (self.keys.contains(k) && tx.signers.contains(k))).collect();
            let k = if said.is_empty() || self.rng.chance(1, 3) { *self.rng.pick(&self.users.clone()) } else { *self.rng.pick(&said) };
            tx.signers.insert(k);
            tx.payer = Some(k);
            self.stats.bump("transactions paid for by another account");
        }
        self.step(er, &tx, why)
    }

    /// Execute a transaction and judge it.
    pub fn step(&mut self, er: bool, tx: &Tx, why: &str) -> TxResult {
        MAGIC_LOG.with(|l| l.borrow_mut().clear());
        let (chain, other) = if er { (&mut self.er, &mut self.base) } else { (&mut self.base, &mut self.er) };
        let _ = other;
        let env = Env { slot: chain.svm.slot };
        if self.twin {
            if let Some((names, diff)) = crate::twin::compare(&chain.svm, tx, &self.keys) {
                for n in names {
                    self.stats.bump(&format!("builder compared: {n}"));
                }
                if let Some((kind, msg)) = diff {
                    self.bads.push(bad(&["C23"], &kind, format!("{msg}; {why}")));
                }
            }
            MAGIC_LOG.with(|l| l.borrow_mut().clear());
        }
        let res = chain.svm.exec(tx);
        self.stats.txs += 1;
        let mut bads: Vec<Bad> = vec![];
        let mut summary = vec![];
        let mut effects = vec![];
        if res.ok() {
            self.stats.ok += 1;
        }
        for (i, c) in res.calls.iter().enumerate() {
            if c.program != VRF {
                continue;
            }
            self.stats.vrf_calls += 1;
            let v = spec::judge(c, &env);
            // whatever else is wrong: nobody may sign for others in a callback
            if c.data.first() == Some(&4) {
                for k in c.children.iter().map(|k| &res.calls[*k]).filter(|k| k.program != SYSTEM) {
                    for x in k.accts.iter().filter(|x| x.signer && x.key != VRF_IDENTITY) {
                        bads.push(bad(&["C19"], "callback received a foreign signer", format!("{}; {why}", x.key)));
                    }
                    if c.accts.first().is_some_and(|o| k.accts.iter().any(|x| x.key == o.key)) {
                        bads.push(bad(&["C19"], "callback received the oracle account", why.to_string()));
                    }
                }
            }
            summary.push(format!("{}{}", spec::tag_name(&c.data), if c.finished_ok { "+" } else { "-" }));
            match v {
                Verdict::Reject { props, why } => {
                    *self.stats.rejected.entry(spec::tag_name(&c.data)).or_default() += 1;
                    if c.finished_ok && res.ok() {
                        let mut b = bad(props, &format!("{} accepted: {why}", spec::tag_name(&c.data)), describe_call(c));
                        // a state change that was never authorised
                        if c.pre.iter().any(|(k, a)| (a.owner == VRF || c.post[k].owner == VRF) && *a != c.post[k]) {
                            b.props.push("C20");
                        }
                        bads.push(b);
                    }
                }
                Verdict::Accept { must } => {
                    if c.finished_ok {
                        self.stats.vrf_ok += 1;
                        *self.stats.accepted.entry(spec::tag_name(&c.data)).or_default() += 1;
                        self.stats.musts += must.is_some() as u64;
                        self.stats.callbacks += (c.data[0] == 4) as u64;
                        let (b, e) = spec::effects(i, &res.calls, &env);
                        bads.extend(b);
                        if res.ok() {
                            if let Some(e) = e {
                                effects.push(e);
                            }
                        }
                    } else if let Some(p) = must {
                        // failed: was it this program's own doing?
                        let kid = c.children.iter().map(|k| &res.calls[*k]).find(|k| !k.finished_ok);
                        let own = match kid {
                            None => true,
                            Some(k) => [SYSTEM, DLP, MAGIC].contains(&k.program),
                        };
                        if own {
                            bads.push(bad(p, &format!("{} refused although allowed", spec::tag_name(&c.data)), format!("error {:?}; {}", res.err, describe_call(c))));
                        }
                    }
                }
            }
        }
        // nothing outside this program's calls may change its accounts
        if res.ok() {
            for (k, (p, q)) in &res.diff {
                if p.owner == VRF || q.owner == VRF {
                    let by_us = res.calls.iter().any(|c| c.program == VRF && c.pre.contains_key(k));
                    if !by_us && p.data != q.data {
                        bads.push(bad(&["C20", "C19"], "account changed outside the program", format!("{k}")));
                    }
                    if p.owner == VRF && q.owner == VRF && p.data == q.data && q.lamports < p.lamports && !by_us {
                        bads.push(bad(&["C15", "C19"], "lamports left an account outside the program", format!("{k}")));
                    }
                }
            }
        }
        let desc: String = tx.ixs.iter().map(|i| format!("{}:{}", short(&i.program_id), hex(&i.data[..i.data.len().min(12)]))).collect::<Vec<_>>().join(",");
        let line = format!("[{} slot {}] {why} ({desc}) {} -> {}", chain.name, env.slot, summary.join(" "), res.err.clone().unwrap_or_else(|| "ok".into()));
        if res.ok() && !effects.is_empty() {
            Self::apply_ghost(chain, &effects, &env, &mut bads, &mut self.stats, &mut self.ids);
        }
        Self::invariants(chain, &res, &mut bads, &mut self.stats);
        self.note(line);
        for ef in &effects {
            if let Effect::Delegate { queue, .. } = ef {
                if !er && self.base.svm.get(queue).owner == DLP {
                    self.open_session(queue);
                }
            }
        }
        if !bads.is_empty() {
            self.bads.extend(bads);
            // resynchronise so that one defect is not reported endlessly
            Self::resync(if er { &mut self.er } else { &mut self.base });
        }
        res
    }

    fn apply_ghost(chain: &mut Chain, effects: &[Effect], env: &Env, bads: &mut Vec<Bad>, stats: &mut Stats, ids: &mut HashMap<[u8; 32], (u64, Pubkey, Vec<u8>)>) {
        let g = &mut chain.ghost;
        for e in effects {
            match e {
                Effect::Init => {
                    if g.init {
                        bads.push(bad(&["C06", "C05"], "oracle list created twice", String::new()));
                    }
                    g.init = true;
                }
                Effect::Add { id, pk } => {
                    g.list.push(*id);
                    g.recs.insert(*id, (*pk, env.slot));
                }
                Effect::Remove { id } => {
                    g.list.retain(|k| k != id);
                    g.recs.remove(id);
                    if g.queues.values().any(|q| q.oracle == *id && q.usable) {
                        bads.push(bad(&["C08"], "oracle with an open queue removed", format!("{id}")));
                    }
                }
                Effect::Alloc { oracle, index, queue, .. } => {
                    g.queues.entry(*queue).or_insert(GhostQueue { oracle: *oracle, index: *index, pending: vec![], usable: false, delegated: false });
                }
                Effect::Open { oracle, index, queue, .. } => {
                    let old = g.queues.insert(*queue, GhostQueue { oracle: *oracle, index: *index, pending: vec![], usable: true, delegated: false });
                    if old.is_some_and(|o| o.usable || o.delegated) {
                        bads.push(bad(&["C07"], "an open queue was initialised again", format!("{queue}")));
                    }
                }
                Effect::Close { queue, .. } => {
                    if let Some(q) = g.queues.remove(queue) {
                        if !q.pending.is_empty() {
                            bads.push(bad(&["C09", "C14"], "queue with pending requests closed", format!("{queue}")));
                        }
                    }
                }
                Effect::Request { queue, entry } => {
                    if let Some(q) = g.queues.get_mut(queue) {
                        if q.pending.iter().any(|x| x.id == entry.id) {
                            bads.push(bad(&["C11"], "two pending requests share an id", hex(&entry.id)));
                        }
                        q.pending.push(entry.clone());
                    }
                    let origin = (entry.slot, entry.program, entry.disc.clone());
                    if let Some(o) = ids.get(&entry.id) {
                        if *o != origin {
                            bads.push(bad(&["C11"], "requests of different slots or targets share an id", format!("{} {o:?} {origin:?}", hex(&entry.id))));
                        }
                    }
                    ids.insert(entry.id, origin);
                }
                Effect::Provide { queue, id, .. } => {
                    stats.consumed += 1;
                    if *queue == DEFAULT_EPHEMERAL_QUEUE {
                        *stats.extra.entry("fulfilled in the fee-free queue".into()).or_default() += 1;
                    }
                    if let Some(q) = g.queues.get_mut(queue) {
                        match q.pending.iter().position(|x| x.id == *id) {
                            Some(p) => {
                                q.pending.remove(p);
                            }
                            None => bads.push(bad(&["C14", "C13"], "a request that is not pending was fulfilled", hex(id))),
                        }
                    }
                }
                Effect::Purge { queue, ids, .. } => {
                    stats.purged += ids.len() as u64;
                    if *queue == DEFAULT_EPHEMERAL_QUEUE {
                        *stats.extra.entry("purged from the fee-free queue".into()).or_default() += ids.len() as u64;
                    }
                    if let Some(q) = g.queues.get_mut(queue) {
                        for id in ids {
                            if let Some(p) = q.pending.iter().position(|x| x.id == *id) {
                                q.pending.remove(p);
                            }
                        }
                    }
                }
                Effect::Delegate { queue, .. } => {
                    if let Some(q) = g.queues.get_mut(queue) {
                        q.delegated = true;
                    }
                }
                Effect::Undelegate { .. } => {}
                Effect::Restore { account } => {
                    match g.queues.get_mut(account) {
                        Some(q) if q.delegated => {
                            q.delegated = false;
                            // contents are compared by whoever settled the session
                            if let Ok(v) = parse_queue(chain.svm.data(account)) {
                                q.pending = v.entries;
                            }
                        }
                        _ => bads.push(bad(&["C22", "C20"], "an account that was never delegated was created from a buffer", format!("{account}"))),
                    }
                }
            }
        }
    }

    fn invariants(chain: &mut Chain, res: &TxResult, bads: &mut Vec<Bad>, stats: &mut Stats) {
        if !res.ok() {
            return;
        }
        let g = &chain.ghost;
        let svm = &chain.svm;
        let lk = oracles_key();
        let is_base = chain.name == "base";
        for (k, (_, post)) in &res.diff {
            if chain.planted.contains(k) || post.owner != VRF {
                continue;
            }
            let known = *k == lk || g.recs.keys().any(|o| record_key(o) == *k) || g.queues.contains_key(k);
            if !known {
                bads.push(bad(&["C05", "C07", "C20", "C22"], "unexplained account of the program", format!("{k} {}", spec::brief(post))));
            }
            if post.lamports < rent_min(post.data.len()) {
                bads.push(bad(&["C15", "C06", "C07"], "account of the program below rent exemption", format!("{k}")));
            }
        }
        if g.init && (res.diff.contains_key(&lk) || res.diff.keys().any(|k| g.queues.contains_key(k)) || is_base) {
            match parse_oracles(svm.data(&lk)) {
                Ok(l) => {
                    if l != g.list {
                        bads.push(bad(&["C06", "C05", "C20"], "oracle list differs from the registration history", format!("{l:?} vs {:?}", g.list)));
                    }
                    let s: BTreeSet<_> = l.iter().collect();
                    if s.len() != l.len() {
                        bads.push(bad(&["C06"], "oracle listed twice", format!("{l:?}")));
                    }
                }
                Err(e) => bads.push(bad(&["C06", "C05", "C20"], "oracle list unreadable", e)),
            }
            for (o, (pk, slot)) in &g.recs {
                let r = svm.get(&record_key(o));
                match parse_record(&r.data) {
                    Ok(rec) if r.owner == VRF => {
                        if rec.vrf_pk != *pk || rec.reg_slot != *slot {
                            bads.push(bad(&["C06", "C05", "C20", "C07"], "oracle record differs from its registration", format!("{o} {rec:?}")));
                        }
                        if is_base {
                            let open = g.queues.values().filter(|q| q.oracle == *o && q.usable).count() as u64;
                            if rec.open != open {
                                bads.push(bad(&["C08"], "open-queue count differs from the open queues", format!("{o}: {} recorded, {open} open", rec.open)));
                            }
                        }
                    }
                    _ => bads.push(bad(&["C06", "C20"], "oracle record missing", format!("{o}"))),
                }
            }
        }
        for (k, q) in &g.queues {
            if q.delegated {
                continue;
            }
            let a = svm.get(k);
            if !res.diff.contains_key(k) {
                continue;
            }
            if a.owner != VRF {
                bads.push(bad(&["C07", "C20", "C21", "C22"], "queue no longer owned by the program", format!("{k} {}", spec::brief(&a))));
                continue;
            }
            if !q.usable {
                continue;
            }
            match parse_queue(&a.data) {
                Ok(v) => {
                    if v.entries != q.pending {
                        bads.push(bad(&["C14", "C10", "C17", "C20"], "pending requests differ from the history", format!("{k}: {} vs {}", v.entries.len(), q.pending.len())));
                    }
                    let idset: BTreeSet<_> = v.entries.iter().map(|e| e.id).collect();
                    if idset.len() != v.entries.len() {
                        bads.push(bad(&["C11"], "two pending requests share an id", format!("{k}")));
                    }
                    if *k != DEFAULT_EPHEMERAL_QUEUE {
                        let due: u64 = v.entries.iter().map(|e| price(e.prio)).sum();
                        if a.lamports < rent_min(a.data.len()) + due {
                            bads.push(bad(&["C15"], "queue can not pay for its pending requests", format!("{k}: {} lamports, rent {}, due {due}", a.lamports, rent_min(a.data.len()))));
                        }
                    }
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (v.entries.len(), v.used_end, v.cursor, v.entries.iter().map(|e| e.size()).collect::<Vec<_>>()).hash(&mut h);
                    if stats.states.len() < 200_000 {
                        stats.states.insert(h.finish());
                    }
                }
                Err(e) => bads.push(bad(&["C14", "C17", "C20", "C26"], "queue malformed", format!("{k}: {e}"))),
            }
        }
        let t = svm.total_lamports();
        if t != chain.total {
            bads.push(bad(&["C15"], "lamports created or lost", format!("{} -> {t}", chain.total)));
            chain.total = t;
        }
    }

    /// Re-read the ledger into the ghost history (after a violation).
    pub fn resync(chain: &mut Chain) {
        let svm = &chain.svm;
        let g = &mut chain.ghost;
        if let Ok(l) = parse_oracles(svm.data(&oracles_key())) {
            g.list = l;
        }
        let mut recs = BTreeMap::new();
        for o in g.list.iter().chain(g.recs.keys()) {
            if let Ok(r) = parse_record(svm.data(&record_key(o))) {
                recs.insert(*o, (r.vrf_pk, r.reg_slot));
            }
        }
        g.recs = recs;
        for (k, q) in g.queues.iter_mut() {
            if q.delegated {
                continue;
            }
            match parse_queue(svm.data(k)) {
                Ok(v) if svm.get(k).owner == VRF => {
                    q.pending = v.entries;
                    q.usable = true;
                }
                _ => {
                    q.usable = false;
                    q.pending.clear();
                }
            }
        }
        chain.total = svm.total_lamports();
    }

    // ------------------------------------------------------------ delegation

    /// Start an ephemeral session for a delegated queue.
    pub fn open_session(&mut self, q: &Pubkey) {
        let mut a = self.base.svm.get(q);
        a.owner = VRF;
        self.er.svm.accts.insert(*q, a);
        // the session sees the base layer as it is now
        let stale: Vec<Pubkey> = self.er.svm.accts.iter().filter(|(k, a)| a.owner == VRF && !self.base.ghost.queues.get(k).is_some_and(|g| g.delegated)).map(|(k, _)| *k).collect();
        for k in stale {
            self.er.svm.accts.remove(&k);
            self.er.ghost.queues.remove(&k);
        }
        for (k, acc) in &self.base.svm.accts {
            if acc.owner == VRF {
                self.er.svm.accts.insert(*k, acc.clone());
            }
        }
        self.er.ghost.init = self.base.ghost.init;
        self.er.ghost.list = self.base.ghost.list.clone();
        self.er.ghost.recs = self.base.ghost.recs.clone();
        // only delegated queues live in the session
        let gone: Vec<Pubkey> = self.er.svm.accts.iter().filter(|(k, a)| a.owner == VRF && self.base.ghost.queues.get(k).is_some_and(|g| !g.delegated)).map(|(k, _)| *k).collect();
        for k in gone {
            self.er.svm.accts.remove(&k);
            self.er.ghost.queues.remove(&k);
        }
        if let Some(g) = self.base.ghost.queues.get(q) {
            self.er.ghost.queues.insert(*q, GhostQueue { delegated: false, ..g.clone() });
        }
        self.er.total = self.er.svm.total_lamports();
    }

    pub fn scheduled(q: &Pubkey) -> bool {
        MAGIC_LOG.with(|l| l.borrow().contains(q))
    }
    pub fn undelegation_was_scheduled(&self, q: &Pubkey) -> bool {
        MAGIC_LOG.with(|l| l.borrow().contains(q))
    }

    /// The delegation program settles the session's final state on the base layer.
    pub fn settle(&mut self, q: &Pubkey) -> TxResult {
        let er = self.er.svm.get(q);
        let g = self.base.ghost.queues.get(q).cloned();
        DLP_STATE.with(|s| *s.borrow_mut() = Some((er.data.clone(), er.lamports)));
        let payer = self.users[0];
        let mut data = vec![0xF0];
        let seeds: Vec<Vec<u8>> = match &g {
            Some(g) => vec![b"queue".to_vec(), g.oracle.to_bytes().to_vec(), vec![g.index]],
            None => vec![],
        };
        data.extend_from_slice(&borsh::to_vec(&seeds).unwrap());
        let ix = Instruction {
            program_id: DLP,
            accounts: vec![
                meta(payer, true, true),
                meta(*q, false, true),
                meta(VRF, false, false),
                meta(undelegate_buffer(q), false, true),
                meta(delegation_record(q), false, true),
                meta(delegation_metadata(q), false, true),
                meta(SYSTEM, false, false),
            ],
            data,
        };
        let r = self.run(false, vec![ix], "settle undelegation");
        if r.ok() {
            self.stats.roundtrips += 1;
            let b = self.base.svm.get(q);
            if b.data != er.data || b.owner != VRF || b.lamports < er.lamports {
                self.bads.push(bad(&["C21"], "undelegated queue differs from the committed state", format!("{} vs {}", spec::brief(&b), spec::brief(&er))));
            }
            if let (Some(gb), Some(ge)) = (self.base.ghost.queues.get_mut(q), self.er.ghost.queues.remove(q)) {
                if ge.usable && gb.pending != ge.pending {
                    self.bads.push(bad(&["C21", "C14"], "requests lost or altered by the undelegation", format!("{} vs {}", gb.pending.len(), ge.pending.len())));
                    gb.pending = ge.pending;
                }
            }
            self.er.svm.accts.remove(q);
            self.er.total = self.er.svm.total_lamports();
        } else if !self.bads.iter().any(|b| b.props.contains(&"C21")) {
            self.bads.push(bad(&["C21", "C22"], "undelegation could not be completed", format!("{:?}", r.err)));
        }
        r
    }

    pub fn proof(&self, o: &OracleKey, input: &[u8; 32]) -> refvrf::Proof {
        // the service's prover is the code under test
        let (out, (cb, ch, s)) = ephemeral_vrf::vrf::compute_vrf(o.sk, input);
        refvrf::Proof { out: out.to_bytes(), cb: cb.to_bytes(), ch: ch.to_bytes(), s: s.to_bytes() }
    }
}

pub fn describe_call(c: &Call) -> String {
    let a: Vec<String> = c
        .accts
        .iter()
        .map(|x| format!("{}{}{}", short(&x.key), if x.signer { "*" } else { "" }, if x.writable { "+" } else { "" }))
        .collect();
    format!("accounts [{}] data {}", a.join(" "), hex(&c.data[..c.data.len().min(200)]))
}

/// Program and script of a scripted proxy call.
pub fn proxied(ix: &Instruction) -> Option<(Pubkey, Vec<Act>)> {
    if ix.data.len() != 16 || &ix.data[..8] != MAGIC_SCRIPT {
        return None;
    }
    let i = u64::from_le_bytes(ix.data[8..16].try_into().unwrap()) as usize;
    SCRIPTS.with(|s| s.borrow().get(i).map(|a| (ix.program_id, a.clone())))
}

/// The instruction a scripted proxy would invoke first.
pub fn peek_script(ix: &Instruction) -> Option<Instruction> {
    if ix.data.len() != 16 || &ix.data[..8] != MAGIC_SCRIPT {
        return None;
    }
    let i = u64::from_le_bytes(ix.data[8..16].try_into().unwrap()) as usize;
    SCRIPTS.with(|s| {
        s.borrow().get(i).and_then(|a| {
            a.iter().find_map(|x| match x {
                Act::Cpi(ix, _) => Some(ix.clone()),
                _ => None,
            })
        })
    })
}
