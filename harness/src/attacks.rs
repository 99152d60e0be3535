//! Directed attacks. Each one is a short multi-step story that needs specific
//! circumstances; the monitor in `world` judges every step of it.
use crate::engine::Engine;
use crate::ixs;
use crate::layout::*;
use crate::svm::*;
use crate::world::*;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;

pub const NAMES: [&str; 28] = [
    "forged record",
    "forged queue",
    "request into a foreign or wrong account",
    "forged undelegation",
    "foreign delegation program",
    "forged program data",
    "usurped registry",
    "queue of another oracle",
    "close by another",
    "cross-oracle answer",
    "forged slot hashes",
    "same request twice in a slot",
    "impersonated callback program",
    "double fulfilment in one transaction",
    "aliased accounts",
    "fee redirection",
    "premature queue",
    "reopened queue",
    "request and answer in one transaction",
    "wrong seeds on undelegation",
    "removal with open queues",
    "removed oracle goes on",
    "nested through a proxy",
    "default queue",
    "sponsored answer",
    "delegation by another",
    "swept queue",
    "ingredients of an id",
];

pub fn random_attack(e: &mut Engine, er: bool) {
    let k = e.w.rng.idx(NAMES.len());
    attack(e, k, er);
}

fn evil_ix(e: &Engine, ix: Instruction, pdas: Vec<Pubkey>) -> Instruction {
    script_ix(e.w.evil, vec![Act::Cpi(ix, pdas)], &[])
}

fn simple_request(e: &mut Engine, program: Pubkey) -> Request {
    let seed = [e.w.rng.below(3) as u8; 32];
    let args = e.w.rng.bytes(4);
    Request { seed, program, disc: vec![1; 8], metas: vec![], args }
}

fn a_mature_oracle(e: &mut Engine) -> OracleKey {
    let o = e.oracle();
    if !e.w.base.ghost.recs.contains_key(&o.key) {
        let a = e.w.admin;
        e.w.run(false, vec![ixs::modify(a, o.key, o.pk, 0)], "register oracle");
    }
    let s = e.w.base.ghost.recs.get(&o.key).map(|r| r.1).unwrap_or(0);
    let now = e.w.base.svm.slot;
    if now < s + MATURITY {
        e.w.base.svm.warp(s + MATURITY - now);
    }
    o
}

/// A usable queue on the chosen chain, opening one if there is none.
fn a_queue(e: &mut Engine, er: bool) -> Option<(OracleKey, Pubkey, u8)> {
    if let Some((q, o, i)) = e.usable_one(er) {
        if let Some(o) = e.oracle_by(&o) {
            return Some((o, q, i));
        }
    }
    if er {
        return None;
    }
    let o = a_mature_oracle(e);
    let i = e.index();
    let u = e.user();
    e.init_full(u, &o, i, 3000);
    let q = queue_key(&o.key, i);
    e.w.base.ghost.queues.get(&q).filter(|g| g.usable && !g.delegated)?;
    Some((o, q, i))
}

/// A queue with a pending request made in an earlier slot.
fn a_pending(e: &mut Engine, er: bool) -> Option<(OracleKey, Pubkey, Entry)> {
    if e.pick_pending(er).is_none() {
        let (_, q, _) = a_queue(e, er)?;
        let ix = e.request_ix(er, q);
        e.w.run(er, vec![ix], "request");
    }
    let (o, q, en) = e.pick_pending(er)?;
    let c = if er { &mut e.w.er } else { &mut e.w.base };
    if c.svm.slot <= en.slot {
        c.svm.warp(1);
    }
    Some((o, q, en))
}

pub fn attack(e: &mut Engine, k: usize, er: bool) {
    e.w.stats.bump(&format!("attack: {}", NAMES[k]));
    let u = e.user();
    let evil = e.w.evil;
    let admin = e.w.admin;
    match k {
        0 => {
            // a user plays oracle with a record of his own making
            let Some((_, q, en)) = a_pending(e, er) else { return };
            let me = *e.w.rng.pick(&e.w.users.clone());
            let mine = e.w.oracles[0].clone();
            let p = e.w.proof(&mine, &en.id);
            let rec = build_record(&Record { vrf_pk: mine.pk, reg_slot: 0, open: 1 });
            let free = !e.w.base.svm.accts.contains_key(&record_key(&me)) && !e.w.er.svm.accts.contains_key(&record_key(&me));
            let at = if !free || e.w.rng.chance(1, 2) { Pubkey::new_from_array(e.w.rng.b32()) } else { record_key(&me) };
            let owner = if at == record_key(&me) { *e.w.rng.pick(&[evil, DLP]) } else { evil };
            e.w.plant(er, at, Acct { lamports: rent_min(rec.len()), data: rec, owner, executable: false });
            let mut ix = ixs::provide(me, q, &en.id, &p, en.program, &en.metas);
            ix.accounts[2].pubkey = at;
            e.w.run(er, vec![ix.clone()], "answer with a forged record");
            // and with a real record of somebody else
            ix.accounts[2].pubkey = record_key(&mine.key);
            e.w.run(er, vec![ix], "answer with a borrowed record");
            // open a queue with it
            let mut ix = ixs::init_queue(u, me, 0, 200);
            ix.accounts[2].pubkey = at;
            e.w.run(er, vec![ix], "open a queue with a forged record");
            remove_plant(e, er, &at);
        }
        1 => {
            // a forged queue promising requests that were never paid for
            let o = e.oracle();
            let prog = e.prog();
            let en = Entry { slot: 1, id: e.w.rng.b32(), program: prog, disc: vec![1; 8], metas: vec![], args: vec![], prio: 1 };
            let idx = e.index();
            let d = build_queue(idx, 400, &[en.clone()]);
            let at = if e.w.rng.chance(1, 3) { queue_key(&o.key, idx) } else { Pubkey::new_from_array(e.w.rng.b32()) };
            let c = if er { &e.w.er } else { &e.w.base };
            if at == queue_key(&o.key, idx) && (c.svm.get(&at).owner == VRF || c.ghost.queues.contains_key(&at)) {
                return;
            }
            e.w.plant(er, at, Acct { lamports: 10_000_000_000, data: d, owner: evil, executable: false });
            let ix = e.provide_ix(&o, at, &en);
            e.w.run(er, vec![ix], "answer from a forged queue");
            let ix = e.request_ix(er, at);
            e.w.run(er, vec![ix], "request into a forged queue");
            let mut ix = ixs::purge(o.key, idx);
            ix.accounts[1].pubkey = at;
            e.w.run(er, vec![ix], "purge a forged queue");
            let mut ix = ixs::close(o.key, idx);
            ix.accounts[2].pubkey = at;
            e.w.run(er, vec![ix], "close a forged queue");
            remove_plant(e, er, &at);
        }
        2 => {
            // requests aimed at accounts of the program that are not usable queues
            let o = e.oracle();
            let mut t = vec![oracles_key(), record_key(&o.key), VRF_IDENTITY, u];
            t.extend(e.w.base.ghost.queues.keys().copied());
            let i = e.index();
            if e.w.rng.chance(1, 2) {
                // a partly allocated queue
                let o = a_mature_oracle(e);
                let q = queue_key(&o.key, i);
                e.w.run(false, vec![ixs::init_queue(u, o.key, i, 31_000)], "first allocation step");
                t.push(q);
                t.push(q);
                t.push(q);
            }
            let at = *e.w.rng.pick(&t);
            let ix = e.request_ix(er, at);
            e.w.run(er, vec![ix], "request into another account");
            // whatever happened, the owner must be able to go on
            e.w.run(false, vec![ixs::init_queue(u, o.key, i, 31_000)], "next allocation step");
            let a = e.w.admin;
            e.w.run(false, vec![ixs::modify(a, o.key, o.pk, 0)], "register oracle");
        }
        3 => {
            // a hostile program delegates an address of its own and uses it as a buffer
            let v = e.w.rng.below(5);
            let me = *e.w.rng.pick(&e.w.users.clone());
            let idx = e.index();
            let (target, seeds, data): (Pubkey, Vec<Vec<u8>>, Vec<u8>) = match v {
                0 => (record_key(&me), vec![b"oracle".to_vec(), me.to_bytes().to_vec()], build_record(&Record { vrf_pk: e.w.oracles[0].pk, reg_slot: 0, open: 0 })),
                1 => {
                    let prog = e.prog();
                    let en = Entry { slot: 1, id: e.w.rng.b32(), program: prog, disc: vec![], metas: vec![], args: vec![], prio: 1 };
                    (queue_key(&me, idx), vec![b"queue".to_vec(), me.to_bytes().to_vec(), vec![idx]], build_queue(idx, 300, &[en]))
                }
                2 => (oracles_key(), vec![b"oracles".to_vec()], build_oracles(&[me])),
                3 => (VRF_IDENTITY, vec![b"identity".to_vec()], vec![0; 8]),
                _ => {
                    let o = e.oracle();
                    (queue_key(&o.key, idx), vec![b"queue".to_vec(), o.key.to_bytes().to_vec(), vec![idx]], build_queue(idx, 300, &[]))
                }
            };
            let pda = identity_of(&evil);
            let buf = match e.w.rng.below(4) {
                0 => undelegate_buffer(&u),
                1 => delegate_buffer(&target),
                _ => pda,
            };
            let owner = if e.w.rng.chance(3, 4) { DLP } else { evil };
            e.w.plant(er, buf, Acct { lamports: rent_min(data.len()), data, owner, executable: false });
            let ix = ixs::process_undelegation(target, buf, u, &seeds);
            let ix = if e.w.rng.chance(1, 5) {
                let mut i = ix;
                i.accounts[1].is_signer = false;
                i
            } else {
                evil_ix(e, ix, vec![buf])
            };
            e.w.run(er, vec![ix], "re-create an account from a hostile buffer");
            remove_plant(e, er, &buf);
            // a forged account would now be used
            let c = if er { &mut e.w.er } else { &mut e.w.base };
            if c.svm.get(&target).owner == VRF && !c.ghost.queues.contains_key(&target) && !c.ghost.recs.keys().any(|o| record_key(o) == target) && target != oracles_key() {
                c.svm.accts.remove(&target);
                World::resync(c);
            }
        }
        4 => {
            let Some((o, q, i)) = a_queue(e, false) else { return };
            let mut ix = ixs::delegate(o.key, i);
            match e.w.rng.below(5) {
                0 => ix.accounts[5].pubkey = evil,
                1 => ix.accounts[6].pubkey = evil,
                2 => {
                    // another authority
                    ix.accounts[0].pubkey = u;
                }
                3 => {
                    ix.accounts[0].pubkey = u;
                    ix.data[8] = e.w.rng.below(4) as u8;
                    ix.accounts[5].pubkey = evil;
                }
                _ => {
                    ix.accounts[0].is_signer = false;
                }
            }
            if e.w.rng.chance(1, 2) {
                set_behaviour(evil, vec![Act::Assign(q, evil)]);
            }
            e.w.run(false, vec![ix], "delegate to an impostor");
            set_behaviour(evil, vec![]);
        }
        5 => {
            let o = e.oracle();
            let op = e.w.rng.below(2) as u8;
            let mut ix = ixs::modify(u, o.key, o.pk, op);
            let at = Pubkey::new_from_array(e.w.rng.b32());
            let owner = match e.w.rng.below(3) {
                0 => evil,
                1 => LOADER_UPGRADEABLE, // another program's ProgramData
                _ => SYSTEM,
            };
            let at = if e.w.rng.chance(1, 3) { Pubkey::find_program_address(&[evil.as_ref()], &LOADER_UPGRADEABLE).0 } else { at };
            e.w.plant(er, at, Acct { lamports: 1_000_000_000, data: build_programdata(Some(u)), owner, executable: false });
            ix.accounts[3].pubkey = at;
            e.w.run(er, vec![ix], "registry change with forged program data");
            remove_plant(e, er, &at);
        }
        6 => {
            let o = e.oracle();
            let op = e.w.rng.below(2) as u8;
            // the authority is present but silent, or signs something else
            let mut ix = ixs::modify(admin, o.key, o.pk, op);
            match e.w.rng.below(5) {
                0 => ix.accounts[0].is_signer = false,
                1 => ix.accounts[0].pubkey = u,
                2 => ix.accounts[0].pubkey = o.key,
                3 => {
                    ix.accounts[0].is_signer = false;
                    ix.accounts.push(meta(u, true, true));
                }
                _ => {
                    ix.accounts[0].pubkey = identity_of(&evil);
                    let ix = evil_ix(e, ix, vec![identity_of(&evil)]);
                    e.w.run(er, vec![ix], "registry change by a program");
                    return;
                }
            }
            e.w.run(er, vec![ix], "registry change without the authority");
            // unusable identities, asked for by the authority itself
            let id = match e.w.rng.below(4) {
                0 => Pubkey::default(),
                1 => SYSTEM,
                _ => e.off_curve(),
            };
            e.w.run(er, vec![ixs::modify(admin, id, o.pk, 0)], "register an unusable identity");
            let mut ix = ixs::modify(admin, o.key, o.pk, 2 + e.w.rng.below(254) as u8);
            if e.w.rng.chance(1, 2) {
                ix.data[8 + 64] = 0;
            }
            e.w.run(er, vec![ix], "unknown registry operation");
        }
        7 => {
            // open a queue for somebody else
            let o = a_mature_oracle(e);
            let idx = e.index();
            let mut ix = ixs::init_queue(u, o.key, idx, 300);
            match e.w.rng.below(4) {
                0 => ix.accounts[1].is_signer = false,
                1 => ix.accounts[1].pubkey = u,
                2 => {
                    // his signature, another's queue
                    let p = e.oracle();
                    ix.accounts[3].pubkey = queue_key(&p.key, idx);
                }
                _ => {
                    let p = e.oracle();
                    ix.accounts[2].pubkey = record_key(&p.key);
                }
            }
            e.w.run(er, vec![ix], "open a queue for another oracle");
        }
        8 => {
            let Some((o, q, i)) = a_queue(e, false) else { return };
            let p = e.oracle();
            let mut ix = ixs::close(o.key, i);
            match e.w.rng.below(5) {
                0 => ix.accounts[0].is_signer = false,
                1 => ix.accounts[0].pubkey = u,
                2 => ix = ixs::close(p.key, i),
                3 => ix.data[8] = ix.data[8].wrapping_add(1),
                _ => {
                    ix.accounts[0].pubkey = p.key;
                    ix.accounts[1].pubkey = record_key(&p.key);
                }
            }
            ix.accounts[2].pubkey = q;
            e.w.run(er, vec![ix], "close another oracle's queue");
        }
        9 => {
            let Some((o, q, en)) = a_pending(e, er) else { return };
            let p = e.oracle();
            let x = e.w.proof(&p, &en.id);
            let mut ix = ixs::provide(p.key, q, &en.id, &x, en.program, &en.metas);
            if e.w.rng.chance(1, 3) {
                ix.accounts[2].pubkey = record_key(&o.key);
            }
            e.w.run(er, vec![ix], "another oracle answers");
            // the right oracle names another of its queues
            let y = e.w.proof(&o, &en.id);
            let i2 = e.index();
            let q2 = queue_key(&o.key, i2);
            e.w.run(er, vec![ixs::provide(o.key, q2, &en.id, &y, en.program, &en.metas)], "answer through another queue");
            // input of one request, place of another
            let others = e.pend(er, &q);
            if let Some(b) = others.iter().find(|b| b.id != en.id).cloned() {
                let y = e.w.proof(&o, &en.id);
                e.w.run(er, vec![ixs::provide(o.key, q, &b.id, &y, b.program, &b.metas)], "proof of another request");
            }
        }
        10 => {
            let Some((_, q, _)) = a_queue(e, er) else { return };
            let at = Pubkey::new_from_array(e.w.rng.b32());
            let c = if er { &e.w.er } else { &e.w.base };
            let d = c.svm.data(&SLOT_HASHES).to_vec();
            e.w.plant(er, at, Acct { lamports: 1_000_000_000, data: d, owner: evil, executable: false });
            let r = e.gen_request(er, &q);
            let mut ix = ixs::request(u, q, &r, true);
            ix.accounts[4].pubkey = *e.w.rng.pick(&[at, SYSTEM, q]);
            let ix = e.via_program(ix, r.program);
            e.w.run(er, vec![ix], "request with forged slot hashes");
            remove_plant(e, er, &at);
        }
        11 => {
            // identical requests around a removal within one slot
            let Some((o, q, i)) = a_queue(e, er) else { return };
            let program = e.w.progs[0];
            for p in e.w.progs.clone() {
                set_behaviour(p, vec![]);
            }
            let r = simple_request(e, program);
            let mk = |e: &mut Engine| {
                let ix = ixs::request(u, q, &r, e.w.rng.chance(1, 2));
                e.via_program(ix, program)
            };
            let n = 1 + e.w.rng.idx(3);
            for _ in 0..n {
                let ix = mk(e);
                e.w.run(er, vec![ix], "request");
            }
            let purge = e.w.rng.chance(1, 3);
            let c = if er { &mut e.w.er } else { &mut e.w.base };
            c.svm.warp(if purge { TTL + 1 } else { 1 });
            let old = e.pend(er, &q);
            let mut tx: Vec<Instruction> = vec![];
            let m = 1 + e.w.rng.idx(2);
            for _ in 0..m {
                tx.push(mk(e));
            }
            if purge {
                tx.push(ixs::purge(o.key, i));
            } else {
                let take = 1 + e.w.rng.idx(old.len().clamp(1, 3));
                for en in old.iter().take(take) {
                    tx.push(e.provide_ix(&o, q, en));
                }
            }
            let m = 1 + e.w.rng.idx(3);
            for _ in 0..m {
                tx.push(mk(e));
            }
            if e.w.rng.chance(1, 2) {
                e.w.run(er, tx, "identical requests around a removal, one transaction");
            } else {
                for ix in tx {
                    e.w.run(er, vec![ix], "identical requests around a removal, one slot");
                }
            }
        }
        12 => {
            // ask in the name of another program
            let Some((_, q, _)) = a_queue(e, er) else { return };
            let victim = e.w.progs[0];
            let mut r = e.gen_request(er, &q);
            r.program = victim;
            let mut ix = ixs::request(u, q, &r, true);
            match e.w.rng.below(5) {
                0 => {
                    ix.accounts[1].is_signer = false;
                    e.w.run(er, vec![ix], "request in another program's name, unsigned");
                }
                1 => {
                    ix.accounts[1].pubkey = identity_of(&evil);
                    let ix = evil_ix(e, ix, vec![identity_of(&evil)]);
                    e.w.run(er, vec![ix], "request in another program's name, own identity");
                }
                2 => {
                    ix.accounts[1].pubkey = u;
                    e.w.run(er, vec![ix], "request in another program's name, user signature");
                }
                3 => {
                    ix.accounts[1].is_signer = false;
                    let ix = evil_ix(e, ix, vec![]);
                    e.w.run(er, vec![ix], "request in another program's name, nested");
                }
                _ => {
                    // another address derived by the victim program itself
                    let k = Pubkey::find_program_address(&[b"other"], &victim).0;
                    ix.accounts[1].pubkey = k;
                    let ix = script_ix(victim, vec![Act::Cpi(ix, vec![k])], &[]);
                    e.w.run(er, vec![ix], "request signed by another address of the program");
                }
            }
        }
        13 => {
            let Some((o, q, en)) = a_pending(e, er) else { return };
            set_behaviour(en.program, vec![]);
            let a = e.provide_ix(&o, q, &en);
            let b = e.provide_ix(&o, q, &en);
            match e.w.rng.below(3) {
                0 => {
                    e.w.run(er, vec![a, b], "answer twice in one transaction");
                }
                1 => {
                    e.w.run(er, vec![a.clone()], "answer");
                    e.w.run(er, vec![a], "answer again");
                }
                _ => {
                    let bad = script_ix(evil, vec![Act::Fail], &[]);
                    e.w.run(er, vec![a.clone(), bad], "answer in a failing transaction");
                    e.w.run(er, vec![a, ixs::purge(o.key, 0)], "answer and purge");
                }
            }
        }
        14 => {
            // one account in two roles
            let Some(mut ix) = e.honest(er) else { return };
            let wrapped = peek_script(&ix);
            let prog = ix.program_id;
            if let Some(i) = wrapped.clone() {
                ix = i;
            }
            let n = ix.accounts.len();
            if n < 2 {
                return;
            }
            for _ in 0..1 + e.w.rng.idx(2) {
                let (i, j) = (e.w.rng.idx(n), e.w.rng.idx(n));
                let (s, w) = (ix.accounts[i].is_signer, ix.accounts[i].is_writable);
                ix.accounts[i] = ix.accounts[j].clone();
                if e.w.rng.chance(1, 2) {
                    ix.accounts[i].is_writable |= w;
                    ix.accounts[i].is_signer |= s && e.w.keys.contains(&ix.accounts[i].pubkey);
                }
            }
            let ix = if wrapped.is_some() { script_ix(prog, vec![Act::Cpi(ix, vec![identity_of(&prog)])], &[]) } else { ix };
            e.w.run(er, vec![ix], "one account in two roles");
        }
        15 => {
            let Some((o, q, i)) = a_queue(e, er) else { return };
            let p = e.oracle();
            match e.w.rng.below(4) {
                0 => {
                    let mut ix = ixs::purge(u, i);
                    ix.accounts[1].pubkey = q;
                    e.w.run(er, vec![ix], "purge to a user");
                }
                1 => {
                    let mut ix = ixs::purge(p.key, i);
                    ix.accounts[1].pubkey = q;
                    e.w.run(er, vec![ix], "purge to another oracle");
                }
                2 => {
                    let mut ix = ixs::purge(o.key, i);
                    ix.accounts.push(meta(u, true, true));
                    e.w.run(er, vec![ix], "purge with another account");
                }
                _ => {
                    let mut ix = ixs::purge(o.key, i.wrapping_add(1));
                    ix.accounts[1].pubkey = q;
                    e.w.run(er, vec![ix], "purge with another index");
                }
            }
        }
        16 => {
            // as early as possible and earlier
            let o = e.oracle();
            let op = if e.w.base.ghost.recs.contains_key(&o.key) { 1 } else { 0 };
            e.w.run(false, vec![ixs::modify(admin, o.key, o.pk, op)], "registry change");
            if op == 1 {
                e.w.run(false, vec![ixs::modify(admin, o.key, o.pk, 0)], "register again");
            }
            let Some(r) = e.w.base.ghost.recs.get(&o.key).cloned() else { return };
            let i = e.index();
            for d in [0, MATURITY / 2, MATURITY - 1, MATURITY] {
                let now = e.w.base.svm.slot;
                let t = r.1 + d;
                if t > now {
                    e.w.base.svm.warp(t - now);
                }
                e.w.run(false, vec![ixs::init_queue(u, o.key, i, 500)], "open as soon as mature");
            }
        }
        17 => {
            // close, reopen smaller or larger, look for remains
            let Some((o, q, i)) = a_queue(e, false) else { return };
            if !e.pend(false, &q).is_empty() {
                e.w.base.svm.warp(TTL + 1);
                e.w.run(false, vec![ixs::purge(o.key, i)], "purge all");
            }
            let size = e.queue_size();
            let n = size.div_ceil(10_240).max(1) as usize;
            let inits: Vec<Instruction> = (0..n).map(|_| ixs::init_queue(u, o.key, i, size)).collect();
            match e.w.rng.below(3) {
                0 => {
                    let mut v = vec![ixs::close(o.key, i)];
                    v.extend(inits);
                    e.w.run(false, v, "close and reopen in one transaction");
                }
                1 => {
                    e.w.run(false, vec![ixs::close(o.key, i)], "close");
                    let l = 1 + e.w.rng.below(3_000_000);
                    e.donate(&q, l);
                    e.w.run(false, inits, "reopen");
                }
                _ => {
                    // reopen without closing
                    e.w.run(false, inits, "open an open queue");
                    e.w.run(false, vec![ixs::close(o.key, i)], "close");
                    e.w.run(false, vec![ixs::close(o.key, i)], "close again");
                }
            }
        }
        18 => {
            let Some((o, q, _)) = a_queue(e, er) else { return };
            let program = e.w.progs[1];
            set_behaviour(program, vec![]);
            let r = simple_request(e, program);
            let ix = ixs::request(u, q, &r, true);
            let ix = e.via_program(ix, program);
            let res = e.w.run(er, vec![ix.clone()], "request");
            if !res.ok() {
                return;
            }
            let Some(en) = e.pend(er, &q).last().cloned() else { return };
            let a = e.provide_ix(&o, q, &en);
            e.w.run(er, vec![ix, a.clone()], "request and answer at once");
            e.w.run(er, vec![a], "answer in the same slot");
        }
        19 => {
            // genuine buffer address, wrong or foreign seeds, existing targets
            let o = e.oracle();
            let p = e.oracle();
            let (i, j) = (e.index(), e.index());
            let t = queue_key(&o.key, i);
            let buf = undelegate_buffer(&t);
            let target = if e.w.rng.chance(1, 2) { t } else { queue_key(&p.key, j) };
            let mut seeds = vec![b"queue".to_vec(), o.key.to_bytes().to_vec(), vec![i]];
            match e.w.rng.below(4) {
                0 => seeds = vec![b"queue".to_vec(), p.key.to_bytes().to_vec(), vec![j]],
                1 => seeds = vec![b"oracles".to_vec()],
                2 => seeds.push(vec![0; 33]),
                _ => {}
            }
            let d = build_queue(i, 300, &[]);
            e.w.plant(er, buf, Acct { lamports: rent_min(d.len()), data: d, owner: DLP, executable: false });
            let mut ix = ixs::process_undelegation(target, buf, u, &seeds);
            let live = {
                let c = if er { &e.w.er } else { &e.w.base };
                c.svm.get(&target).owner == VRF || target != t
            };
            if live {
                // even if the delegation program itself asked for it
                let ix = evil_ix(e, ix.clone(), vec![buf]);
                e.w.run(er, vec![ix], "re-create an existing or unrelated account");
            }
            ix.accounts[1].is_signer = false;
            e.w.run(er, vec![ix], "re-create without the buffer's signature");
            remove_plant(e, er, &buf);
        }
        20 => {
            let open: Vec<Pubkey> = e.w.base.ghost.queues.values().filter(|q| q.usable).map(|q| q.oracle).collect();
            if open.is_empty() {
                return;
            }
            let o = *e.w.rng.pick(&open);
            e.w.run(false, vec![ixs::modify(admin, o, [0; 32], 1)], "remove an oracle with open queues");
            // partly allocated queues and their closing must not help
            let Some(ok) = e.oracle_by(&o) else { return };
            for i in 0..3 {
                let k = queue_key(&o, i);
                if e.w.base.svm.get(&k).owner != VRF && e.w.base.svm.get(&k).owner != DLP && e.w.rng.chance(1, 2) {
                    e.w.run(false, vec![ixs::init_queue(u, ok.key, i, 31_000)], "first allocation step");
                    e.w.run(false, vec![ixs::close(ok.key, i)], "close a partly allocated queue");
                    e.w.run(false, vec![ixs::modify(admin, o, [0; 32], 1)], "remove an oracle with open queues");
                    break;
                }
            }
        }
        21 => {
            // remove, then act; register again with another key, then replay
            let o = a_mature_oracle(e);
            for i in 0..3 {
                if e.w.base.ghost.queues.contains_key(&queue_key(&o.key, i)) {
                    return;
                }
            }
            e.w.run(false, vec![ixs::modify(admin, o.key, o.pk, 1)], "remove");
            e.w.run(false, vec![ixs::init_queue(u, o.key, 0, 300)], "open a queue after removal");
            let q = e.w.oracles[e.w.rng.idx(e.w.oracles.len())].pk;
            e.w.run(false, vec![ixs::modify(admin, o.key, q, 0)], "register with another key");
            e.w.run(false, vec![ixs::init_queue(u, o.key, 0, 300)], "open a queue right after");
            e.w.run(false, vec![ixs::modify(admin, o.key, q, 1), ixs::modify(admin, o.key, o.pk, 0)], "replace the key");
        }
        22 => {
            // everything again as a nested call, also two levels deep
            let Some(ix) = e.honest(er) else { return };
            let ix = peek_script(&ix).unwrap_or(ix);
            let s: Vec<Pubkey> = if e.w.rng.chance(1, 2) { vec![] } else { ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect() };
            let s: Vec<Pubkey> = s.into_iter().filter(|k| !on_curve(k) && *k == identity_of(&evil)).collect();
            let a = evil_ix(e, ix, s);
            let p = e.w.progs[0];
            let b = if e.w.rng.chance(1, 2) { script_ix(p, vec![Act::Cpi(a, vec![])], &[]) } else { a };
            e.w.run(er, vec![b], "nested call");
        }
        24 => {
            // an account listed as signer pays for, or co-signs, the answer
            let Some((o, q, i)) = a_queue(e, er) else { return };
            let program = e.w.progs[e.w.rng.idx(e.w.progs.len())];
            let thief = *e.w.rng.pick(&e.w.state_accts.clone());
            set_behaviour(program, vec![Act::StealSigners(thief)]);
            let payer = *e.w.rng.pick(&e.w.users.clone());
            let p = e.oracle();
            let mut r = simple_request(e, program);
            r.metas = vec![(payer, true, e.w.rng.chance(3, 4)), (thief, false, true)];
            if e.w.rng.chance(1, 2) {
                r.metas.push((SYSTEM, false, false));
            }
            if p.key != o.key {
                r.metas.push((p.key, e.w.rng.chance(1, 2), true));
            }
            if e.w.rng.chance(1, 4) {
                r.metas.push((VRF_IDENTITY, true, true));
            }
            let ix = ixs::request(u, q, &r, e.w.rng.chance(1, 2));
            let ix = e.via_program(ix, program);
            if !e.w.run(er, vec![ix], "request that lists signers").ok() {
                return;
            }
            let c = if er { &mut e.w.er } else { &mut e.w.base };
            c.svm.warp(1);
            let Some(en) = e.pend(er, &q).last().cloned() else { return };
            let a = e.provide_ix(&o, q, &en);
            let tx = Tx { payer: Some(payer), signers: [o.key, payer, p.key].into(), ixs: vec![script_ix(evil, vec![], &[(p.key, true, true)]), a] };
            e.w.step(er, &tx, "answer paid for and co-signed by others");
            let tx = Tx { payer: Some(payer), signers: [payer].into(), ixs: vec![ixs::purge(o.key, i)] };
            e.w.step(er, &tx, "purge paid for by a user");
        }
        25 => {
            // (un)delegation asked for by anybody but the owner
            let live = !e.usable(true).is_empty();
            let del = e.w.rng.chance(1, 2) || !live;
            let Some((o, q, i)) = a_queue(e, !del) else { return };
            let mut ix = if del { ixs::delegate(o.key, i) } else { ixs::undelegate(o.key, i) };
            let why = if del { "delegation by another" } else { "undelegation by another" };
            let chain = !del;
            match e.w.rng.below(5) {
                0 => ix.accounts[0].pubkey = u,
                1 => {
                    let p = e.oracle();
                    if p.key == o.key {
                        return;
                    }
                    ix.accounts[0].pubkey = p.key;
                }
                2 => ix.accounts[0].is_signer = false,
                3 => {
                    ix.accounts[0].is_signer = false;
                    ix = evil_ix(e, ix, vec![]);
                }
                _ => {
                    let me = identity_of(&evil);
                    ix.accounts[0].pubkey = me;
                    if del {
                        let c = &mut e.w.base;
                        c.svm.airdrop(&me, 10_000_000_000);
                        e.w.retotal();
                    }
                    ix = evil_ix(e, ix, vec![me]);
                }
            }
            let _ = q;
            e.w.run(chain, vec![ix], why);
            // the right oracle, another of his queues
            let mut ix = if del { ixs::delegate(o.key, i) } else { ixs::undelegate(o.key, i) };
            let p = e.oracle();
            let j = e.index();
            ix.accounts[1].pubkey = queue_key(&p.key, j);
            e.w.run(chain, vec![ix], why);
        }
        26 => {
            // live and expired requests in every arrangement, swept by a stranger and then answered
            let Some((o, q, i)) = a_queue(e, er) else { return };
            let program = e.w.progs[0];
            set_behaviour(program, vec![]);
            let n = 2 + e.w.rng.idx(6);
            for _ in 0..n {
                let r = simple_request(e, program);
                let ix = ixs::request(u, q, &r, e.w.rng.chance(1, 2));
                let ix = e.via_program(ix, program);
                e.w.run(er, vec![ix], "request");
                let d = *e.w.rng.pick(&[0, 0, 1, 1, TTL / 2, TTL]);
                let c = if er { &mut e.w.er } else { &mut e.w.base };
                c.svm.warp(d);
                if e.w.rng.chance(1, 3) {
                    // leave a hole
                    let p = e.pend(er, &q);
                    if p.len() > 1 {
                        let k = e.w.rng.idx(p.len() - 1);
                        let a = e.provide_ix(&o, q, &p[k]);
                        e.w.run(er, vec![a], "answer, leaving a hole");
                    }
                }
            }
            let tx = Tx { payer: Some(u), signers: [u].into(), ixs: vec![ixs::purge(o.key, i)] };
            e.w.step(er, &tx, "purge by a stranger");
            let c = if er { &mut e.w.er } else { &mut e.w.base };
            c.svm.warp(1);
            for en in e.pend(er, &q) {
                let a = e.provide_ix(&o, q, &en);
                e.w.run(er, vec![a], "answer after a purge");
            }
            e.fresh_capacity(er, q);
        }
        27 => ingredients(e, er),
        _ => {
            // 23: the fee-free queue
            if e.w.base.ghost.queues.contains_key(&DEFAULT_EPHEMERAL_QUEUE) {
                let ix = e.request_ix(false, DEFAULT_EPHEMERAL_QUEUE);
                e.w.run(false, vec![ix], "request into the default queue");
                let o = e.oracle();
                let mut ix = ixs::purge(o.key, 0);
                ix.accounts[1].pubkey = DEFAULT_EPHEMERAL_QUEUE;
                e.w.run(false, vec![ix], "purge of the default queue");
                let p = e.pend(false, &DEFAULT_EPHEMERAL_QUEUE);
                if let Some(en) = p.first().cloned() {
                    let ix = e.provide_ix(&o, DEFAULT_EPHEMERAL_QUEUE, &en);
                    e.w.run(false, vec![ix], "answer in the default queue by another oracle");
                }
            }
        }
    }
}

fn remove_plant(e: &mut Engine, er: bool, k: &Pubkey) {
    let c = if er { &mut e.w.er } else { &mut e.w.base };
    c.svm.accts.remove(k);
    c.planted.remove(k);
    e.w.fakes.retain(|x| x != k);
    e.w.retotal();
}

/// Histories at sizes the random walk does not reach: all queues of an oracle, a registry of
/// hundreds, a queue of hundreds of requests.
pub fn scale(e: &mut Engine, kind: &str) {
    let u = e.w.users[0];
    let (a, program) = (e.w.admin, e.w.progs[0]);
    set_behaviour(program, vec![]);
    match kind {
        "scale-queues" => {
            // every queue an oracle can have
            let o = a_mature_oracle(e);
            e.w.stats.bump("scale: every queue of an oracle");
            let first = e.w.rng.idx(256);
            for k in 0..256usize {
                let i = ((first + k) % 256) as u8;
                if !e.w.base.ghost.queues.contains_key(&queue_key(&o.key, i)) {
                    e.init_full(u, &o, i, 24 + 8 * (k as u32 % 30));
                }
                if k % 32 == 31 || k > 250 {
                    e.w.run(false, vec![ixs::modify(a, o.key, o.pk, 1)], "remove an oracle with many queues");
                }
            }
            let i = e.w.rng.below(256) as u8;
            e.w.run(false, vec![ixs::close(o.key, i)], "close one of many queues");
            e.w.run(false, vec![ixs::modify(a, o.key, o.pk, 1)], "remove an oracle with many queues");
            e.init_full(u, &o, i, 500);
            e.w.run(false, vec![ixs::modify(a, o.key, o.pk, 1)], "remove an oracle with many queues");
            let mut order: Vec<u8> = (0..=255).collect();
            if e.w.rng.chance(1, 2) {
                order.reverse();
            }
            for i in order {
                let en = e.pend(false, &queue_key(&o.key, i));
                for x in en {
                    let ix = e.provide_ix(&o, queue_key(&o.key, i), &x);
                    e.w.base.svm.warp(1);
                    e.w.run(false, vec![ix], "answer before closing");
                }
                e.w.run(false, vec![ixs::close(o.key, i)], "close one of many queues");
            }
            e.w.run(false, vec![ixs::modify(a, o.key, o.pk, 1)], "remove an oracle after all its queues");
        }
        "scale-oracles" => {
            // a registry of hundreds
            e.w.stats.bump("scale: a registry of hundreds");
            let n = 300 + e.w.rng.below(60);
            let mut ids = vec![];
            let mut x = 0u64;
            while (ids.len() as u64) < n {
                x += 1;
                let k = {
                    use solana_sdk::signature::Signer;
                    key_from(e.w.rng.u64(), "many", x).pubkey()
                };
                if usable_identity(&k) {
                    ids.push(k);
                }
            }
            for (j, k) in ids.iter().enumerate() {
                let pk = e.w.oracles[j % e.w.oracles.len()].pk;
                e.w.run(false, vec![ixs::modify(a, *k, pk, 0)], "register one of hundreds");
                if j % 64 == 5 {
                    e.w.run(false, vec![ixs::modify(a, *k, pk, 0)], "register again");
                }
            }
            for _ in 0..40 {
                let k = *e.w.rng.pick(&ids);
                e.w.run(false, vec![ixs::modify(a, k, [0; 32], 1)], "remove one of hundreds");
                if e.w.rng.chance(1, 2) {
                    let pk = e.w.oracles[0].pk;
                    e.w.run(false, vec![ixs::modify(a, k, pk, 0)], "register again");
                }
            }
            for _ in 0..20 {
                e.op();
            }
        }
        _ => {
            // one queue of hundreds of requests, answered and purged in the middle and at both ends
            e.w.stats.bump("scale: a queue of hundreds of requests");
            let o = a_mature_oracle(e);
            let i = 7;
            let size = *e.w.rng.pick(&[40_000u32, 81_920, 150_000]);
            e.init_full(u, &o, i, size);
            let q = queue_key(&o.key, i);
            if !e.w.base.ghost.queues.get(&q).is_some_and(|g| g.usable) {
                return;
            }
            let large = e.w.rng.chance(1, 3);
            let mut misses = 0;
            for k in 0..420u64 {
                let mut r = simple_request(e, program);
                r.seed = [k as u8; 32];
                if large || e.w.rng.chance(1, 8) {
                    r = e.gen_request(false, &q);
                    r.program = program;
                }
                let ix = ixs::request(u, q, &r, k % 3 == 0);
                let ix = e.via_program(ix, program);
                if !e.w.run(false, vec![ix], "one of hundreds of requests").ok() {
                    misses += 1;
                    if misses > 12 {
                        break;
                    }
                } else {
                    misses = 0;
                }
                if k % 40 == 39 {
                    e.w.base.svm.warp(17);
                }
            }
            let most = e.pend(false, &q).len() as u64;
            *e.w.stats.extra.entry("scale: requests pending in one queue".into()).or_default() += most;
            e.w.base.svm.warp(1);
            for _ in 0..30 {
                let p = e.pend(false, &q);
                if p.is_empty() {
                    break;
                }
                let k = *e.w.rng.pick(&[0, p.len() - 1, p.len() / 2, 255.min(p.len() - 1), 256.min(p.len() - 1)]);
                let ix = e.provide_ix(&o, q, &p[k]);
                e.w.run(false, vec![ix], "answer one of hundreds");
            }
            e.w.base.svm.warp(TTL - 100);
            e.w.run(false, vec![ixs::purge(o.key, i)], "purge among hundreds");
            e.w.base.svm.warp(40);
            e.w.run(false, vec![ixs::purge(o.key, i)], "purge among hundreds");
            e.w.base.svm.warp(TTL);
            e.w.run(false, vec![ixs::purge(o.key, i)], "purge all of hundreds");
            e.fresh_capacity(false, q);
        }
    }
}

/// One request made over and over on copies of the same chain, with one
/// ingredient of its id changed each time: all the ids must differ.
pub fn ingredients(e: &mut Engine, er: bool) {
    let Some((_, q, _)) = a_queue(e, er) else { return };
    let u = e.user();
    for p in e.w.progs.clone() {
        set_behaviour(p, vec![]);
    }
    let high = e.w.rng.chance(1, 2);
    let base = {
        let mut r = e.gen_request(er, &q);
        r.metas.clear();
        r.args.truncate(20);
        if r.disc.is_empty() {
            r.disc = vec![7];
        }
        r
    };
    let chain = if er { &e.w.er.svm } else { &e.w.base.svm }.clone();
    let mut cases: Vec<(String, Svm, Request)> = vec![("nothing".into(), chain.clone(), base.clone())];
    for i in 0..32 {
        let mut r = base.clone();
        r.seed[i] ^= 1 << e.w.rng.below(8);
        cases.push(("the seed".into(), chain.clone(), r));
        let mut c = chain.clone();
        c.accts.get_mut(&SLOT_HASHES).unwrap().data[16 + i] ^= 1 << e.w.rng.below(8);
        cases.push(("the slot hash".into(), c, base.clone()));
    }
    for i in 0..base.disc.len() {
        let mut r = base.clone();
        r.disc[i] ^= 1 << e.w.rng.below(8);
        cases.push(("the discriminator".into(), chain.clone(), r));
    }
    for d in [vec![], base.disc[..base.disc.len() - 1].to_vec()] {
        let mut r = base.clone();
        if r.disc.len() > 1 || d.is_empty() {
            r.disc = d;
            if !cases.iter().any(|c| c.2.disc == r.disc) {
                cases.push(("the discriminator".into(), chain.clone(), r));
            }
        }
    }
    for p in e.w.progs.clone() {
        if p != base.program {
            let mut r = base.clone();
            r.program = p;
            cases.push(("the callback program".into(), chain.clone(), r));
        }
    }
    for b in [0, 1, 8, 16, 31, 32, 40] {
        let mut c = chain.clone();
        c.slot ^= 1 << b;
        cases.push(("the slot".into(), c, base.clone()));
        let mut c = chain.clone();
        c.unix_ts ^= 1 << b;
        cases.push(("the time".into(), c, base.clone()));
    }
    let mut seen: std::collections::HashMap<[u8; 32], String> = Default::default();
    for (what, mut c, r) in cases {
        let before: BTreeSet<[u8; 32]> = parse_queue(c.data(&q)).map(|v| v.entries.iter().map(|x| x.id).collect()).unwrap_or_default();
        let ix = ixs::request(u, q, &r, high);
        let ix = script_ix(r.program, vec![Act::Cpi(ix, vec![identity_of(&r.program)])], &[]);
        let signers: BTreeSet<Pubkey> = ix.accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
        let tx = Tx { payer: Some(u), ixs: vec![ix], signers };
        if !c.exec(&tx).ok() {
            if what == "nothing" {
                return; // the queue is full, or the user has run out of money
            }
            continue;
        }
        let Ok(v) = parse_queue(c.data(&q)) else { return };
        let new: Vec<[u8; 32]> = v.entries.iter().map(|x| x.id).filter(|x| !before.contains(x)).collect();
        e.w.stats.bump("ids compared with one ingredient changed");
        for id in new {
            if let Some(o) = seen.insert(id, what.clone()) {
                let kind = if o == "nothing" { what.clone() } else { format!("{what} or {o}") };
                e.w.bads.push(crate::spec::bad(&["C11"], &format!("the id of a request does not depend on {kind}"), crate::util::hex(&id)));
            }
        }
    }
}
