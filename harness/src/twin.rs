//! The real client builders against the independent ones: wherever the workload
//! is about to run a documented instruction, the instruction the real builder
//! makes from the same parameters is run on a copy of the chain and must do the
//! same thing.
use crate::ixs;
use crate::layout::*;
use crate::svm::*;
use crate::world::{proxied, script_ix, Act};
use ephemeral_vrf_api::prelude as api;
use ephemeral_vrf_sdk::instructions as sdk;
use solana_curve25519::{ristretto::PodRistrettoPoint, scalar::PodScalar};
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;

/// what the real builder makes for the same parameters, if `ix` is exactly as documented
pub fn rebuild_one(ix: &Instruction) -> Option<(&'static str, Instruction)> {
    if ix.program_id != VRF || ix.data.len() < 8 {
        return None;
    }
    let a = |i: usize| ix.accounts.get(i).map(|m| m.pubkey);
    let b = &ix.data[8..];
    let key = |o: usize| b.get(o..o + 32).map(|x| Pubkey::new_from_array(x.try_into().unwrap()));
    let (name, mine, real): (&str, Instruction, Instruction) = match ix.data[0] {
        0 => ("initialize", ixs::initialize(a(0)?), api::initialize(a(0)?)),
        1 => {
            let (id, pk, op) = (key(0)?, key(32)?.to_bytes(), *b.get(64)?);
            match op {
                0 => ("add_oracle", ixs::modify(a(0)?, id, pk, 0), api::add_oracle(a(0)?, id, pk)),
                1 if pk == [0; 32] => ("remove_oracle", ixs::modify(a(0)?, id, pk, 1), api::remove_oracle(a(0)?, id)),
                _ => return None,
            }
        }
        3 | 8 => {
            let (r, exact) = parse_request(b)?;
            if !exact {
                return None;
            }
            let p = || sdk::RequestRandomnessParams {
                payer: a(0).unwrap(),
                oracle_queue: a(2).unwrap(),
                callback_program_id: r.program,
                callback_discriminator: r.disc.clone(),
                accounts_metas: if r.metas.is_empty() { None } else { Some(r.metas.iter().map(|(k, s, w)| ephemeral_vrf_sdk::types::SerializableAccountMeta { pubkey: *k, is_signer: *s, is_writable: *w }).collect()) },
                caller_seed: r.seed,
                callback_args: if r.args.is_empty() { None } else { Some(r.args.clone()) },
            };
            a(2)?;
            let mine = ixs::request(a(0)?, a(2)?, &r, ix.data[0] == 3);
            if ix.data[0] == 3 {
                ("request", mine, sdk::create_request_randomness_ix(p()))
            } else {
                ("regular request", mine, sdk::create_request_regular_randomness_ix(p()))
            }
        }
        4 => {
            if b.len() != 160 || ix.accounts.len() < 5 {
                return None;
            }
            let f = |i: usize| -> [u8; 32] { b[32 * i..32 * i + 32].try_into().unwrap() };
            let p = crate::refvrf::Proof { out: f(1), cb: f(2), ch: f(3), s: f(4) };
            let metas: Vec<(Pubkey, bool)> = ix.accounts[5..].iter().map(|m| (m.pubkey, m.is_writable)).collect();
            let mine = ixs::provide(a(0)?, a(3)?, &f(0), &p, a(4)?, &metas);
            let mut real = api::provide_randomness(a(0)?, a(3)?, a(4)?, f(0), PodRistrettoPoint(p.out), PodRistrettoPoint(p.cb), PodRistrettoPoint(p.ch), PodScalar(p.s));
            real.accounts.extend_from_slice(&ix.accounts[5..]);
            ("provide", mine, real)
        }
        5 => {
            let (o, q, i) = (a(0)?, a(1)?, *b.first()?);
            ("delegate", ixs::delegate(o, i), api::delegate_oracle_queue(o, q, i))
        }
        6 => {
            let (o, q, i) = (a(0)?, a(1)?, *b.first()?);
            ("undelegate", ixs::undelegate(o, i), api::undelegate_oracle_queue(o, q, i))
        }
        7 => ("close", ixs::close(a(0)?, *b.first()?), api::close_oracle_queue(a(0)?, *b.first()?)),
        9 => ("purge", ixs::purge(a(0)?, *b.first()?), api::purge_expired_requests(a(0)?, *b.first()?)),
        _ => return None,
    };
    (mine == *ix).then_some((name, real))
}

/// The transaction as the real builders would make it; None when nothing in it is rebuilt.
pub fn rebuild(list: &[Instruction]) -> Option<(Vec<&'static str>, Vec<Instruction>)> {
    let (mut out, mut names, mut i) = (vec![], vec![], 0);
    while i < list.len() {
        let ix = &list[i];
        if let Some((program, acts)) = proxied(ix) {
            let mut hit = false;
            let acts: Vec<Act> = acts
                .into_iter()
                .map(|x| match x {
                    Act::Cpi(inner, pdas) => match rebuild_one(&inner) {
                        Some((n, real)) => {
                            hit = true;
                            names.push(n);
                            Act::Cpi(real, pdas)
                        }
                        None => Act::Cpi(inner, pdas),
                    },
                    x => x,
                })
                .collect();
            out.push(if hit { script_ix(program, acts, &[]) } else { ix.clone() });
            i += 1;
            continue;
        }
        if ix.program_id == VRF && ix.data.len() == 16 && ix.data[0] == 2 && ix.accounts.len() == 5 {
            let target = u32::from_le_bytes(ix.data[8..12].try_into().unwrap());
            let (p, o, index) = (ix.accounts[0].pubkey, ix.accounts[1].pubkey, ix.data[12]);
            let n = target.div_ceil(10_240) as usize;
            let run = list[i..].iter().take_while(|x| *x == ix).count();
            if n > 0 && run == n && *ix == ixs::init_queue(p, o, index, target) {
                out.extend(api::initialize_oracle_queue(p, o, index, Some(target)));
                names.push("initialize queue");
                i += n;
                continue;
            }
        }
        match rebuild_one(ix) {
            Some((n, real)) => {
                names.push(n);
                out.push(real);
            }
            None => out.push(ix.clone()),
        }
        i += 1;
    }
    (!names.is_empty()).then_some((names, out))
}

/// Run both versions on copies of the chain: (names, difference)
pub fn compare(svm: &Svm, tx: &Tx, keys: &BTreeSet<Pubkey>) -> Option<(Vec<&'static str>, Option<(String, String)>)> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rebuild(&tx.ixs)));
    let (names, list) = match r {
        Ok(x) => x?,
        Err(_) => return Some((vec![], Some(("a client builder aborts".into(), format!("{:?}", tx.ixs.iter().map(|i| i.data.clone()).collect::<Vec<_>>()))))),
    };
    let signers: BTreeSet<Pubkey> = list.iter().flat_map(|i| i.accounts.iter()).filter(|m| m.is_signer && keys.contains(&m.pubkey)).map(|m| m.pubkey).collect();
    let real_tx = Tx { payer: signers.iter().next().copied(), ixs: list, signers };
    let (mut s1, mut s2) = (svm.clone(), svm.clone());
    let mine = s1.exec(tx);
    let real = s2.exec(&real_tx);
    if !mine.ok() {
        return None; // both may fail, each in its own way
    }
    let what = names.join(", ");
    if !real.ok() {
        return Some((names, Some((format!("built {what} fails although allowed"), format!("error {:?} in instruction {:?}", real.err, real.failed_ix)))));
    }
    if mine.diff != real.diff {
        let k = mine.diff.iter().chain(real.diff.iter()).find(|(k, _)| mine.diff.get(k) != real.diff.get(k)).map(|(k, _)| k.to_string()).unwrap_or_default();
        return Some((names, Some((format!("built {what} does something else"), format!("account {k} differs")))));
    }
    // the steps the builder returns for a queue must be enough to open it
    if let Some(ix) = real_tx.ixs.last().filter(|ix| names.contains(&"initialize queue") && ix.program_id == VRF && ix.data.len() == 16 && ix.data[0] == 2) {
        let n = u32::from_le_bytes(ix.data[8..12].try_into().unwrap()).div_ceil(10_240) as usize;
        let q = ix.accounts[3].pubkey;
        if real_tx.ixs.iter().rev().take_while(|x| *x == ix).count() == n && s2.data(&q).get(..8) != Some(&[3, 0, 0, 0, 0, 0, 0, 0]) {
            return Some((names, Some(("built initialize queue leaves the queue unusable".into(), format!("{n} steps of {:?}", ix.data)))));
        }
    }
    Some((names, None))
}
