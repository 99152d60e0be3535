//! Independently written instruction builders (documented wire format).
use crate::layout::*;
use crate::refvrf::Proof;
use crate::svm::meta;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;

fn ix(accounts: Vec<solana_program::instruction::AccountMeta>, tag: u8, body: &[u8]) -> Instruction {
    let mut data = vec![tag, 0, 0, 0, 0, 0, 0, 0];
    data.extend_from_slice(body);
    Instruction { program_id: VRF, accounts, data }
}
pub fn initialize(payer: Pubkey) -> Instruction {
    ix(vec![meta(payer, true, true), meta(oracles_key(), false, true), meta(SYSTEM, false, false)], 0, &[])
}
pub fn modify(admin: Pubkey, id: Pubkey, pk: [u8; 32], op: u8) -> Instruction {
    let mut b = id.to_bytes().to_vec();
    b.extend_from_slice(&pk);
    b.push(op);
    ix(
        vec![meta(admin, true, true), meta(oracles_key(), false, true), meta(record_key(&id), false, true), meta(programdata_key(), false, false), meta(SYSTEM, false, false)],
        1,
        &b,
    )
}
pub fn init_queue(payer: Pubkey, oracle: Pubkey, index: u8, target: u32) -> Instruction {
    let mut b = target.to_le_bytes().to_vec();
    b.extend_from_slice(&[index, 0, 0, 0]);
    ix(
        vec![meta(payer, true, true), meta(oracle, true, payer == oracle), meta(record_key(&oracle), false, true), meta(queue_key(&oracle, index), false, true), meta(SYSTEM, false, false)],
        2,
        &b,
    )
}
/// the identity must be signed for by the callback program itself
pub fn request(payer: Pubkey, queue: Pubkey, r: &Request, high: bool) -> Instruction {
    Instruction {
        program_id: VRF,
        accounts: vec![
            meta(payer, true, true),
            meta(identity_of(&r.program), true, false),
            meta(queue, false, true),
            meta(SYSTEM, false, false),
            meta(SLOT_HASHES, false, false),
        ],
        data: build_request(if high { 3 } else { 8 }, r),
    }
}
pub fn provide(oracle: Pubkey, queue: Pubkey, input: &[u8; 32], p: &Proof, cb: Pubkey, metas: &[(Pubkey, bool)]) -> Instruction {
    let mut b = input.to_vec();
    for x in [&p.out, &p.cb, &p.ch, &p.s] {
        b.extend_from_slice(x);
    }
    let mut a = vec![
        meta(oracle, true, true),
        meta(VRF_IDENTITY, false, false),
        meta(record_key(&oracle), false, false),
        meta(queue, false, true),
        meta(cb, false, false),
    ];
    for (k, w) in metas {
        a.push(meta(*k, false, *w));
    }
    ix(a, 4, &b)
}
pub fn delegate(oracle: Pubkey, index: u8) -> Instruction {
    let q = queue_key(&oracle, index);
    ix(
        vec![
            meta(oracle, true, true),
            meta(q, false, true),
            meta(delegate_buffer(&q), false, true),
            meta(delegation_record(&q), false, true),
            meta(delegation_metadata(&q), false, true),
            meta(DLP, false, false),
            meta(VRF, false, false),
            meta(SYSTEM, false, false),
        ],
        5,
        &[index],
    )
}
pub fn undelegate(oracle: Pubkey, index: u8) -> Instruction {
    ix(vec![meta(oracle, true, true), meta(queue_key(&oracle, index), false, true), meta(MAGIC_CTX, false, true), meta(MAGIC, false, false)], 6, &[index])
}
pub fn close(oracle: Pubkey, index: u8) -> Instruction {
    ix(vec![meta(oracle, true, true), meta(record_key(&oracle), false, true), meta(queue_key(&oracle, index), false, true)], 7, &[index])
}
pub fn purge(oracle: Pubkey, index: u8) -> Instruction {
    ix(vec![meta(oracle, false, true), meta(queue_key(&oracle, index), false, true)], 9, &[index])
}
pub fn process_undelegation(account: Pubkey, buffer: Pubkey, payer: Pubkey, seeds: &[Vec<u8>]) -> Instruction {
    let mut data = vec![196, 28, 41, 206, 48, 37, 51, 167];
    data.extend_from_slice(&borsh::to_vec(seeds).unwrap());
    Instruction { program_id: VRF, accounts: vec![meta(account, false, true), meta(buffer, true, true), meta(payer, true, true), meta(SYSTEM, false, false)], data }
}
