//! solana-invoke 0.5.0 with the on-chain call replaced by a recorder (the
//! published crate only aborts outside the chain).
#![allow(unexpected_cfgs)]

use solana_account_info::AccountInfo;
use solana_instruction::Instruction;
use solana_program_entrypoint::ProgramResult;

/// called with program, account metas, data, account infos and signer seeds
pub type Hook = Box<dyn Fn([u8; 32], &[([u8; 32], bool, bool)], &[u8], &[([u8; 32], bool, bool)], &[Vec<Vec<u8>>]) + Send + Sync>;
pub static HOOK: std::sync::OnceLock<Hook> = std::sync::OnceLock::new();

pub fn invoke(instruction: &Instruction, account_infos: &[AccountInfo]) -> ProgramResult {
    invoke_signed(instruction, account_infos, &[])
}

pub fn invoke_unchecked(instruction: &Instruction, account_infos: &[AccountInfo]) -> ProgramResult {
    invoke_signed_unchecked(instruction, account_infos, &[])
}

pub fn invoke_signed(
    instruction: &Instruction,
    account_infos: &[AccountInfo],
    signers_seeds: &[&[&[u8]]],
) -> ProgramResult {
    // Check that the account RefCells are consistent with the request
    for account_meta in instruction.accounts.iter() {
        for account_info in account_infos.iter() {
            if account_meta.pubkey == *account_info.key {
                if account_meta.is_writable {
                    let _ = account_info.try_borrow_mut_lamports()?;
                    let _ = account_info.try_borrow_mut_data()?;
                } else {
                    let _ = account_info.try_borrow_lamports()?;
                    let _ = account_info.try_borrow_data()?;
                }
                break;
            }
        }
    }

    invoke_signed_unchecked(instruction, account_infos, signers_seeds)
}

pub fn invoke_signed_unchecked(instruction: &Instruction, account_infos: &[AccountInfo], signers_seeds: &[&[&[u8]]]) -> ProgramResult {
    let metas: Vec<_> = instruction.accounts.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect();
    let infos: Vec<_> = account_infos.iter().map(|i| (i.key.to_bytes(), i.is_signer, i.is_writable)).collect();
    let seeds: Vec<Vec<Vec<u8>>> = signers_seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect();
    (HOOK.get().expect("no recorder"))(instruction.program_id.to_bytes(), &metas, &instruction.data, &infos, &seeds);
    Ok(())
}
