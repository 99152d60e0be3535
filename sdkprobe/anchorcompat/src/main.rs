#![allow(unexpected_cfgs, deprecated)]
include!("../../src/common.rs");
mod macros {
    use super::*;
    include!("../../src/macros.rs");
    use anchor_lang::solana_program::program_stubs;
    pub fn mk_info(key: Addr, s: bool, w: bool, owner: Addr, x: bool) -> AccountInfo<'static> {
        AccountInfo::new(Box::leak(Box::new(key)), s, w, Box::leak(Box::new(1_000_000)), Box::leak(vec![].into_boxed_slice()), Box::leak(Box::new(owner)), x, 0)
    }
    struct Stubs;
    impl program_stubs::SyscallStubs for Stubs {
        fn sol_log(&self, _: &str) {}
        fn sol_invoke_signed(&self, ix: &anchor_lang::solana_program::instruction::Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> anchor_lang::solana_program::entrypoint::ProgramResult {
            CAPTURED.lock().unwrap().push(Captured {
                program: ix.program_id.to_bytes(),
                metas: ix.accounts.iter().map(|m| (m.pubkey.to_bytes(), m.is_signer, m.is_writable)).collect(),
                data: ix.data.clone(),
                infos: infos.iter().map(|i| (i.key.to_bytes(), i.is_signer, i.is_writable)).collect(),
                seeds: seeds.iter().map(|s| s.iter().map(|x| x.to_vec()).collect()).collect(),
            });
            Ok(())
        }
    }
    pub fn install() {
        program_stubs::set_syscall_stubs(Box::new(Stubs));
    }
}
use macros::ID;
fn main() {
    common_main(macros::macro_probe);
}
