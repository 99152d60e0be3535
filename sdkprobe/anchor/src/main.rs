#![allow(unexpected_cfgs)]
include!("../../src/common.rs");
mod macros {
    use super::*;
    include!("../../src/macros.rs");
    pub fn mk_info(key: Addr, s: bool, w: bool, owner: Addr, x: bool) -> AccountInfo<'static> {
        AccountInfo::new(Box::leak(Box::new(key)), s, w, Box::leak(Box::new(1_000_000)), Box::leak(vec![].into_boxed_slice()), Box::leak(Box::new(owner)), x)
    }
    pub fn install() {
        let _ = solana_invoke::HOOK.set(Box::new(|p, metas, data, infos, seeds| {
            CAPTURED.lock().unwrap().push(Captured { program: p, metas: metas.to_vec(), data: data.to_vec(), infos: infos.to_vec(), seeds: seeds.to_vec() });
        }));
    }
}
use macros::ID;
fn main() {
    common_main(macros::macro_probe);
}
