// Included by the anchor probes: request structs made with the SDK's attribute,
// offered genuine and substituted accounts; the nested call they make is captured.
use anchor_lang::prelude::*;
use ephemeral_vrf_sdk::anchor::{vrf, VrfProgram};
use std::sync::Mutex;

declare_id!("CDiutifqugEkabdqwc5TK3FmSAgFpkP3RPE1642BCEhi");
pub const SLOT_HASHES: anchor_lang::prelude::Pubkey = anchor_lang::prelude::pubkey!("SysvarS1otHashes111111111111111111111111111");
type Addr = anchor_lang::prelude::Pubkey;

pub struct Keys {
    payer: Addr,
    oracle_queue: Addr,
    program_identity: Addr,
    vrf_program: Addr,
    slot_hashes: Addr,
    system_program: Addr,
    other: Addr,
}
/// what a nested call was made with
#[derive(Clone, Debug, Default)]
pub struct Captured {
    pub program: [u8; 32],
    pub metas: Vec<([u8; 32], bool, bool)>,
    pub data: Vec<u8>,
    pub infos: Vec<([u8; 32], bool, bool)>,
    pub seeds: Vec<Vec<Vec<u8>>>,
}
pub static CAPTURED: Mutex<Vec<Captured>> = Mutex::new(vec![]);

/// Would the runtime let this nested call through?
fn runtime_allows(c: &Captured, k: &Keys) -> std::result::Result<(), String> {
    if c.program != k.vrf_program.to_bytes() {
        return Err("calls another program".into());
    }
    let mut signs = vec![];
    for s in &c.seeds {
        let v: Vec<&[u8]> = s.iter().map(|x| &x[..]).collect();
        signs.push(Addr::create_program_address(&v, &crate::ID).map_err(|e| format!("signer seeds: {e:?}"))?.to_bytes());
    }
    for (key, s, w) in &c.metas {
        let native = *key == k.system_program.to_bytes();
        let info: Vec<_> = c.infos.iter().filter(|i| i.0 == *key).collect();
        if info.is_empty() && !native {
            return Err(format!("account {} is not passed on", hex(key)));
        }
        if *s && !info.iter().any(|i| i.1) && !signs.contains(key) {
            return Err(format!("account {} does not sign", hex(key)));
        }
        if *w && !info.iter().any(|i| i.2) {
            return Err(format!("account {} is not writable", hex(key)));
        }
    }
    Ok(())
}

fn infos(metas: &[anchor_lang::prelude::AccountMeta], k: &Keys, swap: &[(Addr, Addr)]) -> &'static [AccountInfo<'static>] {
    let v: Vec<AccountInfo<'static>> = metas
        .iter()
        .map(|m| {
            let key = swap.iter().find(|s| s.0 == m.pubkey).map(|s| s.1).unwrap_or(m.pubkey);
            let program = m.pubkey == k.vrf_program || m.pubkey == k.system_program;
            let owner = if program { Addr::new_from_array([3; 32]) } else { k.system_program };
            mk_info(key, m.is_signer, m.is_writable, owner, program)
        })
        .collect();
    Box::leak(v.into_boxed_slice())
}

macro_rules! macro_case {
    ($o:expr, $r:expr, $t:ident, $client:path, $pre:expr $(, $extra:ident)*) => {{
        use $client as Client;
        let k = new_keys($r);
        let metas = Client { payer: k.payer, oracle_queue: k.oracle_queue, program_identity: k.program_identity, vrf_program: k.vrf_program, slot_hashes: k.slot_hashes, system_program: k.system_program $(, $extra: k.$extra)* }.to_account_metas(None);
        let name = stringify!($t);
        let what = format!("MACRO {name} predeclared {}", $pre);
        let attempt = |swap: &[(Addr, Addr)], unsigned: bool| -> std::result::Result<String, String> {
            let mut ms = metas.clone();
            if unsigned {
                ms.iter_mut().for_each(|m| m.is_signer = false);
            }
            let inf = infos(&ms, &k, swap);
            let mut left = inf;
            let mut bumps = Default::default();
            let mut re = std::collections::BTreeSet::new();
            let ctx = $t::try_accounts(&crate::ID, &mut left, &[7], &mut bumps, &mut re).map_err(|e| format!("{e}"))?;
            let params = RequestRandomnessParams {
                payer: ephemeral_vrf_sdk::Pubkey::new_from_array(ctx.payer.key().to_bytes()),
                oracle_queue: ephemeral_vrf_sdk::Pubkey::new_from_array(ctx.oracle_queue.key().to_bytes()),
                callback_program_id: ephemeral_vrf_sdk::Pubkey::new_from_array(crate::ID.to_bytes()),
                callback_discriminator: vec![1; 8],
                ..Default::default()
            };
            let ix = create_request_randomness_ix(params);
            CAPTURED.lock().unwrap().clear();
            ctx.invoke_signed_vrf(&ctx.payer.to_account_info(), &ix).map_err(|e| format!("nested call: {e:?}"))?;
            let c = CAPTURED.lock().unwrap().clone();
            if c.len() != 1 {
                return Err(format!("{} nested calls", c.len()));
            }
            if c[0].data != ix.data || c[0].metas.len() != ix.accounts.len() {
                return Err("another instruction was sent".into());
            }
            runtime_allows(&c[0], &k)?;
            Ok(format!("{} accounts", metas.len()))
        };
        // account validation alone: what the program built with the attribute sees
        let validate = |swap: &[(Addr, Addr)]| -> std::result::Result<String, String> {
            let inf = infos(&metas, &k, swap);
            let mut left = inf;
            let mut bumps = Default::default();
            let mut re = std::collections::BTreeSet::new();
            $t::try_accounts(&crate::ID, &mut left, &[7], &mut bumps, &mut re).map(|_| String::new()).map_err(|e| format!("{e}"))
        };
        let text = |f: &dyn Fn() -> std::result::Result<String, String>| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(Ok(_)) => "accepted".to_string(),
            Ok(Err(e)) => format!("refused: {}", e.replace('\n', " ")),
            Err(_) => "PANIC".to_string(),
        };
        let _ = writeln!($o, "{what} genuine = {}", text(&|| attempt(&[], false)));
        let _ = writeln!($o, "{what} unsigned = {}", text(&|| attempt(&[], true)));
        let foreign_program = Addr::new_from_array($r.b32());
        let foreign_identity = Addr::find_program_address(&[b"identity"], &foreign_program).0;
        let vrf_identity = Addr::find_program_address(&[b"identity"], &k.vrf_program).0;
        let odd = |b: Addr| { let mut x = b.to_bytes(); x[31] ^= 1; Addr::new_from_array(x) };
        let swaps = [
            ("foreign vrf program", k.vrf_program, foreign_program),
            ("own program as vrf program", k.vrf_program, crate::ID),
            ("one bit off vrf program", k.vrf_program, odd(k.vrf_program)),
            ("foreign slot hashes", k.slot_hashes, Addr::new_from_array($r.b32())),
            ("clock as slot hashes", k.slot_hashes, anchor_lang::prelude::pubkey!("SysvarC1ock11111111111111111111111111111111")),
            ("foreign identity", k.program_identity, foreign_identity),
            ("vrf identity as identity", k.program_identity, vrf_identity),
            ("random identity", k.program_identity, Addr::new_from_array($r.b32())),
            ("foreign system program", k.system_program, foreign_program),
        ];
        for (n, from, to) in swaps {
            let _ = writeln!($o, "{what} {n} = {}", text(&|| validate(&[(from, to)])));
        }
        let _ = writeln!($o, "{what} list = {}", metas.iter().map(|m| format!("{}{}{}", role(&k, &m.pubkey), m.is_signer as u8, m.is_writable as u8)).collect::<Vec<_>>().join(","));
    }};
}
fn role(k: &Keys, p: &Addr) -> &'static str {
    let all = [(k.payer, "payer"), (k.oracle_queue, "oracle_queue"), (k.program_identity, "program_identity"), (k.vrf_program, "vrf_program"), (k.slot_hashes, "slot_hashes"), (k.system_program, "system_program"), (k.other, "other")];
    all.iter().find(|x| x.0 == *p).map(|x| x.1).unwrap_or("unknown")
}
fn new_keys(r: &mut Rng) -> Keys {
    let n = |r: &mut Rng| Addr::new_from_array(r.b32());
    Keys {
        payer: n(r),
        oracle_queue: n(r),
        program_identity: Addr::find_program_address(&[b"identity"], &crate::ID).0,
        vrf_program: anchor_lang::prelude::pubkey!("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz"),
        slot_hashes: SLOT_HASHES,
        system_program: Addr::new_from_array([0; 32]),
        other: n(r),
    }
}
include!("macro_cases.rs");

pub fn macro_probe(o: &mut String, seed: u64, n: u64) {
    install();
    let mut r = Rng::new(seed ^ 0x77);
    for _ in 0..(n / 100).max(1) {
        all_cases(o, &mut r);
    }
    let _ = writeln!(o, "CONST anchor_program_id = {}", hex(&<VrfProgram as anchor_lang::Id>::id().to_bytes()));
}
