// Included by the probe of every SDK configuration: drives the SDK with the same
// pseudo-random inputs and writes down what it returned.
// (no inner attributes or docs: this file is include!d)
use ephemeral_vrf_sdk::compat::{AccountMeta, Instruction};
use ephemeral_vrf_sdk::instructions::*;
use ephemeral_vrf_sdk::types::{RequestRandomness, SerializableAccountMeta};
use ephemeral_vrf_sdk::{consts, pda, rnd, Pubkey};
use std::fmt::Write as _;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1);
        for _ in 0..4 {
            r.u64();
        }
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.u64() % n
    }
    pub fn b32(&mut self) -> [u8; 32] {
        let mut o = [0; 32];
        for c in o.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_le_bytes());
        }
        o
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
fn key(r: &mut Rng) -> Pubkey {
    Pubkey::new_from_array(match r.below(12) {
        0 => [0; 32],
        1 => [255; 32],
        2 => consts::VRF_PROGRAM_ID.to_bytes(),
        _ => r.b32(),
    })
}
fn k(p: &Pubkey) -> String {
    hex(&p.to_bytes())
}
fn ix_text(i: &Instruction) -> String {
    let a: Vec<String> = i.accounts.iter().map(|m: &AccountMeta| format!("{}{}{}", k(&m.pubkey), m.is_signer as u8, m.is_writable as u8)).collect();
    format!("{} [{}] {}", k(&i.program_id), a.join(","), hex(&i.data))
}
struct P {
    payer: Pubkey,
    queue: Pubkey,
    program: Pubkey,
    disc: Vec<u8>,
    metas: Vec<(Pubkey, bool, bool)>,
    none_metas: bool,
    seed: [u8; 32],
    args: Vec<u8>,
    none_args: bool,
}
impl P {
    fn make(&self) -> RequestRandomnessParams {
        RequestRandomnessParams {
            payer: self.payer,
            oracle_queue: self.queue,
            callback_program_id: self.program,
            callback_discriminator: self.disc.clone(),
            accounts_metas: if self.none_metas {
                None
            } else {
                Some(self.metas.iter().map(|(p, s, w)| SerializableAccountMeta { pubkey: *p, is_signer: *s, is_writable: *w }).collect())
            },
            caller_seed: self.seed,
            callback_args: if self.none_args { None } else { Some(self.args.clone()) },
        }
    }
    fn text(&self) -> String {
        let m: Vec<String> = self.metas.iter().map(|(p, s, w)| format!("{}{}{}", k(p), *s as u8, *w as u8)).collect();
        format!("{} {} {} {} [{}] {} {}", k(&self.payer), k(&self.queue), k(&self.program), hex(&self.seed), m.join(","), x(&self.disc), x(&self.args))
    }
}
fn x(b: &[u8]) -> String {
    if b.is_empty() {
        "-".into()
    } else {
        hex(b)
    }
}
fn guard(o: &mut String, what: &str, f: impl FnOnce() -> String) {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(s) => {
            let _ = writeln!(o, "{what} = {s}");
        }
        Err(_) => {
            let _ = writeln!(o, "{what} = PANIC");
        }
    }
}

pub fn instructions(o: &mut String, seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    for _ in 0..n {
        let nm = [0, 1, 2, 3, 7, 20, 21, 40][r.below(8) as usize];
        let dl = [0, 1, 8, 8, 8, 9, 16][r.below(7) as usize];
        let al = [0, 0, 1, 32, 100, 512, 600][r.below(7) as usize];
        let mut p = P {
            payer: key(&mut r),
            queue: key(&mut r),
            program: key(&mut r),
            disc: r.bytes(dl),
            metas: vec![],
            none_metas: false,
            seed: r.b32(),
            args: r.bytes(al),
            none_args: false,
        };
        for _ in 0..nm {
            let m = (key(&mut r), r.below(2) == 0, r.below(2) == 0);
            p.metas.push(m);
        }
        p.none_metas = nm == 0 && r.below(2) == 0;
        p.none_args = al == 0 && r.below(2) == 0;
        let t = p.text();
        guard(o, &format!("IX high {t}"), || ix_text(&create_request_randomness_ix(p.make())));
        guard(o, &format!("IX regular {t}"), || ix_text(&create_request_regular_randomness_ix(p.make())));
        guard(o, &format!("TY {t}"), || {
            let m = p.make();
            hex(&RequestRandomness {
                caller_seed: m.caller_seed,
                callback_program_id: m.callback_program_id,
                callback_discriminator: m.callback_discriminator,
                callback_accounts_metas: m.accounts_metas.unwrap_or_default(),
                callback_args: m.callback_args.unwrap_or_default(),
            }
            .to_bytes())
        });
    }
}

pub fn addresses(o: &mut String, seed: u64, n: u64) {
    let mut r = Rng::new(seed ^ 77);
    guard(o, "CONST program_id", || k(&consts::VRF_PROGRAM_ID));
    guard(o, "CONST id", || k(&ephemeral_vrf_sdk::id()));
    guard(o, "CONST identity_address", || k(&consts::VRF_PROGRAM_IDENTITY));
    guard(o, "CONST default_queue", || k(&consts::DEFAULT_QUEUE));
    guard(o, "CONST default_ephemeral_queue", || k(&consts::DEFAULT_EPHEMERAL_QUEUE));
    guard(o, "CONST identity_seed", || hex(consts::IDENTITY));
    guard(o, "CONST slot_hashes", || k(&ephemeral_vrf_sdk::compat::slot_hashes::ID));
    guard(o, "CONST system_program", || k(&ephemeral_vrf_sdk::compat::system_program::ID));
    guard(o, "PDA fees_vault", || k(&pda::fees_vault_pda()));
    for _ in 0..n {
        let (a, b, i) = (key(&mut r), key(&mut r), r.u64() as u8);
        let t = k(&a);
        guard(o, &format!("PDA delegation_record {t}"), || k(&pda::delegation_record_pda_from_delegated_account(&a)));
        guard(o, &format!("PDA delegation_metadata {t}"), || k(&pda::delegation_metadata_pda_from_delegated_account(&a)));
        guard(o, &format!("PDA commit_state {t}"), || k(&pda::commit_state_pda_from_delegated_account(&a)));
        guard(o, &format!("PDA commit_record {t}"), || k(&pda::commit_record_pda_from_delegated_account(&a)));
        guard(o, &format!("PDA delegate_buffer {t} {}", k(&b)), || k(&pda::delegate_buffer_pda_from_delegated_account_and_owner_program(&a, &b)));
        guard(o, &format!("PDA undelegate_buffer {t}"), || k(&pda::undelegate_buffer_pda_from_delegated_account(&a)));
        guard(o, &format!("PDA validator_fees_vault {t}"), || k(&pda::validator_fees_vault_pda_from_validator(&a)));
        guard(o, &format!("PDA program_config {t}"), || k(&pda::program_config_from_program_id(&a)));
        guard(o, &format!("PDA ephemeral_balance {t} {i}"), || k(&pda::ephemeral_balance_pda_from_payer(&a, i)));
    }
}

/// Random helpers: what they return, and over many seeds how it is distributed.
pub fn random(o: &mut String, seed: u64, n: u64) {
    let mut r = Rng::new(seed ^ 991);
    for i in 0..n {
        let b = match i % 4 {
            0 => [(i / 4) as u8; 32],
            1 => {
                let mut b = [0; 32];
                b[r.below(32) as usize] = r.u64() as u8;
                b
            }
            _ => r.b32(),
        };
        guard(o, &format!("RND {}", hex(&b)), || {
            let f = |b: &[u8; 32]| format!("{} {} {} {} {} {}", rnd::random_u8(b), rnd::random_u32(b), rnd::random_i32(b), rnd::random_u64(b), rnd::random_i64(b), rnd::random_bool(b));
            let s = f(&b);
            if s != f(&b) {
                return "UNSTABLE".into();
            }
            s
        });
    }
    // every range, with seeds that exercise first choice, late choice and no choice at all
    let mut bad: Vec<String> = vec![];
    let mut h: u64 = 0;
    let mut evals: u64 = 0;
    for lo in 0..=255u8 {
        for hi in lo..=255u8 {
            for j in 0..6u64 {
                let s = match j {
                    0 => [0; 32],
                    1 => [255; 32],
                    2 => {
                        let mut b = [255; 32];
                        b[r.below(32) as usize] = r.u64() as u8;
                        b
                    }
                    3 => [hi; 32],
                    _ => r.b32(),
                };
                evals += 1;
                match std::panic::catch_unwind(|| rnd::random_u8_with_range(&s, lo, hi)) {
                    Ok(v) => {
                        h = (h ^ v as u64).wrapping_mul(0x100_0000_01b3);
                        if (v < lo || v > hi || v != rnd::random_u8_with_range(&s, lo, hi)) && bad.len() < 5 {
                            bad.push(format!("{lo}..={hi} with seed {} gives {v}", hex(&s)));
                        }
                    }
                    Err(_) => {
                        if bad.len() < 5 {
                            bad.push(format!("{lo}..={hi} with seed {} aborts", hex(&s)));
                        }
                    }
                }
            }
        }
    }
    let _ = writeln!(o, "RANGE evaluations {evals} = {}", if bad.is_empty() { "ok".into() } else { bad.join("; ") });
    let _ = writeln!(o, "RANGE digest = {h:016x}");
}

fn chi2(c: &[u64], n: u64) -> f64 {
    let e = n as f64 / c.len() as f64;
    c.iter().map(|x| (*x as f64 - e) * (*x as f64 - e) / e).sum()
}
/// limit exceeded with probability below 1e-12 by a uniform source (Wilson-Hilferty)
fn limit(df: f64) -> f64 {
    let z = 7.2;
    let t = 1.0 - 2.0 / (9.0 * df) + z * (2.0 / (9.0 * df)).sqrt();
    df * t * t * t
}
fn judge(out: &mut Vec<String>, what: &str, c: &[u64], n: u64) {
    let (x, l) = (chi2(c, n), limit((c.len() - 1) as f64));
    if x > l {
        out.push(format!("{what}: chi-square {x:.0} over the limit {l:.0} with {n} seeds"));
    }
}

pub fn statistics(o: &mut String, seed: u64, scale: u64) {
    use std::sync::Mutex;
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let evals = std::sync::atomic::AtomicU64::new(0);
    let next = std::sync::atomic::AtomicU64::new(1);
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::scope(|s| {
        for _ in 0..std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16) {
            s.spawn(|| loop {
                let size = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if size > 256 {
                    break;
                }
                let mut r = Rng::new(seed.wrapping_mul(1009).wrapping_add(size));
                let n = scale * if size <= 8 { 4_000_000 } else if size <= 32 { 1_500_000 } else { 400_000 };
                let lo = match r.below(3) {
                    0 => 0,
                    1 => 256 - size,
                    _ => r.below(257 - size),
                } as u8;
                let hi = (lo as u64 + size - 1) as u8;
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut c = vec![0u64; size as usize];
                    let mut out = 0u64;
                    for _ in 0..n {
                        let v = rnd::random_u8_with_range(&r.b32(), lo, hi);
                        match c.get_mut(v.wrapping_sub(lo) as usize) {
                            Some(x) => *x += 1,
                            None => out += 1,
                        }
                    }
                    (c, out)
                }));
                evals.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
                let mut b = bad.lock().unwrap();
                match res {
                    Err(_) => b.push(format!("range {lo}..={hi}: aborts")),
                    Ok((_, out)) if out > 0 => b.push(format!("range {lo}..={hi}: {out} values outside")),
                    Ok((c, _)) => {
                        if size > 1 {
                            judge(&mut b, &format!("range {lo}..={hi} is biased"), &c, n);
                        }
                    }
                }
            });
        }
    });
    let mut bad = bad.into_inner().unwrap();
    // whole-type helpers: every byte uniform, bytes pairwise unrelated, all bits linearly independent
    let n = 1_000_000 * scale;
    let mut r = Rng::new(seed ^ 0x5151);
    let names = ["random_u8", "random_u32", "random_i32", "random_u64", "random_i64", "random_bool"];
    let sizes = [1usize, 4, 4, 8, 8, 1];
    let get = |f: usize, b: &[u8; 32]| -> [u8; 8] {
        let v: u64 = match f {
            0 => rnd::random_u8(b) as u64,
            1 => rnd::random_u32(b) as u64,
            2 => rnd::random_i32(b) as u32 as u64,
            3 => rnd::random_u64(b),
            4 => rnd::random_i64(b) as u64,
            _ => rnd::random_bool(b) as u64,
        };
        v.to_le_bytes()
    };
    for f in 0..6 {
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut b = vec![];
            if f == 5 {
                // two values only: a bias of one part in 256 needs many draws to stand out
                let n = 32_000_000 * scale;
                let c: Vec<[u64; 2]> = std::thread::scope(|s| {
                    let v: Vec<_> = (0..16u64)
                        .map(|t| {
                            s.spawn(move || {
                                let mut r = Rng::new(seed.wrapping_mul(77).wrapping_add(t));
                                let mut c = [0u64; 2];
                                for _ in 0..n / 16 {
                                    c[rnd::random_bool(&r.b32()) as usize] += 1;
                                }
                                c
                            })
                        })
                        .collect();
                    v.into_iter().map(|h| h.join().unwrap_or([0, 0])).collect()
                });
                let t = [c.iter().map(|x| x[0]).sum::<u64>(), c.iter().map(|x| x[1]).sum::<u64>()];
                if t[0] + t[1] != n {
                    b.push("random_bool aborts".into());
                } else {
                    judge(&mut b, "random_bool is biased", &t, n);
                }
                return b;
            }
            let m = sizes[f];
            let mut c = vec![vec![0u64; 256]; m];
            let mut pair = vec![vec![0u64; 65536]; m];
            for _ in 0..n {
                let v = get(f, &r.b32());
                for i in 0..m {
                    c[i][v[i] as usize] += 1;
                    pair[i][v[i] as usize * 256 + v[(i + 1) % m] as usize] += 1;
                }
            }
            for i in 0..m {
                judge(&mut b, &format!("{} byte {i} is biased", names[f]), &c[i], n);
                if m > 1 {
                    judge(&mut b, &format!("{} bytes {i} and {} are related", names[f], (i + 1) % m), &pair[i], n);
                }
            }
            // rank over GF(2) of output bits (with a constant column): no linear relation between them
            let mut rows: Vec<u128> = vec![];
            for _ in 0..256 {
                let v = get(f, &r.b32());
                let mut x = u64::from_le_bytes(v) as u128 | 1u128 << (8 * m);
                for y in &rows {
                    x = x.min(x ^ y);
                }
                if x != 0 {
                    rows.push(x);
                }
            }
            if rows.len() != 8 * m + 1 {
                b.push(format!("{}: bits are linearly related (rank {} of {})", names[f], rows.len(), 8 * m + 1));
            }
            b
        }));
        evals.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        match res {
            Ok(b) => bad.extend(b),
            Err(_) => bad.push(format!("{} aborts", names[f])),
        }
    }
    bad.truncate(6);
    let _ = writeln!(o, "STAT evaluations {} = {}", evals.into_inner(), if bad.is_empty() { "ok".into() } else { bad.join("; ") });
}

pub fn common_main(extra: fn(&mut String, u64, u64)) {
    let a: Vec<String> = std::env::args().collect();
    let (seed, n, scale) = (a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let mut o = String::new();
    instructions(&mut o, seed, n);
    addresses(&mut o, seed, n / 8 + 4);
    random(&mut o, seed, n);
    if scale > 0 {
        statistics(&mut o, seed, scale);
    }
    extra(&mut o, seed, n);
    o.push_str("END\n");
    std::fs::write(&a[4], o).unwrap();
}
