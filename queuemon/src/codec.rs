//! Encodings: round trips, the published byte layout, and rejection of
//! anything else. Expected bytes are written out here independently.
use crate::{guarded, inc, prob, Cnt, Problem, R};
use borsh::BorshSerialize;
use bytemuck::Pod;
use ephemeral_vrf_api::prelude::*;
use solana_curve25519::ristretto::PodRistrettoPoint;
use solana_program::account_info::AccountInfo;
use solana_program::pubkey::Pubkey;

/// bytes at an eight-byte aligned address, as instruction and account data are
pub struct Al(Vec<u64>, usize);
impl Al {
    pub fn new(b: &[u8]) -> Al {
        let mut a = Al(vec![0; b.len() / 8 + 1], b.len());
        a.get().copy_from_slice(b);
        a
    }
    pub fn get(&mut self) -> &mut [u8] {
        // SAFETY: plain bytes of an owned vector, long enough by construction
        unsafe { std::slice::from_raw_parts_mut(self.0.as_mut_ptr() as *mut u8, self.1) }
    }
}

fn b32(r: &mut R) -> [u8; 32] {
    match r.below(8) {
        0 => [0; 32],
        1 => [255; 32],
        _ => r.bytes(32).try_into().unwrap(),
    }
}
fn hx(b: &[u8]) -> String {
    b.iter().take(200).map(|x| format!("{x:02x}")).collect()
}

type Dec = fn(&[u8]) -> Result<Vec<u8>, ()>;
fn dec<T: Pod>(r: Result<&T, solana_program::program_error::ProgramError>) -> Result<Vec<u8>, ()> {
    r.map(|x| bytemuck::bytes_of(x).to_vec()).map_err(|_| ())
}

struct Fixed {
    name: &'static str,
    /// what the encoder produced
    got: Vec<u8>,
    /// the published layout
    want: Vec<u8>,
    dec: Dec,
}

fn ix(tag: u8, fields: &[&[u8]]) -> Vec<u8> {
    let mut v = vec![tag, 0, 0, 0, 0, 0, 0, 0];
    for f in fields {
        v.extend_from_slice(f);
    }
    v
}

fn fixed(r: &mut R) -> Vec<Fixed> {
    let (a, b, c, d, e) = (b32(r), b32(r), b32(r), b32(r), b32(r));
    let (op, index, size) = (r.u64() as u8, r.u64() as u8, r.u64() as u32);
    let pt = PodRistrettoPoint;
    vec![
        Fixed { name: "Initialize", got: Initialize {}.to_bytes(), want: ix(0, &[]), dec: |b| dec(Initialize::try_from_bytes(b)) },
        Fixed {
            name: "ModifyOracle",
            got: ModifyOracle { identity: Pubkey::new_from_array(a), oracle_pubkey: pt(b), operation: op }.to_bytes(),
            want: ix(1, &[&a, &b, &[op]]),
            dec: |b| dec(ModifyOracle::try_from_bytes(b)),
        },
        Fixed {
            name: "InitializeOracleQueue",
            got: InitializeOracleQueue { target_size: size, index, _padding: [0; 3] }.to_bytes(),
            want: ix(2, &[&size.to_le_bytes(), &[index, 0, 0, 0]]),
            dec: |b| dec(InitializeOracleQueue::try_from_bytes(b)),
        },
        Fixed {
            name: "ProvideRandomness",
            got: ProvideRandomness { input: a, output: pt(b), commitment_base_compressed: pt(c), commitment_hash_compressed: pt(d), scalar: solana_curve25519::scalar::PodScalar(e) }.to_bytes(),
            want: ix(4, &[&a, &b, &c, &d, &e]),
            dec: |b| dec(ProvideRandomness::try_from_bytes(b)),
        },
        Fixed { name: "DelegateOracleQueue", got: DelegateOracleQueue { index }.to_bytes(), want: ix(5, &[&[index]]), dec: |b| dec(DelegateOracleQueue::try_from_bytes(b)) },
        Fixed { name: "UndelegateOracleQueue", got: UndelegateOracleQueue { index }.to_bytes(), want: ix(6, &[&[index]]), dec: |b| dec(UndelegateOracleQueue::try_from_bytes(b)) },
        Fixed { name: "CloseOracleQueue", got: CloseOracleQueue { index }.to_bytes(), want: ix(7, &[&[index]]), dec: |b| dec(CloseOracleQueue::try_from_bytes(b)) },
        Fixed { name: "PurgeExpiredRequests", got: PurgeExpiredRequests { index }.to_bytes(), want: ix(9, &[&[index]]), dec: |b| dec(PurgeExpiredRequests::try_from_bytes(b)) },
    ]
}

fn gen_request(r: &mut R) -> (RequestRandomness, Vec<u8>) {
    let n = [0, 1, 2, 20, 21][r.below(5)];
    let dl = [0, 1, 8, 9, 64][r.below(5)];
    let al = [0, 1, 40, 512, 513][r.below(5)];
    let q = RequestRandomness {
        caller_seed: b32(r),
        callback_program_id: Pubkey::new_from_array(b32(r)),
        callback_discriminator: r.bytes(dl),
        callback_accounts_metas: (0..n).map(|_| SerializableAccountMeta { pubkey: b32(r), is_signer: r.one_in(2), is_writable: r.one_in(2) }).collect(),
        callback_args: r.bytes(al),
    };
    let mut v = vec![];
    v.extend_from_slice(&q.caller_seed);
    v.extend_from_slice(q.callback_program_id.as_ref());
    v.extend_from_slice(&(dl as u32).to_le_bytes());
    v.extend_from_slice(&q.callback_discriminator);
    v.extend_from_slice(&(n as u32).to_le_bytes());
    for m in &q.callback_accounts_metas {
        v.extend_from_slice(&m.pubkey);
        v.push(m.is_signer as u8);
        v.push(m.is_writable as u8);
    }
    v.extend_from_slice(&(al as u32).to_le_bytes());
    v.extend_from_slice(&q.callback_args);
    (q, v)
}

fn gen_list(r: &mut R) -> (Oracles, Vec<u8>) {
    let n = [0, 1, 2, 3, 40][r.below(5)];
    let l: Vec<Pubkey> = (0..n).map(|_| Pubkey::new_from_array(b32(r))).collect();
    let mut v = vec![0u8; 8];
    v.extend_from_slice(&(n as u32).to_le_bytes());
    for k in &l {
        v.extend_from_slice(k.as_ref());
    }
    (Oracles { oracles: l }, v)
}

pub fn codecs(seed: u64, n: u64, cnt: &mut Cnt) -> Vec<Problem> {
    let mut out: Vec<Problem> = vec![];
    let p = "C26";
    for i in 0..n {
        let mut r = R::new(seed ^ 0xc0dec ^ i.wrapping_mul(0xD6E8_FEB8_6659_FD93));
        let res = guarded(|| {
            let mut out = vec![];
            for f in fixed(&mut r) {
                inc(cnt, "instruction encodings compared");
                if f.got != f.want {
                    out.push(prob(p, &format!("{} is not encoded in the published layout", f.name), format!("{} instead of {}", hx(&f.got), hx(&f.want))));
                }
                let body = &f.want[8..];
                match (f.dec)(Al::new(body).get()) {
                    Ok(x) if x == body => {}
                    o => out.push(prob(p, &format!("{} does not survive decoding", f.name), format!("{:?} of {}", o.map(|x| hx(&x)), hx(body)))),
                }
                // wrong lengths
                for _ in 0..4 {
                    let l = match r.below(3) {
                        0 => body.len().saturating_sub(1 + r.below(4)),
                        1 => body.len() + 1 + r.below(9),
                        _ => r.below(2 * body.len() + 4),
                    };
                    if l == body.len() {
                        continue;
                    }
                    let b = r.bytes(l);
                    inc(cnt, "malformed encodings offered");
                    if (f.dec)(Al::new(&b).get()).is_ok() {
                        out.push(prob(p, &format!("{} decoded from the wrong length", f.name), format!("{l} instead of {}", body.len())));
                    }
                }
            }
            // requests
            let (q, body) = gen_request(&mut r);
            let mut want = ix(3, &[]);
            want.extend_from_slice(&body);
            inc(cnt, "instruction encodings compared");
            if q.to_bytes() != want {
                out.push(prob(p, "RequestRandomness is not encoded in the published layout", hx(&q.to_bytes())));
            }
            match RequestRandomness::try_from_bytes(&body) {
                Ok(x) if x == q => {}
                _ => out.push(prob(p, "RequestRandomness does not survive decoding", hx(&body))),
            }
            for _ in 0..6 {
                inc(cnt, "malformed encodings offered");
                let cut = r.below(body.len());
                if RequestRandomness::try_from_bytes(&body[..cut]).is_ok() {
                    out.push(prob(p, "truncated RequestRandomness decoded", format!("{cut} of {}", body.len())));
                }
                // a damaged length or flag: whatever happens, no abort, and what
                // is decoded encodes to a prefix of what was given
                let mut b = body.clone();
                let k = r.below(b.len());
                b[k] = r.u64() as u8;
                if r.one_in(3) {
                    let k = 64 + r.below(3);
                    b[k.min(body.len() - 1)] = 255;
                }
                if let Ok(x) = RequestRandomness::try_from_bytes(&b) {
                    let mut v = vec![];
                    x.serialize(&mut v).unwrap();
                    if !b.starts_with(&v) {
                        out.push(prob(p, "RequestRandomness misread", hx(&b)));
                    }
                }
                let nb = r.below(300);
                let b = r.bytes(nb);
                if let Ok(x) = RequestRandomness::try_from_bytes(&b) {
                    let mut v = vec![];
                    x.serialize(&mut v).unwrap();
                    if !b.starts_with(&v) {
                        out.push(prob(p, "RequestRandomness misread", hx(&b)));
                    }
                }
            }
            // oracle list
            let (l, bytes) = gen_list(&mut r);
            inc(cnt, "account encodings compared");
            match l.to_bytes_with_discriminator() {
                Ok(x) if x == bytes => {}
                _ => out.push(prob(p, "oracle list is not encoded in the published layout", hx(&bytes))),
            }
            if l.size_with_discriminator() != bytes.len() {
                out.push(prob(p, "oracle list size is wrong", format!("{} instead of {}", l.size_with_discriminator(), bytes.len())));
            }
            match Oracles::try_from_bytes_with_discriminator(&bytes) {
                Ok(x) if x == l => {}
                _ => out.push(prob(p, "oracle list does not survive decoding", hx(&bytes))),
            }
            let damage = |r: &mut R, good: &[u8]| -> (Vec<u8>, &'static str) {
                let mut b = good.to_vec();
                match r.below(5) {
                    0 => {
                        b.truncate(r.below(good.len()));
                        (b, "truncated")
                    }
                    1 => {
                        let k = 1 + r.below(40);
                        b.extend(r.bytes(k));
                        (b, "extended")
                    }
                    2 => {
                        b[0] = b[0].wrapping_add(1 + r.below(255) as u8);
                        (b, "of another type")
                    }
                    3 => {
                        // the tag of some other account type
                        let t = [0u8, 1, 2, 3][r.below(4)];
                        if t == b[0] {
                            b.truncate(7);
                        }
                        b[0] = t;
                        (b, "of another type")
                    }
                    _ => {
                        let k = r.below(8.min(b.len()));
                        b.truncate(k);
                        (b, "shorter than a tag")
                    }
                }
            };
            for _ in 0..4 {
                let (b, how) = damage(&mut r, &bytes);
                inc(cnt, "malformed encodings offered");
                if Oracles::try_from_bytes_with_discriminator(&b).is_ok() {
                    out.push(prob(p, &format!("oracle list decoded from {how} bytes"), hx(&b)));
                }
                let mut c = bytes.clone();
                let v = [u32::MAX, 1 << 31, 0x0800_0000, l.oracles.len() as u32 + 1][r.below(4)];
                c[8..12].copy_from_slice(&v.to_le_bytes());
                if Oracles::try_from_bytes_with_discriminator(&c).is_ok() {
                    out.push(prob(p, "oracle list decoded with a wrong count", hx(&c)));
                }
                let nb = r.below(100);
                let b = r.bytes(nb);
                if let Ok(x) = Oracles::try_from_bytes_with_discriminator(&b) {
                    if x.to_bytes_with_discriminator().ok() != Some(b.clone()) {
                        out.push(prob(p, "oracle list misread", hx(&b)));
                    }
                }
            }
            // oracle record
            let (vk, slot, open) = (b32(&mut r), r.u64() >> r.below(64), r.u64() >> r.below(64));
            let o = Oracle { vrf_pubkey: PodRistrettoPoint(vk), registration_slot: slot, open_queue: open };
            let mut rec = vec![1u8, 0, 0, 0, 0, 0, 0, 0];
            rec.extend_from_slice(&vk);
            rec.extend_from_slice(&slot.to_le_bytes());
            rec.extend_from_slice(&open.to_le_bytes());
            inc(cnt, "account encodings compared");
            if o.to_bytes() != &rec[8..] {
                out.push(prob(p, "oracle record is not encoded in the published layout", hx(o.to_bytes())));
            }
            let key = Pubkey::new_from_array([1; 32]);
            let me = ephemeral_vrf_api::ID;
            let other = Pubkey::new_from_array([2; 32]);
            let view = |b: &[u8], owner: &Pubkey, writable: bool| {
                let mut a = Al::new(b);
                let mut lam = 5;
                let info = AccountInfo::new(&key, false, writable, &mut lam, a.get(), owner, false);
                let x = info.as_account::<Oracle>(&me).map(|o| *o).ok();
                let y = info.as_account_mut::<Oracle>(&me).map(|o| *o).ok();
                (x, y)
            };
            if view(&rec, &me, true) != (Some(o), Some(o)) {
                out.push(prob(p, "oracle record does not survive decoding", hx(&rec)));
            }
            if view(&rec, &other, true) != (None, None) {
                out.push(prob(p, "oracle record read from another program's account", hx(&rec)));
            }
            if view(&rec, &me, false) != (Some(o), None) {
                out.push(prob(p, "read-only oracle record opened for writing", hx(&rec)));
            }
            for _ in 0..4 {
                let (b, how) = damage(&mut r, &rec);
                inc(cnt, "malformed encodings offered");
                if view(&b, &me, true) != (None, None) || <Oracle as AccountDeserialize>::try_from_bytes(Al::new(&b).get()).is_ok() || <Oracle as AccountDeserialize>::try_from_bytes_mut(Al::new(&b).get()).is_ok() {
                    out.push(prob(p, &format!("oracle record decoded from {how} bytes"), hx(&b)));
                }
            }
            // queue header
            let mut qb = vec![3u8, 0, 0, 0, 0, 0, 0, 0];
            let (cnt_, cur, idx) = (r.u64() as u32, r.u64() as u32, r.u64() as u8);
            qb.extend_from_slice(&cnt_.to_le_bytes());
            qb.extend_from_slice(&cur.to_le_bytes());
            qb.extend_from_slice(&[idx, 0, 0, 0]);
            let extra = [0, 4, 100][r.below(3)];
            qb.extend(r.bytes(extra));
            inc(cnt, "account encodings compared");
            match Queue::try_from_bytes(Al::new(&qb).get()) {
                Ok(q) if q.len() == cnt_ as usize && q.item_count == cnt_ && q.cursor == cur && q.index == idx => {}
                Ok(_) => out.push(prob(p, "queue header misread", hx(&qb))),
                Err(_) if extra >= 4 => out.push(prob(p, "queue header does not survive decoding", hx(&qb))),
                Err(_) => {}
            }
            if Queue::try_from_bytes_mut(Al::new(&qb).get()).ok().map(|q| (q.item_count, q.cursor, q.index)) != Queue::try_from_bytes(Al::new(&qb).get()).ok().map(|q| (q.item_count, q.cursor, q.index)) {
                out.push(prob(p, "the two queue header readers differ", hx(&qb)));
            }
            for (mut b, how) in [(qb.clone(), "wrongly tagged"), (qb.clone(), "truncated")] {
                if how == "truncated" {
                    b.truncate(r.below(20));
                } else {
                    b[r.below(8)] ^= 1 << r.below(8);
                }
                inc(cnt, "malformed encodings offered");
                if Queue::try_from_bytes(Al::new(&b).get()).is_ok() || Queue::try_from_bytes_mut(Al::new(&b).get()).is_ok() {
                    out.push(prob(p, &format!("queue header decoded from {how} bytes"), hx(&b)));
                }
            }
            // every type's bytes offered to every other reader
            for b in [&rec, &bytes] {
                if Queue::try_from_bytes(Al::new(b).get()).is_ok() || Queue::try_from_bytes_mut(Al::new(b).get()).is_ok() {
                    out.push(prob(p, "queue decoded from of another type bytes", hx(b)));
                }
            }
            for b in [&qb, &bytes] {
                if view(b, &me, true) != (None, None) {
                    out.push(prob(p, "oracle record decoded from of another type bytes", hx(b)));
                }
            }
            for b in [&qb, &rec] {
                if Oracles::try_from_bytes_with_discriminator(b).is_ok() {
                    out.push(prob(p, "oracle list decoded from of another type bytes", hx(b)));
                }
            }
            // seed lists of the undelegation callback
            let seeds: Vec<Vec<u8>> = (0..r.below(5))
                .map(|_| {
                    let k = r.below(40);
                    r.bytes(k)
                })
                .collect();
            let mut sb = (seeds.len() as u32).to_le_bytes().to_vec();
            for s in &seeds {
                sb.extend_from_slice(&(s.len() as u32).to_le_bytes());
                sb.extend_from_slice(s);
            }
            if PdaSeeds::parse(&sb).ok() != Some(seeds.clone()) {
                out.push(prob(p, "seed list does not survive decoding", hx(&sb)));
            }
            inc(cnt, "malformed encodings offered");
            let cut = r.below(sb.len());
            if PdaSeeds::parse(&sb[..cut]).is_ok() {
                out.push(prob(p, "truncated seed list decoded", hx(&sb[..cut])));
            }
            let mut ext = sb.clone();
            ext.push(0);
            if PdaSeeds::parse(&ext).is_ok() {
                out.push(prob(p, "extended seed list decoded", hx(&ext)));
            }
            let nb = r.below(60);
            let b = r.bytes(nb);
            let _ = PdaSeeds::parse(&b);
            let mut huge = sb.clone();
            huge[..4].copy_from_slice(&[255; 4]);
            if PdaSeeds::parse(&huge).is_ok() {
                out.push(prob(p, "seed list with a wrong count decoded", hx(&huge)));
            }
            // callback account encodings
            let m = SerializableAccountMeta { pubkey: b32(&mut r), is_signer: r.one_in(2), is_writable: r.one_in(2) };
            let mut v = vec![];
            m.serialize(&mut v).unwrap();
            let mut w = m.pubkey.to_vec();
            w.extend([m.is_signer as u8, m.is_writable as u8]);
            if v != w {
                out.push(prob(p, "callback account is not encoded in the published layout", hx(&v)));
            }
            let c: CompactAccountMeta = m.into();
            if bytemuck::bytes_of(&c).len() != 33 || &bytemuck::bytes_of(&c)[..32] != &m.pubkey || bytemuck::bytes_of(&c)[32] != m.is_writable as u8 {
                out.push(prob(p, "stored callback account is not in the published layout", hx(bytemuck::bytes_of(&c))));
            }
            let am = c.to_account_meta();
            if am.pubkey.to_bytes() != m.pubkey || am.is_writable != m.is_writable || am.is_signer {
                out.push(prob(p, "stored callback account does not survive decoding", hx(bytemuck::bytes_of(&c))));
            }
            out
        });
        match res {
            Ok(v) => out.extend(v),
            Err(e) => out.push(prob(p, "encoding or decoding aborts", format!("case {i}: {e}"))),
        }
        if out.len() > 8 {
            break;
        }
    }
    // tags
    for t in 0..=255u8 {
        let known = matches!(t, 0..=9 | 196);
        if EphemeralVrfInstruction::try_from(t).is_ok() != known {
            out.push(prob(p, "instruction tags differ from the published ones", format!("{t}")));
        }
        inc(cnt, "instruction tags checked");
    }
    // an entry written by the queue has the published layout
    let mut r = R::new(seed);
    for k in 0..n.min(200) {
        let e = crate::gen_entry(&mut r, k, false);
        let mut b = crate::Buf::new(4000, false);
        let ok = guarded(|| {
            let Ok(mut q) = QueueAccount::load(b.body()) else { return false };
            q.add_item(&e.item(), &e.disc, &e.cmetas(), &e.args).is_ok()
        });
        if ok != Ok(true) {
            continue;
        }
        let h = 16usize;
        let mut w = vec![];
        w.extend_from_slice(&e.slot.to_le_bytes());
        w.extend_from_slice(&e.id);
        w.extend_from_slice(&e.prog);
        let d = h + 96;
        let m = d + e.disc.len();
        let a = m + 33 * e.metas.len();
        for o in [d, m, a] {
            w.extend_from_slice(&(o as u32).to_le_bytes());
        }
        for l in [e.disc.len(), e.metas.len(), e.args.len()] {
            w.extend_from_slice(&(l as u16).to_le_bytes());
        }
        w.extend([e.prio, 1, 0, 0, 0, 0]);
        w.extend_from_slice(&e.disc);
        for x in &e.metas {
            w.extend_from_slice(&x.0);
            w.push(x.1);
        }
        w.extend_from_slice(&e.args);
        inc(cnt, "account encodings compared");
        if b.body()[h..h + w.len()] != w[..] || b.body()[..4] != 1u32.to_le_bytes() {
            out.push(prob(p, "queue entry is not encoded in the published layout", format!("{} instead of {}", hx(&b.body()[h..h + w.len()]), hx(&w))));
            break;
        }
    }
    out
}
