//! Monitors for the proof system: the real prover and both real verifiers run
//! against an independent implementation, rogue provers that own the secret
//! key, damaged proofs, and an attacker who only sees published data.
use crate::refvrf::{self, Proof};
use crate::spec::{bad, Bad};
use crate::util::{hex, Rng};
use crate::world::key_from;
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use sha2::{Digest, Sha256, Sha512};
use solana_curve25519::ristretto::PodRistrettoPoint;
use solana_curve25519::scalar::PodScalar;
use solana_sdk::signature::Keypair;
use solana_sdk::signer::Signer;
use std::collections::{BTreeMap, BTreeSet};

pub type Cnt = BTreeMap<String, u64>;
fn inc(c: &mut Cnt, k: &str) {
    *c.entry(k.into()).or_default() += 1;
}

pub fn rand_scalar(r: &mut Rng) -> Scalar {
    let mut b = [0u8; 64];
    b[..32].copy_from_slice(&r.b32());
    b[32..].copy_from_slice(&r.b32());
    Scalar::from_bytes_mod_order_wide(&b)
}
pub fn rand_point(r: &mut Rng) -> RistrettoPoint {
    rand_scalar(r) * G
}
fn cp(p: RistrettoPoint) -> [u8; 32] {
    p.compress().0
}

/// Only the base equation holds; the output is whatever the prover wants.
pub fn forge_base_only(sk: Scalar, id: &[u8; 32], out: RistrettoPoint, r: &mut Rng) -> Proof {
    let k = rand_scalar(r);
    let (out, cb, ch) = (cp(out), cp(k * G), cp(rand_point(r)));
    let c = refvrf::challenge(&out, &cb, &ch, &cp(sk * G), id);
    Proof { out, cb, ch, s: (k + c * sk).to_bytes() }
}
/// Only the hash equation holds.
pub fn forge_hash_only(sk: Scalar, id: &[u8; 32], _out: RistrettoPoint, r: &mut Rng) -> Proof {
    let (k, y, h) = (rand_scalar(r), rand_scalar(r), refvrf::h2p(id));
    let (out, cb, ch) = (cp(y * h), cp(rand_point(r)), cp(k * h));
    let c = refvrf::challenge(&out, &cb, &ch, &cp(sk * G), id);
    Proof { out, cb, ch, s: (k + c * y).to_bytes() }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Verdict {
    Yes,
    No,
    Abort,
}
pub fn onchain(pk: &[u8; 32], input: &[u8; 32], p: &Proof) -> Verdict {
    let (pk, out, cb, ch, s) = (PodRistrettoPoint(*pk), PodRistrettoPoint(p.out), PodRistrettoPoint(p.cb), PodRistrettoPoint(p.ch), PodScalar(p.s));
    let input = *input;
    match crate::svm::quiet(move || ephemeral_vrf_api::verify::verify_vrf(&pk, &input, &out, (&cb, &ch, &s))) {
        Ok(true) => Verdict::Yes,
        Ok(false) => Verdict::No,
        Err(_) => Verdict::Abort,
    }
}
pub fn offchain(pk: &[u8; 32], input: &[u8; 32], p: &Proof) -> Verdict {
    // the off-chain verifier takes a decoded key and scalar
    let Some(pkp) = CompressedRistretto(*pk).decompress() else { return Verdict::No };
    let Some(s) = Option::<Scalar>::from(Scalar::from_canonical_bytes(p.s)) else { return Verdict::No };
    let (o, a, b) = (CompressedRistretto(p.out), CompressedRistretto(p.cb), CompressedRistretto(p.ch));
    let input = *input;
    match crate::svm::quiet(move || ephemeral_vrf::vrf::verify_vrf(pkp, &input, o, (a, b, s))) {
        Ok(true) => Verdict::Yes,
        Ok(false) => Verdict::No,
        Err(_) => Verdict::Abort,
    }
}
pub fn honest(sk: Scalar, input: &[u8; 32]) -> Proof {
    let (out, (cb, ch, s)) = ephemeral_vrf::vrf::compute_vrf(sk, input);
    Proof { out: out.to_bytes(), cb: cb.to_bytes(), ch: ch.to_bytes(), s: s.to_bytes() }
}
fn keygen(kp: &Keypair) -> (Scalar, [u8; 32]) {
    let (sk, pk) = ephemeral_vrf::vrf::generate_vrf_keypair(kp);
    (sk, cp(pk))
}
fn show(pk: &[u8; 32], i: &[u8; 32], p: &Proof) -> String {
    format!("pk {} input {} out {} cb {} ch {} s {}", hex(pk), hex(i), hex(&p.out), hex(&p.cb), hex(&p.ch), hex(&p.s))
}

fn gen_key(r: &mut Rng, n: u64) -> Keypair {
    match r.below(10) {
        0 => Keypair::new_from_array([0; 32]),
        1 => Keypair::new_from_array([255; 32]),
        2 => {
            let mut b = [0; 32];
            b[r.idx(32)] = 1 << r.below(8);
            Keypair::new_from_array(b)
        }
        _ => key_from(r.u64(), "k", n),
    }
}
fn gen_input(r: &mut Rng) -> [u8; 32] {
    match r.below(12) {
        0 => [0; 32],
        1 => [255; 32],
        2 => {
            let mut b = [0; 32];
            b[r.idx(32)] = 1 << r.below(8);
            b
        }
        3 => {
            let mut b = [255; 32];
            b[r.idx(32)] ^= 1 << r.below(8);
            b
        }
        4 => cp(rand_point(r)),
        _ => r.b32(),
    }
}

pub fn c01(seed: u64, n: u64, cnt: &mut Cnt) -> Vec<Bad> {
    let mut r = Rng::new(seed);
    let mut out = vec![];
    let mut keys: BTreeMap<[u8; 32], [u8; 64]> = BTreeMap::new();
    let mut outs: BTreeMap<[u8; 32], ([u8; 32], [u8; 32])> = BTreeMap::new();
    for i in 0..n {
        let kp = gen_key(&mut r, i);
        let (sk, pk) = keygen(&kp);
        let again = Keypair::try_from(&kp.to_bytes()[..]).unwrap();
        if keygen(&again) != (sk, pk) {
            out.push(bad(&["C01"], "key derivation is not deterministic", hex(&kp.to_bytes())));
        }
        if let Some(o) = keys.insert(pk, kp.to_bytes()) {
            if o != kp.to_bytes() {
                out.push(bad(&["C01"], "two identities share a VRF key", format!("{} {}", hex(&o), hex(&kp.to_bytes()))));
            }
        }
        if cp(sk * G) != pk {
            out.push(bad(&["C01"], "secret and public key do not match", hex(&kp.to_bytes())));
        }
        inc(cnt, "keys derived");
        for _ in 0..6 {
            let x = gen_input(&mut r);
            let p = honest(sk, &x);
            // from another thread as well: nothing may depend on ambient state
            let q = if r.chance(1, 16) { std::thread::spawn(move || honest(sk, &x)).join().unwrap() } else { honest(sk, &x) };
            if (p.out, p.cb, p.ch, p.s) != (q.out, q.cb, q.ch, q.s) {
                out.push(bad(&["C01"], "output or proof is not deterministic", show(&pk, &x, &p)));
            }
            let (a, b) = (onchain(&pk, &x, &p), offchain(&pk, &x, &p));
            if a != Verdict::Yes {
                out.push(bad(&["C01"], "honest proof refused on chain", format!("{a:?} {}", show(&pk, &x, &p))));
            }
            if b != Verdict::Yes {
                out.push(bad(&["C01"], "honest proof refused off chain", format!("{b:?} {}", show(&pk, &x, &p))));
            }
            if let Some(o) = outs.insert(p.out, (pk, x)) {
                if o != (pk, x) {
                    out.push(bad(&["C01"], "different keys or inputs give the same output", format!("{} {}", hex(&x), hex(&o.1))));
                }
            }
            inc(cnt, "honest proofs checked by both verifiers");
        }
        if out.len() > 5 {
            break;
        }
    }
    // every bit of identity and input matters
    let base = [0x5au8; 32];
    let (sk, _) = keygen(&Keypair::new_from_array(base));
    let mut so = BTreeSet::from([honest(sk, &base).out]);
    let mut sp = BTreeSet::from([keygen(&Keypair::new_from_array(base)).1]);
    for bit in 0..256 {
        let mut x = base;
        x[bit / 8] ^= 1 << (bit % 8);
        if !so.insert(honest(sk, &x).out) {
            out.push(bad(&["C01"], "different inputs give the same output", format!("bit {bit}")));
        }
        if !sp.insert(keygen(&Keypair::new_from_array(x)).1) {
            out.push(bad(&["C01"], "two identities share a VRF key", format!("bit {bit}")));
        }
        inc(cnt, "single-bit neighbours compared");
    }
    out
}

/// The challenge as it would be if the fields in `mask` were left out.
fn masked(mask: u32, f: &[[u8; 32]; 5], zero: bool) -> Scalar {
    let mut h = Sha256::new();
    h.update(b"VRF-Ephem-Challenge");
    for (i, x) in f.iter().enumerate() {
        if mask >> i & 1 == 0 {
            h.update(x);
        } else if zero {
            h.update([0u8; 32]);
        }
    }
    let t: [u8; 32] = h.finalize().into();
    let mut h = Sha256::new();
    h.update(b"VRF-Ephem-HashToScalar");
    h.update(t);
    let o: [u8; 32] = h.finalize().into();
    Scalar::from_bytes_mod_order(o)
}

/// Rogue provers holding the secret key.
/// A challenge from a small set can be guessed in advance, and then both
/// equations can be satisfied for any output. The challenge of an honest proof
/// is the discrete logarithm of s G - cb to the base of the public key: it must
/// not be found among the small numbers, shifted by any whole number of bytes.
fn guessable_challenge(sk: Scalar, pk: &[u8; 32], x: &[u8; 32], shift: u32, bits: u32) -> Option<u64> {
    let p = honest(sk, x);
    let s: Scalar = Option::from(Scalar::from_canonical_bytes(p.s))?;
    let cb = CompressedRistretto(p.cb).decompress()?;
    let t = s * G - cb;
    let mut base = CompressedRistretto(*pk).decompress()?;
    for _ in 0..shift {
        base += base;
    }
    let m = 1u64 << (bits / 2);
    let mut table = std::collections::HashMap::new();
    let mut q = base - base;
    for i in 0..m {
        table.insert(cp(q), i);
        q += base;
    }
    // q = m base
    let mut t = t;
    for j in 0..m {
        if let Some(i) = table.get(&cp(t)) {
            return Some(j * m + i);
        }
        t -= q;
    }
    None
}

pub fn c02(seed: u64, n: u64, cnt: &mut Cnt) -> Vec<Bad> {
    let mut r = Rng::new(seed);
    let mut bads: Vec<Bad> = vec![];
    {
        let (sk, pk) = keygen(&gen_key(&mut r, seed));
        let x = gen_input(&mut r);
        let shift = 8 * r.below(31) as u32;
        for (shift, bits) in [(0, 26), (shift, 20)] {
            inc(cnt, "challenges searched for among the small numbers");
            if let Some(c) = guessable_challenge(sk, &pk, &x, shift, bits) {
                bads.push(bad(&["C02"], "the challenge can be guessed in advance", format!("key {} input {}: challenge {c} << {shift}", hex(&pk), hex(&x))));
            }
        }
    }
    for i in 0..n {
        let (sk, pk) = keygen(&gen_key(&mut r, i));
        let x = gen_input(&mut r);
        let h = refvrf::h2p(&x);
        // the one true output, by the real prover
        let truth = honest(sk, &x).out;
        let (k, y, z) = (rand_scalar(&mut r), rand_scalar(&mut r), rand_scalar(&mut r));
        let mut tries: Vec<(String, [u8; 32], Proof)> = vec![];
        let pt = |p: RistrettoPoint| cp(p);
        let mut add = |w: &str, pk: [u8; 32], out: [u8; 32], cb: [u8; 32], ch: [u8; 32], s: Scalar| tries.push((w.into(), pk, Proof { out, cb, ch, s: s.to_bytes() }));
        for zero in [false, true] {
            for mask in 0..32u32 {
                let chal = |o: &[u8; 32], a: &[u8; 32], b: &[u8; 32], p: &[u8; 32]| masked(mask, &[*o, *a, *b, *p, x], zero);
                // base equation only
                let (out, cb, ch) = (pt(y * h), pt(k * G), pt(z * h));
                let c = chal(&out, &cb, &ch, &pk);
                add(&format!("base equation only, fields {mask:05b} unbound"), pk, out, cb, ch, k + c * sk);
                // hash equation only
                let c = chal(&out, &cb, &ch, &pk);
                add(&format!("hash equation only, fields {mask:05b} unbound"), pk, out, cb, ch, z + c * y);
                if mask & 1 != 0 {
                    // the output is chosen after the challenge
                    let c = chal(&[0; 32], &cb, &ch, &pk);
                    let s = k + c * sk;
                    add(&format!("output chosen last, fields {mask:05b} unbound"), pk, pt(c.invert() * (s * h - z * h)), cb, ch, s);
                }
                if mask & 2 != 0 {
                    let c = chal(&out, &[0; 32], &ch, &pk);
                    let s = z + c * y;
                    add(&format!("base commitment chosen last, fields {mask:05b} unbound"), pk, out, pt(s * G - c * (sk * G)), ch, s);
                }
                if mask & 4 != 0 {
                    let c = chal(&out, &cb, &[0; 32], &pk);
                    let s = k + c * sk;
                    add(&format!("hash commitment chosen last, fields {mask:05b} unbound"), pk, out, cb, pt(s * h - c * (y * h)), s);
                }
                if mask & 8 != 0 {
                    // the key itself is chosen last
                    let c = chal(&out, &cb, &ch, &[0; 32]);
                    let s = z + c * y;
                    let p2 = c.invert() * (s * G - k * G);
                    add(&format!("key chosen last, fields {mask:05b} unbound"), pt(p2), out, cb, ch, s);
                }
            }
        }
        // equations confused with one another
        let (out, cb, ch) = (pt(y * h), pt(k * G), pt(k * h));
        let c = refvrf::challenge(&out, &cb, &ch, &pk, &x);
        for (w, s) in [("s from sk", k + c * sk), ("s from y", k + c * y), ("s = k", k), ("s = c", c), ("s = 0", Scalar::ZERO), ("s = -k - c sk", -(k + c * sk)), ("s = k - c sk", k - c * sk), ("s = k - c y", k - c * y)] {
            add(w, pk, out, cb, ch, s);
        }
        // sum and difference equations (a batched check)
        for e in [Scalar::ONE, -Scalar::ONE, c] {
            // (s G - cb - c pk) + e (s h - ch - c out) = 0 with out free
            let s = rand_scalar(&mut r);
            let (cb, ch) = (pt(k * G), pt(z * h));
            let out0 = pt(y * h);
            let c0 = refvrf::challenge(&out0, &cb, &ch, &pk, &x);
            // choose the response instead of the output
            let hs = refvrf::h2p_scalar(&x);
            let num = k + c0 * sk + e * (z * hs + c0 * y * hs);
            let den = Scalar::ONE + e * hs;
            add("sum of the equations", pk, out0, cb, ch, num * den.invert());
            let _ = s;
        }
        // degenerate points
        let idp = [0u8; 32];
        for (o, a, b) in [(idp, idp, idp), (idp, pt(k * G), pt(k * h)), (out, idp, idp), (pk, pt(k * G), pt(k * G)), (pt(h), pt(k * G), pt(k * h)), (cp(G), pt(k * G), pt(k * h)), (cp(-(sk * h)), pt(k * G), pt(-(k * h))), (cp(sk * h + sk * h), pt(k * G), pt(k * h + k * h))] {
            let c = refvrf::challenge(&o, &a, &b, &pk, &x);
            for s in [Scalar::ZERO, k + c * sk, c * sk, k] {
                add("degenerate points", pk, o, a, b, s);
            }
        }
        // a true proof for another input or key, relabelled
        let x2 = gen_input(&mut r);
        if x2 != x {
            let p = honest(sk, &x2);
            add("output for another input", pk, p.out, p.cb, p.ch, Option::from(Scalar::from_canonical_bytes(p.s)).unwrap_or(k));
        }
        let p = honest(y, &x);
        if y != sk {
            add("output for another key", pk, p.out, p.cb, p.ch, Option::from(Scalar::from_canonical_bytes(p.s)).unwrap_or(k));
        }
        for (w, pkx, p) in tries {
            inc(cnt, "rogue proofs offered");
            // the honest output for the key offered
            let want = if pkx == pk {
                truth
            } else {
                // key chosen by the prover: the discrete log is known only implicitly; the
                // output y h belongs to y G alone
                cp(y * G)
            };
            let is_true = if pkx == pk { p.out == want } else { pkx == want };
            for (who, v) in [("on-chain", onchain(&pkx, &x, &p)), ("off-chain", offchain(&pkx, &x, &p))] {
                if v == Verdict::Yes && !is_true {
                    bads.push(bad(&["C02"], &format!("{who} verifier accepts a second output: {}", w.split(", fields").next().unwrap()), format!("{w}: {}", show(&pkx, &x, &p))));
                }
            }
        }
        // non-canonical encodings of the true output
        let p = honest(sk, &x);
        let mut alt = vec![];
        let mut o = p.out;
        o[31] |= 0x80;
        alt.push(o);
        let mut o = p.out;
        o[0] ^= 1;
        alt.push(o);
        alt.push(neg_bytes(&p.out));
        alt.push(add_p(&p.out));
        for o in alt.into_iter().filter(|o| *o != p.out) {
            for c in [refvrf::challenge(&o, &p.cb, &p.ch, &pk, &x), refvrf::challenge(&p.out, &p.cb, &p.ch, &pk, &x)] {
                let k2 = rand_scalar(&mut r);
                let q = Proof { out: o, cb: p.cb, ch: p.ch, s: p.s };
                let q2 = {
                    let (cb, ch) = (cp(k2 * G), cp(k2 * h));
                    let c2 = refvrf::challenge(&o, &cb, &ch, &pk, &x);
                    Proof { out: o, cb, ch, s: (k2 + c2 * sk).to_bytes() }
                };
                let _ = c;
                for q in [q, q2] {
                    inc(cnt, "alternative encodings offered");
                    for (who, v) in [("on-chain", onchain(&pk, &x, &q)), ("off-chain", offchain(&pk, &x, &q))] {
                        if v == Verdict::Yes {
                            bads.push(bad(&["C02", "C03"], &format!("{who} verifier accepts a second encoding of the output"), show(&pk, &x, &q)));
                        }
                    }
                }
            }
        }
        // an independent honest prover must be accepted with the same output only
        let q = refvrf::prove(sk, &x, k);
        if onchain(&pk, &x, &q) == Verdict::Yes && q.out != truth {
            bads.push(bad(&["C02"], "prover's own output is not the accepted one", show(&pk, &x, &q)));
        }
        inc(cnt, "keys and inputs attacked");
        if bads.len() > 5 {
            break;
        }
    }
    bads
}

/// p - x for a field element in little-endian
fn neg_bytes(x: &[u8; 32]) -> [u8; 32] {
    let p = field_p();
    let mut o = [0u8; 32];
    let mut borrow = 0i32;
    for i in 0..32 {
        let mut d = p[i] as i32 - x[i] as i32 - borrow;
        borrow = 0;
        if d < 0 {
            d += 256;
            borrow = 1;
        }
        o[i] = d as u8;
    }
    o
}
fn add_p(x: &[u8; 32]) -> [u8; 32] {
    let p = field_p();
    let mut o = [0u8; 32];
    let mut carry = 0u32;
    for i in 0..32 {
        let d = p[i] as u32 + x[i] as u32 + carry;
        o[i] = d as u8;
        carry = d >> 8;
    }
    o
}
fn field_p() -> [u8; 32] {
    let mut p = [0xff; 32];
    p[0] = 0xed;
    p[31] = 0x7f;
    p
}
/// s + L
fn add_l(x: &[u8; 32]) -> [u8; 32] {
    // L = 2^252 + 27742317777372353535851937790883648493
    let l: [u8; 32] = {
        let mut b = (Scalar::ZERO - Scalar::ONE).to_bytes();
        b[0] += 1;
        b
    };
    let mut o = [0u8; 32];
    let mut carry = 0u32;
    for i in 0..32 {
        let d = l[i] as u32 + x[i] as u32 + carry;
        o[i] = d as u8;
        carry = d >> 8;
    }
    o
}

pub fn c03(seed: u64, n: u64, cnt: &mut Cnt) -> Vec<Bad> {
    let mut r = Rng::new(seed);
    let mut bads: Vec<Bad> = vec![];
    let put = |p: &Proof, pk: &[u8; 32], x: &[u8; 32]| -> [[u8; 32]; 6] { [*pk, *x, p.out, p.cb, p.ch, p.s] };
    for i in 0..n {
        let (sk, pk) = keygen(&gen_key(&mut r, i));
        let (sk2, pk2) = keygen(&gen_key(&mut r, i + 1_000_000));
        let (x, x2) = (gen_input(&mut r), gen_input(&mut r));
        let p = honest(sk, &x);
        let f = put(&p, &pk, &x);
        let mut cases: Vec<(String, [[u8; 32]; 6], bool)> = vec![];
        let names = ["key", "input", "output", "base commitment", "hash commitment", "response"];
        // single bits: all of them once per run, a sample otherwise
        let all = i == 0;
        for fi in 0..6 {
            for b in 0..256 {
                if all || r.chance(1, 40) {
                    let mut g = f;
                    g[fi][b / 8] ^= 1 << (b % 8);
                    cases.push((format!("bit of the {} flipped", names[fi]), g, false));
                }
            }
            let special = [[0; 32], [255; 32], cp(rand_point(&mut r)), r.b32(), neg_bytes(&f[fi]), add_p(&f[fi]), add_l(&f[fi]), cp(G), Scalar::ONE.to_bytes(), pk2];
            for s in special {
                if s != f[fi] {
                    let mut g = f;
                    g[fi] = s;
                    cases.push((format!("{} replaced", names[fi]), g, false));
                }
            }
        }
        for a in 0..6 {
            for b in 0..a {
                let mut g = f;
                g.swap(a, b);
                if g != f {
                    cases.push((format!("{} and {} swapped", names[b], names[a]), g, false));
                }
            }
        }
        // parts of other genuine proofs
        let others = [put(&honest(sk, &x2), &pk, &x2), put(&honest(sk2, &x), &pk2, &x), put(&honest(sk2, &x2), &pk2, &x2)];
        for o in others {
            for mask in 1..63u32 {
                let mut g = f;
                for (j, v) in o.iter().enumerate() {
                    if mask >> j & 1 == 1 {
                        g[j] = *v;
                    }
                }
                if g != f && g != o {
                    cases.push(("parts of two genuine proofs mixed".into(), g, false));
                }
            }
        }
        // genuine proofs by another prover are fine or not, but both must agree
        let k = rand_scalar(&mut r);
        let q = refvrf::prove(sk, &x, k);
        cases.push(("independent prover".into(), put(&q, &pk, &x), true));
        let q = refvrf::prove(Scalar::ZERO, &x, k);
        cases.push(("key is the identity".into(), put(&q, &[0; 32], &x), true));
        for _ in 0..6 {
            cases.push(("random bytes".into(), [r.b32(), r.b32(), r.b32(), r.b32(), r.b32(), r.b32()], true));
            let z = rand_scalar(&mut r);
            cases.push(("random valid encodings".into(), [cp(rand_point(&mut r)), x, cp(rand_point(&mut r)), cp(rand_point(&mut r)), cp(rand_point(&mut r)), z.to_bytes()], true));
        }
        // by the owner of a key: everything holds if bytes that are no point are read as some point
        let h = refvrf::h2p(&x);
        let hs = refvrf::h2p_scalar(&x);
        let mut junk = vec![[0xff; 32], neg_bytes(&pk), add_p(&pk), r.b32(), r.b32(), x];
        junk.push({
            let mut a = pk;
            a[31] |= 0x80;
            a
        });
        junk.push({
            let mut a = [0; 32];
            a[31] = 0x80;
            a
        });
        junk.push(field_p());
        junk.retain(|b| curve25519_dalek::ristretto::CompressedRistretto(*b).decompress().is_none());
        for j in junk {
            // discrete logarithms of the point it may be read as: identity, generator, hash of the input, the key
            for d in [Scalar::ZERO, Scalar::ONE, hs, sk] {
                let dh = d * hs.invert();
                let mk = |sk: Scalar, k: Scalar, f: [[u8; 32]; 4]| {
                    let c = refvrf::challenge(&f[1], &f[2], &f[3], &f[0], &x);
                    [f[0], x, f[1], f[2], f[3], (k + c * sk).to_bytes()]
                };
                let g0 = |k: Scalar| [pk, cp(sk * h), cp(k * G), cp(k * h)];
                let with = |mut f: [[u8; 32]; 4], l: &[usize]| {
                    for i in l {
                        f[*i] = j;
                    }
                    f
                };
                let key = |y: Scalar| [cp(y * G), cp(y * h), cp(k * G), cp(k * h)];
                for (w, g) in [
                    ("base commitment", mk(sk, d, with(g0(d), &[2]))),
                    ("hash commitment", mk(sk, dh, with(g0(dh), &[3]))),
                    ("both commitments", mk(sk, d, with(g0(d), &[2, 3]))),
                    ("key", mk(d, k, with(key(d), &[0]))),
                    ("output", mk(dh, k, with(key(dh), &[1]))),
                    ("key and output", mk(d, k, with(key(d), &[0, 1]))),
                ] {
                    cases.push((format!("{w} not a point"), g, false));
                }
            }
        }
        // other encodings of points, with everything else made for them
        for f in 0..4 {
            let g = [pk, cp(sk * h), cp(k * G), cp(k * h)];
            let mut hb = g[f];
            hb[31] |= 0x80;
            for alt in [neg_bytes(&g[f]), add_p(&g[f]), hb] {
                if alt != g[f] {
                    let mut g = g;
                    g[f] = alt;
                    let c = refvrf::challenge(&g[1], &g[2], &g[3], &g[0], &x);
                    cases.push((format!("another encoding of the {}", ["key", "output", "base commitment", "hash commitment"][f]), [g[0], x, g[1], g[2], g[3], (k + c * sk).to_bytes()], false));
                }
            }
        }
        for (w, g, free) in cases {
            inc(cnt, "altered proofs compared");
            inc(cnt, &format!("case: {}", w));
            let p = Proof { out: g[2], cb: g[3], ch: g[4], s: g[5] };
            let (a, b) = (onchain(&g[0], &g[1], &p), offchain(&g[0], &g[1], &p));
            let d = || format!("{w}: {}", show(&g[0], &g[1], &p));
            if a == Verdict::Abort || b == Verdict::Abort {
                bads.push(bad(&["C03"], "verifier aborts", format!("{a:?} {b:?} {}", d())));
            } else if a != b {
                bads.push(bad(&["C03"], "verifiers disagree", format!("on-chain {a:?}, off-chain {b:?}: {}", d())));
            }
            if !free && (a == Verdict::Yes || b == Verdict::Yes) {
                bads.push(bad(&["C03"], "altered proof accepted", format!("on-chain {a:?}, off-chain {b:?}: {}", d())));
            }
        }
        if bads.len() > 5 {
            break;
        }
    }
    bads
}

fn hkdf32(salt: Option<&[u8]>, ikm: &[u8], info: &[u8]) -> Scalar {
    let hk = hkdf::Hkdf::<Sha512>::new(salt, ikm);
    let mut o = [0u8; 64];
    hk.expand(info, &mut o).unwrap();
    Scalar::from_bytes_mod_order(o[..32].try_into().unwrap())
}
/// Everything an observer could compute from public bytes that a nonce or key might mistakenly be.
fn public_scalars(parts: &[Vec<u8>]) -> Vec<Scalar> {
    let mut ikms: Vec<Vec<u8>> = vec![vec![]];
    for a in parts {
        ikms.push(a.clone());
        for b in parts {
            ikms.push([&a[..], &b[..]].concat());
        }
    }
    let mut v = vec![Scalar::ZERO, Scalar::ONE];
    for m in &ikms {
        v.push(Scalar::from_bytes_mod_order(Sha256::digest(m).into()));
        v.push(Scalar::from_bytes_mod_order(Sha512::digest(m)[..32].try_into().unwrap()));
        v.push(Scalar::from_bytes_mod_order_wide(&Sha512::digest(m).into()));
        if m.len() == 32 {
            v.push(Scalar::from_bytes_mod_order(m[..].try_into().unwrap()));
        }
        for tag in [&b"VRF-Ephem-HashToPoint"[..], b"VRF-Ephem-HashToScalar", b"VRF-Ephem-Challenge", b"VRF-Ephem-Nonce", b"VRF-Nonce", b"VRF-Key", b"VRF-Solana-SecretKey"] {
            v.push(Scalar::from_bytes_mod_order(Sha256::digest([tag, &m[..]].concat()).into()));
        }
        for salt in [None, Some(&b"VRF-Solana-SecretKey"[..]), Some(b"VRF-Ephem-Nonce")] {
            for info in [&b""[..], b"VRF-Key", b"VRF-Nonce"] {
                v.push(hkdf32(salt, m, info));
            }
        }
    }
    v
}

/// An outside attacker collecting published proofs. Returns violations and known weaknesses seen.
pub fn c04(seed: u64, n: u64, cnt: &mut Cnt) -> Vec<Bad> {
    let mut r = Rng::new(seed);
    let mut bads: Vec<Bad> = vec![];
    let mut cbs: BTreeMap<[u8; 32], ([u8; 32], [u8; 32], Scalar, Scalar)> = BTreeMap::new();
    let mut kbits = [0u64; 252];
    let mut sbits = [0u64; 252];
    let (mut kn, mut sn) = (0u64, 0u64);
    let shared: Vec<[u8; 32]> = (0..8).map(|_| gen_input(&mut r)).collect();
    for i in 0..n {
        let kp = key_from(r.u64(), "k", i);
        let (sk, pk) = keygen(&kp);
        let id = kp.pubkey().to_bytes();
        sn += 1;
        for (b, c) in sbits.iter_mut().enumerate() {
            *c += (sk.to_bytes()[b / 8] >> (b % 8) & 1) as u64;
        }
        let mut cand = public_scalars(&[id.to_vec(), pk.to_vec(), vec![0; 32], [id, id].concat(), [[0; 32], id].concat()]);
        cand.push(Scalar::ZERO);
        inc(cnt, "secret keys attacked from public identity");
        if let Some(c) = cand.iter().find(|c| **c == sk) {
            bads.push(bad(&["C04"], "VRF secret computable from public data", format!("identity {} secret {}", hex(&id), hex(&c.to_bytes()))));
        }
        let mut series: Vec<(Scalar, [u8; 32], Scalar)> = vec![];
        let m = 4 + r.idx(4);
        for j in 0..m {
            let x = match r.below(4) {
                0 => shared[r.idx(8)],
                1 => {
                    // neighbours of the previous input
                    let mut b = series.last().map(|s| s.1).unwrap_or([0; 32]);
                    b[r.idx(32)] ^= 1 << r.below(8);
                    b
                }
                _ => r.b32(),
            };
            let _ = j;
            let p = honest(sk, &x);
            inc(cnt, "published proofs collected");
            let c = refvrf::challenge(&p.out, &p.cb, &p.ch, &pk, &x);
            let Some(s) = Option::<Scalar>::from(Scalar::from_canonical_bytes(p.s)) else { continue };
            // two proofs with one blinding value give the key away
            if let Some((pk0, x0, c0, s0)) = cbs.get(&p.cb) {
                if (*pk0, *x0) != (pk, x) {
                    let rec = if c != *c0 { (s - s0) * (c - c0).invert() } else { Scalar::ZERO };
                    let how = if rec * G == sk * G { "and the secret key follows" } else { "" };
                    bads.push(bad(&["C04"], "one blinding value used in two proofs", format!("{how} pk {} inputs {} {}", hex(&pk), hex(x0), hex(&x))));
                }
            }
            cbs.insert(p.cb, (pk, x, c, s));
            // the blinding value, which the observer must not find
            let k = s - c * sk;
            if cp(k * G) != p.cb {
                // another challenge is in use; the blinding value can still be recognised by cb
                inc(cnt, "proofs with an unpublished challenge");
            } else {
                kn += 1;
                for (b, c) in kbits.iter_mut().enumerate() {
                    *c += (k.to_bytes()[b / 8] >> (b % 8) & 1) as u64;
                }
                if series.iter().all(|s| s.1 != x) {
                    series.push((k, x, c));
                }
            }
            let cand = public_scalars(&[x.to_vec(), pk.to_vec(), id.to_vec(), p.out.to_vec(), vec![0; 32]]);
            for cnd in cand {
                if cnd == k || (kn == 0 && cp(cnd * G) == p.cb) {
                    bads.push(bad(&["C04"], "blinding value computable from public data", format!("pk {} input {}", hex(&pk), hex(&x))));
                    break;
                }
            }
            // predicting the output without the secret
            let pkp = CompressedRistretto(pk).decompress().unwrap();
            if cp(refvrf::h2p_scalar(&x) * pkp) == p.out {
                bads.push(bad(&["C04"], "known: output = H(input) * public key", format!("pk {} input {} output {}", hex(&pk), hex(&x), hex(&p.out))));
            }
            if cp(refvrf::h2p(&x)) == p.out || p.out == [0; 32] || p.out == pk {
                bads.push(bad(&["C04"], "output does not depend on the secret", format!("input {}", hex(&x))));
            }
            let other = honest(rand_scalar(&mut r), &x);
            if other.out == p.out {
                bads.push(bad(&["C04"], "output does not depend on the secret", format!("input {}", hex(&x))));
            }
            if other.cb == p.cb || other.ch == p.ch {
                bads.push(bad(&["C04"], "blinding value does not depend on the secret", format!("input {}", hex(&x))));
            }
        }
        // affine relations between blinding values and public values
        for w in series.windows(3) {
            type F = fn(&[u8; 32], &Scalar) -> Scalar;
            let fs: [(&str, F); 4] = [
                ("input", |x, _| Scalar::from_bytes_mod_order(*x)),
                ("hash of the input", |x, _| Scalar::from_bytes_mod_order(Sha256::digest(x).into())),
                ("hash to point", |x, _| refvrf::h2p_scalar(x)),
                ("challenge", |_, c| *c),
            ];
            for (name, f) in fs {
                let (f0, f1, f2) = (f(&w[0].1, &w[0].2), f(&w[1].1, &w[1].2), f(&w[2].1, &w[2].2));
                inc(cnt, "linear relations tested");
                if (w[0].0 - w[1].0) * (f0 - f2) == (w[0].0 - w[2].0) * (f0 - f1) {
                    bads.push(bad(&["C04"], "blinding values are linearly related", name.to_string()));
                }
            }
        }
        if bads.iter().filter(|b| !b.kind.starts_with("known")).count() > 5 {
            break;
        }
    }
    for (what, bits, n) in [("blinding value", &kbits, kn), ("secret key", &sbits, sn)] {
        if n < 200 {
            continue;
        }
        let sd = (n as f64 / 4.0).sqrt();
        for (b, c) in bits.iter().enumerate() {
            if (*c as f64 - n as f64 / 2.0).abs() > 7.0 * sd {
                bads.push(bad(&["C04"], &format!("bits of the {what} are biased"), format!("bit {b}: {c} ones in {n}")));
                break;
            }
        }
        *cnt.entry(format!("samples in the bit bias test of the {what}")).or_default() += n;
    }
    bads
}
