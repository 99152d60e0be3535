//! Independent implementation of the published VRF construction.
use curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT as G;
use curve25519_dalek::ristretto::{CompressedRistretto, RistrettoPoint};
use curve25519_dalek::scalar::Scalar;
use sha2::{Digest, Sha256, Sha512};

fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}
pub fn h2p_scalar(input: &[u8]) -> Scalar {
    Scalar::from_bytes_mod_order(sha(&[b"VRF-Ephem-HashToPoint", input]))
}
pub fn h2p(input: &[u8]) -> RistrettoPoint {
    h2p_scalar(input) * G
}
pub fn challenge(out: &[u8; 32], cb: &[u8; 32], ch: &[u8; 32], pk: &[u8; 32], input: &[u8]) -> Scalar {
    let t = sha(&[b"VRF-Ephem-Challenge", out, cb, ch, pk, input]);
    Scalar::from_bytes_mod_order(sha(&[b"VRF-Ephem-HashToScalar", &t]))
}
pub fn verify(pk: &[u8; 32], input: &[u8; 32], out: &[u8; 32], cb: &[u8; 32], ch: &[u8; 32], s: &[u8; 32]) -> bool {
    let d = |b: &[u8; 32]| CompressedRistretto(*b).decompress();
    let Some(s) = Option::<Scalar>::from(Scalar::from_canonical_bytes(*s)) else { return false };
    let (Some(p), Some(o), Some(a), Some(b)) = (d(pk), d(out), d(cb), d(ch)) else { return false };
    let c = challenge(out, cb, ch, pk, input);
    s * G == a + c * p && s * h2p(input) == b + c * o
}
pub struct Proof {
    pub out: [u8; 32],
    pub cb: [u8; 32],
    pub ch: [u8; 32],
    pub s: [u8; 32],
}
/// An honest proof with a nonce of the caller's choice.
pub fn prove(sk: Scalar, input: &[u8; 32], k: Scalar) -> Proof {
    let h = h2p(input);
    let (out, cb, ch) = ((sk * h).compress().0, (k * G).compress().0, (k * h).compress().0);
    let c = challenge(&out, &cb, &ch, &(sk * G).compress().0, input);
    Proof { out, cb, ch, s: (k + c * sk).to_bytes() }
}
pub fn derive_sk(keypair: &[u8; 64]) -> Scalar {
    let hk = hkdf::Hkdf::<Sha512>::new(Some(b"VRF-Solana-SecretKey"), keypair);
    let mut okm = [0u8; 64];
    hk.expand(b"VRF-Key", &mut okm).unwrap();
    Scalar::from_bytes_mod_order(okm[..32].try_into().unwrap())
}
pub fn pk_of(sk: Scalar) -> [u8; 32] {
    (sk * G).compress().0
}
