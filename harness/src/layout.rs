//! The published account layout and constants, written down independently of
//! the code under test.
use crate::util::pda;
use solana_program::pubkey;
use solana_program::pubkey::Pubkey;

pub const VRF: Pubkey = pubkey!("Vrf1RNUjXmQGjmQrQLvJHs9SNkvDJEsRVFPkfSQUwGz");
pub const DLP: Pubkey = pubkey!("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh");
pub const MAGIC: Pubkey = pubkey!("Magic11111111111111111111111111111111111111");
pub const MAGIC_CTX: Pubkey = pubkey!("MagicContext1111111111111111111111111111111");
pub const VRF_IDENTITY: Pubkey = pubkey!("9irBy75QS2BN81FUgXuHcjqceJJRuc9oDkAe8TKVvvAw");
pub const DEFAULT_EPHEMERAL_QUEUE: Pubkey = pubkey!("5hBR571xnXppuCPveTrctfTU7tJLSN94nq7kv7FRK5Tc");
pub const LOADER_UPGRADEABLE: Pubkey = pubkey!("BPFLoaderUpgradeab1e11111111111111111111111");
pub const SLOT_HASHES: Pubkey = pubkey!("SysvarS1otHashes111111111111111111111111111");
pub const SYSVAR_OWNER: Pubkey = pubkey!("Sysvar1111111111111111111111111111111111111");
pub const SYSTEM: Pubkey = pubkey!("11111111111111111111111111111111");

pub const COST_HIGH: u64 = 800_000;
pub const COST_REGULAR: u64 = 500_000;
pub const TTL: u64 = 240;
pub const MATURITY: u64 = 200;
pub const MAX_METAS: usize = 20;
pub const MAX_ARGS: usize = 512;
pub const MAX_DISC: usize = 8;
pub const ITEM: usize = 96;
pub const ITEMS_START: usize = 16;

pub fn oracles_key() -> Pubkey {
    pda(&[b"oracles"], &VRF).0
}
pub fn record_key(o: &Pubkey) -> Pubkey {
    pda(&[b"oracle", o.as_ref()], &VRF).0
}
pub fn queue_key(o: &Pubkey, i: u8) -> Pubkey {
    pda(&[b"queue", o.as_ref(), &[i]], &VRF).0
}
pub fn identity_of(p: &Pubkey) -> Pubkey {
    pda(&[b"identity"], p).0
}
pub fn programdata_key() -> Pubkey {
    pda(&[VRF.as_ref()], &LOADER_UPGRADEABLE).0
}
pub fn undelegate_buffer(q: &Pubkey) -> Pubkey {
    pda(&[b"undelegate-buffer", q.as_ref()], &DLP).0
}
pub fn delegate_buffer(q: &Pubkey) -> Pubkey {
    pda(&[b"buffer", q.as_ref()], &VRF).0
}
pub fn delegation_record(q: &Pubkey) -> Pubkey {
    pda(&[b"delegation", q.as_ref()], &DLP).0
}
pub fn delegation_metadata(q: &Pubkey) -> Pubkey {
    pda(&[b"delegation-metadata", q.as_ref()], &DLP).0
}

pub fn price(prio: u8) -> u64 {
    if prio == 1 {
        COST_HIGH
    } else {
        COST_REGULAR
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Entry {
    pub slot: u64,
    pub id: [u8; 32],
    pub program: Pubkey,
    pub disc: Vec<u8>,
    pub metas: Vec<(Pubkey, bool)>,
    pub args: Vec<u8>,
    pub prio: u8,
}
impl Entry {
    pub fn size(&self) -> usize {
        ITEM + self.disc.len() + self.metas.len() * 33 + self.args.len()
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct QueueView {
    pub count: u32,
    pub cursor: u32,
    pub index: u8,
    pub entries: Vec<Entry>,
    /// end of the last used entry, rounded up to 8 (16 when there is none)
    pub used_end: usize,
    pub len: usize,
    /// an entry holds a writable flag that is neither 0 nor 1
    pub odd: bool,
}

fn u32at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
fn u16at(b: &[u8], o: usize) -> usize {
    u16::from_le_bytes(b[o..o + 2].try_into().unwrap()) as usize
}

pub fn up8(x: usize) -> usize {
    (x + 7) & !7
}

/// Parse a complete, well-formed queue account (with its 8-byte tag).
pub fn parse_queue(data: &[u8]) -> Result<QueueView, String> {
    if data.len() < 20 {
        return Err(format!("too short ({})", data.len()));
    }
    if data[..8] != [3, 0, 0, 0, 0, 0, 0, 0] {
        return Err("wrong account tag".into());
    }
    let b = &data[8..];
    let (count, cursor, index) = (u32at(b, 0), u32at(b, 4), b[8]);
    let mut v = QueueView { count, cursor, index, entries: vec![], used_end: ITEMS_START, len: b.len(), odd: false };
    if cursor == 0 {
        if count != 0 {
            return Err("no cursor but items".into());
        }
        return Ok(v);
    }
    if (cursor as usize) < ITEMS_START || (cursor as usize > b.len() && cursor as usize > ITEMS_START) {
        return Err(format!("cursor {cursor} outside the account ({})", b.len()));
    }
    let mut o = ITEMS_START;
    while o < cursor as usize {
        if o + ITEM > cursor as usize {
            // padding of a trimmed tail only
            if cursor as usize - o < 8 {
                break;
            }
            return Err(format!("entry at {o} runs past the cursor {cursor}"));
        }
        let (doff, moff, aoff) = (u32at(b, o + 72) as usize, u32at(b, o + 76) as usize, u32at(b, o + 80) as usize);
        let (dl, ml, al) = (u16at(b, o + 84), u16at(b, o + 86), u16at(b, o + 88));
        let (prio, used) = (b[o + 90], b[o + 91]);
        let end = o + ITEM + dl + ml * 33 + al;
        if end > cursor as usize {
            return Err(format!("entry at {o} ends at {end}, past the cursor {cursor}"));
        }
        if used == 1 {
            if doff != o + ITEM || moff != doff + dl || aoff != moff + ml * 33 {
                return Err(format!("entry at {o} has inconsistent offsets {doff} {moff} {aoff}"));
            }
            let mut metas = vec![];
            for i in 0..ml {
                let p = moff + i * 33;
                // kept apart, so that the rest can still be judged
                v.odd |= b[p + 32] > 1;
                metas.push((Pubkey::new_from_array(b[p..p + 32].try_into().unwrap()), b[p + 32] & 1 == 1));
            }
            v.entries.push(Entry {
                slot: u64::from_le_bytes(b[o..o + 8].try_into().unwrap()),
                id: b[o + 8..o + 40].try_into().unwrap(),
                program: Pubkey::new_from_array(b[o + 40..o + 72].try_into().unwrap()),
                disc: b[doff..doff + dl].to_vec(),
                metas,
                args: b[aoff..aoff + al].to_vec(),
                prio,
            });
            v.used_end = up8(end);
        } else if used != 0 {
            return Err(format!("entry at {o} has used flag {used}"));
        }
        o = up8(end);
    }
    if v.entries.len() != count as usize {
        return Err(format!("header says {count} entries, the account holds {}", v.entries.len()));
    }
    Ok(v)
}

/// Build a queue account holding `entries` (used to plant lookalikes).
pub fn build_queue(index: u8, len: usize, entries: &[Entry]) -> Vec<u8> {
    let mut d = vec![0u8; len];
    d[0] = 3;
    let b = &mut d[8..];
    let mut o = ITEMS_START;
    let mut cur = o;
    for e in entries {
        b[o..o + 8].copy_from_slice(&e.slot.to_le_bytes());
        b[o + 8..o + 40].copy_from_slice(&e.id);
        b[o + 40..o + 72].copy_from_slice(e.program.as_ref());
        let (dof, mof) = (o + ITEM, o + ITEM + e.disc.len());
        let aof = mof + e.metas.len() * 33;
        b[o + 72..o + 76].copy_from_slice(&(dof as u32).to_le_bytes());
        b[o + 76..o + 80].copy_from_slice(&(mof as u32).to_le_bytes());
        b[o + 80..o + 84].copy_from_slice(&(aof as u32).to_le_bytes());
        b[o + 84..o + 86].copy_from_slice(&(e.disc.len() as u16).to_le_bytes());
        b[o + 86..o + 88].copy_from_slice(&(e.metas.len() as u16).to_le_bytes());
        b[o + 88..o + 90].copy_from_slice(&(e.args.len() as u16).to_le_bytes());
        b[o + 90] = e.prio;
        b[o + 91] = 1;
        b[dof..dof + e.disc.len()].copy_from_slice(&e.disc);
        for (i, (k, w)) in e.metas.iter().enumerate() {
            b[mof + i * 33..mof + i * 33 + 32].copy_from_slice(k.as_ref());
            b[mof + i * 33 + 32] = *w as u8;
        }
        b[aof..aof + e.args.len()].copy_from_slice(&e.args);
        cur = aof + e.args.len();
        o = up8(cur);
    }
    b[0..4].copy_from_slice(&(entries.len() as u32).to_le_bytes());
    b[4..8].copy_from_slice(&(cur as u32).to_le_bytes());
    b[8] = index;
    d
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Record {
    pub vrf_pk: [u8; 32],
    pub reg_slot: u64,
    pub open: u64,
}
pub fn parse_record(d: &[u8]) -> Result<Record, String> {
    if d.len() != 56 {
        return Err(format!("record is {} bytes", d.len()));
    }
    if d[..8] != [1, 0, 0, 0, 0, 0, 0, 0] {
        return Err("wrong record tag".into());
    }
    Ok(Record {
        vrf_pk: d[8..40].try_into().unwrap(),
        reg_slot: u64::from_le_bytes(d[40..48].try_into().unwrap()),
        open: u64::from_le_bytes(d[48..56].try_into().unwrap()),
    })
}
pub fn build_record(r: &Record) -> Vec<u8> {
    let mut d = vec![1, 0, 0, 0, 0, 0, 0, 0];
    d.extend_from_slice(&r.vrf_pk);
    d.extend_from_slice(&r.reg_slot.to_le_bytes());
    d.extend_from_slice(&r.open.to_le_bytes());
    d
}
pub fn parse_oracles(d: &[u8]) -> Result<Vec<Pubkey>, String> {
    if d.len() < 12 || d[..8] != [0; 8] {
        return Err("bad oracle list header".into());
    }
    let n = u32at(d, 8) as usize;
    if d.len() != 12 + 32 * n {
        return Err(format!("oracle list of {n} entries is {} bytes", d.len()));
    }
    Ok((0..n).map(|i| Pubkey::new_from_array(d[12 + 32 * i..44 + 32 * i].try_into().unwrap())).collect())
}
pub fn build_oracles(l: &[Pubkey]) -> Vec<u8> {
    let mut d = vec![0; 8];
    d.extend_from_slice(&(l.len() as u32).to_le_bytes());
    for k in l {
        d.extend_from_slice(k.as_ref());
    }
    d
}

#[derive(Clone, Debug, PartialEq)]
pub struct Request {
    pub seed: [u8; 32],
    pub program: Pubkey,
    pub disc: Vec<u8>,
    /// key, signer, writable
    pub metas: Vec<(Pubkey, bool, bool)>,
    pub args: Vec<u8>,
}

/// Parse the body of a request instruction; `exact` tells whether nothing trails.
pub fn parse_request(b: &[u8]) -> Option<(Request, bool)> {
    struct R<'a>(&'a [u8]);
    impl<'a> R<'a> {
        fn take(&mut self, n: usize) -> Option<&'a [u8]> {
            if self.0.len() < n {
                return None;
            }
            let (a, b) = self.0.split_at(n);
            self.0 = b;
            Some(a)
        }
        fn u32(&mut self) -> Option<usize> {
            Some(u32::from_le_bytes(self.take(4)?.try_into().unwrap()) as usize)
        }
        fn bool(&mut self) -> Option<bool> {
            match self.take(1)?[0] {
                0 => Some(false),
                1 => Some(true),
                _ => None,
            }
        }
    }
    let mut r = R(b);
    let seed = r.take(32)?.try_into().unwrap();
    let program = Pubkey::new_from_array(r.take(32)?.try_into().unwrap());
    let n = r.u32()?;
    let disc = r.take(n)?.to_vec();
    let n = r.u32()?;
    let mut metas = vec![];
    for _ in 0..n {
        let k = Pubkey::new_from_array(r.take(32)?.try_into().unwrap());
        metas.push((k, r.bool()?, r.bool()?));
    }
    let n = r.u32()?;
    let args = r.take(n)?.to_vec();
    Some((Request { seed, program, disc, metas, args }, r.0.is_empty()))
}
pub fn build_request(tag: u8, q: &Request) -> Vec<u8> {
    let mut d = vec![tag, 0, 0, 0, 0, 0, 0, 0];
    d.extend_from_slice(&q.seed);
    d.extend_from_slice(q.program.as_ref());
    d.extend_from_slice(&(q.disc.len() as u32).to_le_bytes());
    d.extend_from_slice(&q.disc);
    d.extend_from_slice(&(q.metas.len() as u32).to_le_bytes());
    for (k, s, w) in &q.metas {
        d.extend_from_slice(k.as_ref());
        d.push(*s as u8);
        d.push(*w as u8);
    }
    d.extend_from_slice(&(q.args.len() as u32).to_le_bytes());
    d.extend_from_slice(&q.args);
    d
}

/// The upgrade authority recorded in a ProgramData account, if it is one.
pub fn parse_authority(d: &[u8]) -> Option<Option<Pubkey>> {
    if d.len() < 13 || d[..4] != [3, 0, 0, 0] {
        return None;
    }
    match d[12] {
        0 => Some(None),
        1 if d.len() >= 45 => Some(Some(Pubkey::new_from_array(d[13..45].try_into().unwrap()))),
        _ => None,
    }
}
pub fn build_programdata(a: Option<Pubkey>) -> Vec<u8> {
    let mut d = vec![3, 0, 0, 0];
    d.extend_from_slice(&77u64.to_le_bytes());
    match a {
        None => d.push(0),
        Some(k) => {
            d.push(1);
            d.extend_from_slice(k.as_ref());
        }
    }
    d.resize(45, 0);
    d.extend_from_slice(&[0x7f, b'E', b'L', b'F']);
    d
}

/// What the loader does when the authority changes: revoking it only clears
/// the option, the bytes of the last authority stay.
pub fn set_authority(d: &mut [u8], a: Option<Pubkey>) {
    d[12] = a.is_some() as u8;
    if let Some(k) = a {
        d[13..45].copy_from_slice(k.as_ref());
    }
}

pub fn on_curve(k: &Pubkey) -> bool {
    curve25519_dalek::edwards::CompressedEdwardsY(k.to_bytes()).decompress().is_some()
}
pub fn usable_identity(k: &Pubkey) -> bool {
    *k != Pubkey::default() && *k != SYSTEM && on_curve(k)
}
