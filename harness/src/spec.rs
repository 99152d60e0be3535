//! Reference specification of the on-chain program, per instruction: who may
//! do it, when it must succeed, and exactly what it changes. Written against
//! the documented behaviour only; the code under test is never consulted.
use crate::layout::*;
use crate::refvrf;
use crate::svm::{rent_min, Acct, Call, IxAcct};
use crate::util::{hex, pda, short};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeSet;

pub type Props = &'static [&'static str];

#[derive(Clone, Debug)]
pub struct Bad {
    pub props: Vec<&'static str>,
    pub kind: String,
    pub msg: String,
}
pub fn bad(props: Props, kind: &str, msg: String) -> Bad {
    Bad { props: props.to_vec(), kind: kind.into(), msg }
}

#[derive(Clone, Copy, Debug)]
pub struct Env {
    pub slot: u64,
}

pub enum Verdict {
    Reject { props: Props, why: &'static str },
    Accept { must: Option<Props> },
}
use Verdict::*;

#[derive(Clone, Debug)]
pub enum Effect {
    Init,
    Add { id: Pubkey, pk: [u8; 32] },
    Remove { id: Pubkey },
    Alloc { oracle: Pubkey, index: u8, queue: Pubkey, len: usize },
    Open { oracle: Pubkey, index: u8, queue: Pubkey, len: usize },
    Close { oracle: Pubkey, index: u8, queue: Pubkey, usable: bool },
    Request { queue: Pubkey, entry: Entry },
    Provide { queue: Pubkey, oracle: Pubkey, id: [u8; 32], fee: u64 },
    Purge { queue: Pubkey, oracle: Pubkey, ids: Vec<[u8; 32]>, fee: u64 },
    Delegate { oracle: Pubkey, index: u8, queue: Pubkey },
    Undelegate { queue: Pubkey },
    Restore { account: Pubkey },
}

pub fn tag_name(d: &[u8]) -> &'static str {
    match d.first() {
        Some(0) => "initialize",
        Some(1) => "modify_oracle",
        Some(2) => "init_queue",
        Some(3) => "request_high",
        Some(4) => "provide",
        Some(5) => "delegate",
        Some(6) => "undelegate",
        Some(7) => "close",
        Some(8) => "request",
        Some(9) => "purge",
        Some(196) => "process_undelegation",
        _ => "unknown",
    }
}

fn rej(props: Props, why: &'static str) -> Verdict {
    Reject { props, why }
}

const RICH: u64 = 20_000_000_000;

fn rich(c: &Call, i: usize) -> bool {
    let a = &c.accts[i];
    let p = &c.pre[&a.key];
    a.signer && a.writable && p.owner == SYSTEM && p.data.is_empty() && p.lamports >= RICH
}
fn distinct(a: &[IxAcct]) -> bool {
    let s: BTreeSet<_> = a.iter().map(|x| x.key).collect();
    s.len() == a.len()
}
fn must(c: bool, p: Props) -> Verdict {
    Accept { must: if c { Some(p) } else { None } }
}

/// What the documentation says about this invocation, before it runs.
pub fn judge(c: &Call, env: &Env) -> Verdict {
    let d = &c.data;
    let a = &c.accts;
    if d.len() < 8 {
        return rej(&["C20", "C26"], "instruction data shorter than its 8-byte header");
    }
    let body = &d[8..];
    let pre = |i: usize| -> &Acct { &c.pre[&a[i].key] };
    match d[0] {
        0 => {
            if a.len() != 3 {
                return rej(&["C20"], "wrong number of accounts");
            }
            if !a[0].signer {
                return rej(&["C20"], "payer did not sign");
            }
            if a[1].key != oracles_key() || !a[1].writable {
                return rej(&["C20", "C06"], "not the oracle list account");
            }
            if !pre(1).data.is_empty() || pre(1).owner != SYSTEM {
                return rej(&["C20", "C06", "C05"], "oracle list exists already");
            }
            must(body.is_empty() && rich(c, 0) && a[2].key == SYSTEM && distinct(a), &["C06", "C23"])
        }
        1 => {
            if body.len() != 65 {
                return rej(&["C20", "C26"], "wrong instruction length");
            }
            if a.len() != 5 {
                return rej(&["C20"], "wrong number of accounts");
            }
            let id = Pubkey::new_from_array(body[..32].try_into().unwrap());
            if !usable_identity(&id) {
                return rej(&["C05"], "identity can not be a signing key");
            }
            if a[3].key != programdata_key() {
                return rej(&["C05", "C20"], "not this program's ProgramData account");
            }
            let auth = match parse_authority(&pre(3).data) {
                Some(Some(k)) if pre(3).owner == LOADER_UPGRADEABLE => k,
                Some(None) => return rej(&["C05"], "the upgrade authority has been revoked"),
                _ => return rej(&["C05", "C20"], "ProgramData account holds something else"),
            };
            if !a[0].signer || a[0].key != auth {
                return rej(&["C05", "C20"], "not signed by the upgrade authority");
            }
            if a[1].key != oracles_key() || !a[1].writable || pre(1).owner != VRF {
                return rej(&["C05", "C06", "C20"], "not the oracle list account");
            }
            let list = match parse_oracles(&pre(1).data) {
                Ok(l) => l,
                Err(_) => return rej(&["C06"], "oracle list is unreadable"),
            };
            if a[2].key != record_key(&id) || !a[2].writable {
                return rej(&["C05", "C06", "C20"], "not the identity's record account");
            }
            let listed = list.contains(&id);
            match body[64] {
                0 => {
                    if listed || pre(2).owner == VRF {
                        return rej(&["C06"], "the oracle is registered already");
                    }
                    must(rich(c, 0) && a[4].key == SYSTEM && distinct(a) && pre(2).owner == SYSTEM && pre(2).data.is_empty(), &["C06", "C23"])
                }
                1 => {
                    let rec = match parse_record(&pre(2).data) {
                        Ok(r) if pre(2).owner == VRF => r,
                        _ => return rej(&["C06"], "the oracle is not registered"),
                    };
                    if rec.open != 0 {
                        return rej(&["C08", "C06"], "the oracle has open queues");
                    }
                    must(rich(c, 0) && a[4].key == SYSTEM && distinct(a), &["C06", "C23"])
                }
                _ => rej(&["C05", "C20"], "unknown registry operation"),
            }
        }
        2 => {
            if body.len() != 8 {
                return rej(&["C20", "C26"], "wrong instruction length");
            }
            if a.len() != 5 {
                return rej(&["C20"], "wrong number of accounts");
            }
            let target = u32::from_le_bytes(body[..4].try_into().unwrap()) as usize;
            let index = body[4];
            if !a[0].signer {
                return rej(&["C20"], "payer did not sign");
            }
            if !a[1].signer {
                return rej(&["C07", "C20"], "the oracle did not sign");
            }
            if a[2].key != record_key(&a[1].key) || pre(2).owner != VRF {
                return rej(&["C07", "C20"], "not the oracle's record");
            }
            let Ok(rec) = parse_record(&pre(2).data) else { return rej(&["C07"], "unreadable record") };
            if a[3].key != queue_key(&a[1].key, index) || !a[3].writable {
                return rej(&["C07", "C20"], "not the oracle's queue account");
            }
            let q = pre(3);
            if q.owner != VRF && q.owner != SYSTEM {
                return rej(&["C07", "C21"], "the queue account belongs to another program");
            }
            if q.data.iter().any(|b| *b != 0) {
                return rej(&["C07", "C09", "C14"], "the queue is in use already");
            }
            if env.slot.saturating_sub(rec.reg_slot) < MATURITY {
                return rej(&["C07"], "the oracle is not mature");
            }
            let fin = target.saturating_sub(q.data.len()) <= 10_240;
            must(
                rich(c, 0) && a[4].key == SYSTEM && a[2].writable && distinct(&a[1..]) && !a[2..].iter().any(|x| x.key == a[0].key) && (!fin || target >= 24) && target <= 1_000_000 && rec.open < 300,
                &["C07", "C23"],
            )
        }
        3 | 8 => {
            let Some((r, exact)) = parse_request(body) else {
                return rej(&["C20", "C26"], "undecodable request");
            };
            if a.len() != 5 {
                return rej(&["C20"], "wrong number of accounts");
            }
            if !a[0].signer {
                return rej(&["C10", "C20"], "payer did not sign");
            }
            if a[1].key != identity_of(&r.program) || !a[1].signer {
                return rej(&["C10", "C20"], "the callback program's identity did not sign");
            }
            if a[4].key != SLOT_HASHES || pre(4).owner != SYSVAR_OWNER {
                return rej(&["C11", "C20"], "not the slot hashes sysvar");
            }
            if pre(2).owner != VRF || !a[2].writable {
                return rej(&["C10", "C20", "C15", "C21"], "the queue account is not this program's");
            }
            let q = match parse_queue(&pre(2).data) {
                Ok(q) => q,
                Err(_) => return rej(&["C10", "C20", "C07", "C06", "C15"], "the account is not an initialised queue"),
            };
            if r.disc.len() > MAX_DISC || r.metas.len() > MAX_METAS || r.args.len() > MAX_ARGS {
                return rej(&["C10"], "the request exceeds the size limits");
            }
            let need = ITEM + r.disc.len() + 33 * r.metas.len() + r.args.len();
            let held: usize = q.entries.iter().map(|e| e.size()).sum();
            if ITEMS_START + held + need > q.len {
                return rej(&["C10", "C17"], "the request does not fit");
            }
            let fits = q.used_end + need <= q.len;
            must(
                exact && fits && rich(c, 0) && a[3].key == SYSTEM && distinct(a) && c.depth <= 3,
                &["C10", "C17", "C23"],
            )
        }
        4 => {
            if body.len() != 160 {
                return rej(&["C20", "C26"], "wrong instruction length");
            }
            if a.len() < 5 {
                return rej(&["C20"], "wrong number of accounts");
            }
            if !a[0].signer {
                return rej(&["C13", "C20"], "the oracle did not sign");
            }
            if a[2].key != record_key(&a[0].key) || pre(2).owner != VRF {
                return rej(&["C13", "C20"], "not the signing oracle's record");
            }
            let Ok(rec) = parse_record(&pre(2).data) else { return rej(&["C13"], "unreadable record") };
            if pre(3).owner != VRF || !a[3].writable {
                return rej(&["C13", "C20", "C21"], "the queue account is not this program's");
            }
            let Ok(q) = parse_queue(&pre(3).data) else { return rej(&["C13", "C20"], "not an initialised queue") };
            if a[3].key != queue_key(&a[0].key, q.index) {
                return rej(&["C13", "C20"], "not a queue of the signing oracle");
            }
            let input: [u8; 32] = body[..32].try_into().unwrap();
            let Some(e) = q.entries.iter().find(|e| e.id == input) else {
                return rej(&["C13", "C14"], "no such request is pending");
            };
            if e.metas.iter().any(|m| m.0 == a[0].key) {
                return rej(&["C13", "C19"], "the request lists the oracle itself");
            }
            if env.slot <= e.slot {
                return rej(&["C13"], "same slot as the request");
            }
            let p = |i: usize| -> [u8; 32] { body[32 * i..32 * i + 32].try_into().unwrap() };
            if !refvrf::verify(&rec.vrf_pk, &input, &p(1), &p(2), &p(3), &p(4)) {
                return rej(&["C13", "C02", "C03"], "the proof is not valid for this request");
            }
            if a[1].key != VRF_IDENTITY {
                return rej(&["C12", "C19", "C20"], "not the VRF identity");
            }
            if a[4].key != e.program {
                return rej(&["C12", "C20"], "not the requested callback program");
            }
            let avail = e.metas.iter().all(|(k, w)| (*k == VRF_IDENTITY || a[5..].iter().any(|x| x.key == *k)) && (!*w || a.iter().any(|x| x.key == *k && x.writable)));
            let cbok = ![SYSTEM, DLP, MAGIC, VRF].contains(&e.program) && pre(4).executable;
            let fee_ok = a[3].key == DEFAULT_EPHEMERAL_QUEUE || a[0].writable;
            must(avail && cbok && fee_ok && distinct(&a[..5]) && (c.depth == 0 || c.depth == 1 && c.caller != Some(e.program)), &["C12", "C13", "C14", "C15", "C17", "C23"])
        }
        5 => {
            if body.len() != 1 {
                return rej(&["C20", "C26"], "wrong instruction length");
            }
            if a.len() != 8 {
                return rej(&["C20"], "wrong number of accounts");
            }
            if !a[0].signer {
                return rej(&["C22", "C20"], "the authority did not sign");
            }
            if a[1].key != queue_key(&a[0].key, body[0]) || !a[1].writable {
                return rej(&["C22", "C20"], "not a queue of the signing oracle");
            }
            if a[6].key != VRF {
                return rej(&["C22", "C21", "C20"], "wrong owner program");
            }
            if a[5].key != DLP {
                return rej(&["C22", "C21", "C20"], "not the delegation program");
            }
            if pre(1).owner != VRF && pre(1).owner != SYSTEM {
                return rej(&["C21", "C20"], "the queue belongs to another program");
            }
            let q = a[1].key;
            let fresh = |i: usize| pre(i).is_void();
            must(
                rich(c, 0)
                    && pre(1).owner == VRF
                    && parse_queue(&pre(1).data).is_ok()
                    && pre(1).data.len() <= 10_240
                    && a[2].key == delegate_buffer(&q)
                    && a[3].key == delegation_record(&q)
                    && a[4].key == delegation_metadata(&q)
                    && a[7].key == SYSTEM
                    && (2..5).all(|i| a[i].writable && fresh(i))
                    && distinct(a)
                    && c.depth <= 2,
                &["C21", "C22", "C23"],
            )
        }
        6 => {
            if body.len() != 1 {
                return rej(&["C20", "C26"], "wrong instruction length");
            }
            if a.len() != 4 {
                return rej(&["C20"], "wrong number of accounts");
            }
            if !a[0].signer {
                return rej(&["C22", "C20"], "the authority did not sign");
            }
            if a[1].key != queue_key(&a[0].key, body[0]) || !a[1].writable {
                return rej(&["C22", "C20"], "not a queue of the signing oracle");
            }
            if a[2].key != MAGIC_CTX || a[3].key != MAGIC {
                return rej(&["C22", "C20"], "wrong magic context or program");
            }
            must(a[0].writable && a[2].writable && c.depth <= 2 && pre(3).executable, &["C21", "C22", "C23"])
        }
        7 => {
            if body.len() != 1 {
                return rej(&["C20", "C26"], "wrong instruction length");
            }
            if a.len() != 3 {
                return rej(&["C20"], "wrong number of accounts");
            }
            if !a[0].signer {
                return rej(&["C09", "C20"], "the oracle did not sign");
            }
            if a[1].key != record_key(&a[0].key) || !a[1].writable || pre(1).owner != VRF || parse_record(&pre(1).data).is_err() {
                return rej(&["C09", "C20"], "not the oracle's record");
            }
            if a[2].key != queue_key(&a[0].key, body[0]) || !a[2].writable || pre(2).owner != VRF {
                return rej(&["C09", "C20", "C21"], "not the oracle's queue");
            }
            match parse_queue(&pre(2).data) {
                Ok(q) => {
                    if !q.entries.is_empty() {
                        return rej(&["C09", "C14"], "the queue has pending requests");
                    }
                    must(a[0].writable && distinct(a), &["C09", "C23"])
                }
                // a partly allocated account: closing it is allowed, not required
                Err(_) => must(false, &[]),
            }
        }
        9 => {
            if body.len() != 1 {
                return rej(&["C20", "C26"], "wrong instruction length");
            }
            if a.len() != 2 {
                return rej(&["C20"], "wrong number of accounts");
            }
            if a[1].key != queue_key(&a[0].key, body[0]) || !a[1].writable || pre(1).owner != VRF {
                return rej(&["C16", "C20", "C21"], "not a queue of the named oracle");
            }
            match parse_queue(&pre(1).data) {
                Ok(q) => {
                    let exp = q.entries.iter().filter(|e| env.slot.saturating_sub(e.slot) > TTL).count();
                    must(exp > 0 && a[0].writable, &["C16", "C23"])
                }
                Err(_) => must(false, &[]),
            }
        }
        196 => {
            if a.len() != 4 {
                return rej(&["C20"], "wrong number of accounts");
            }
            let Some(seeds) = parse_seeds(body) else { return rej(&["C20", "C26"], "undecodable seeds") };
            if !a[1].signer || pre(1).owner != DLP {
                return rej(&["C22", "C20"], "the buffer is not a signing account of the delegation program");
            }
            if a[1].key != undelegate_buffer(&a[0].key) {
                return rej(&["C22", "C20"], "not the delegation program's undelegation buffer for this account");
            }
            let s: Vec<&[u8]> = seeds.iter().map(|v| v.as_slice()).collect();
            if s.len() > 15 || s.iter().any(|x| x.len() > 32) || pda(&s, &VRF).0 != a[0].key {
                return rej(&["C22", "C20"], "the seeds are not this account's");
            }
            if pre(0).owner != SYSTEM || !pre(0).data.is_empty() {
                return rej(&["C22", "C21"], "the account exists");
            }
            must(
                rich(c, 2) && a[0].writable && a[3].key == SYSTEM && distinct(a) && pre(1).data.len() <= 10_240 && c.depth <= 3,
                &["C21", "C22"],
            )
        }
        _ => rej(&["C20", "C26"], "unknown instruction tag"),
    }
}

pub fn parse_seeds(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let n = u32::from_le_bytes(b.get(..4)?.try_into().unwrap()) as usize;
    if n > 64 {
        return None;
    }
    let mut v = vec![];
    let mut p = 4;
    for _ in 0..n {
        let l = u32::from_le_bytes(b.get(p..p + 4)?.try_into().unwrap()) as usize;
        p += 4;
        v.push(b.get(p..p.checked_add(l)?)?.to_vec());
        p += l;
    }
    if p == b.len() {
        Some(v)
    } else {
        None
    }
}

struct Fx<'a> {
    c: &'a Call,
    out: Vec<Bad>,
    name: &'static str,
}
impl<'a> Fx<'a> {
    fn chk(&mut self, ok: bool, props: Props, what: &str, detail: impl FnOnce() -> String) {
        if !ok {
            self.out.push(bad(props, &format!("{}: {what}", self.name), detail()));
        }
    }
    /// all accounts except those named are untouched
    fn rest_same(&mut self, except: &[Pubkey], props: Props) {
        for (k, p) in &self.c.pre {
            if except.contains(k) {
                continue;
            }
            let q = &self.c.post[k];
            if p != q {
                self.out.push(bad(props, &format!("{}: changed an account it must not change", self.name), format!("{k}: {} -> {}", brief(p), brief(q))));
            }
        }
    }
    /// a wallet: only its balance may change
    fn wallet(&mut self, k: &Pubkey) {
        let (p, q) = (&self.c.pre[k], &self.c.post[k]);
        if p.owner != q.owner || p.data != q.data {
            self.out.push(bad(&["C20"], &format!("{}: payer account modified", self.name), format!("{k}: {} -> {}", brief(p), brief(q))));
        }
    }
    /// newly created or resized account holds exactly the rent it needs
    fn rent_exact(&mut self, k: &Pubkey, props: Props) {
        let (p, q) = (&self.c.pre[k], &self.c.post[k]);
        let r = rent_min(q.data.len());
        if q.lamports < r {
            self.out.push(bad(props, &format!("{}: account not rent-exempt", self.name), format!("{k} holds {} lamports, {} bytes", q.lamports, q.data.len())));
        }
        if q.lamports > r.max(p.lamports) {
            self.out.push(bad(&["C15"], &format!("{}: more lamports collected than rent", self.name), format!("{k} holds {} lamports, needs {r}", q.lamports)));
        }
    }
}

pub fn brief(a: &Acct) -> String {
    format!("[{} lamports, {} bytes {}, owner {}]", a.lamports, a.data.len(), hex(&a.data[..a.data.len().min(24)]), short(&a.owner))
}

/// Compare what a successful invocation did with the specification. Only
/// called when `judge` accepted it.
pub fn effects(ci: usize, calls: &[Call], env: &Env) -> (Vec<Bad>, Option<Effect>) {
    let c = &calls[ci];
    let d = &c.data;
    let a = &c.accts;
    let mut f = Fx { c, out: vec![], name: tag_name(d) };
    let pre = |i: usize| -> &Acct { &c.pre[&a[i].key] };
    let post = |i: usize| -> &Acct { &c.post[&a[i].key] };
    let body = &d[8..];
    let kids: Vec<&Call> = c.children.iter().map(|i| &calls[*i]).collect();
    let eff = match d[0] {
        0 => {
            f.chk(post(1).owner == VRF && parse_oracles(&post(1).data) == Ok(vec![]), &["C06", "C26"], "oracle list is not empty", || brief(post(1)));
            f.rent_exact(&a[1].key, &["C06"]);
            f.wallet(&a[0].key);
            f.rest_same(&[a[0].key, a[1].key], &["C20"]);
            Effect::Init
        }
        1 => {
            let id = Pubkey::new_from_array(body[..32].try_into().unwrap());
            let pk: [u8; 32] = body[32..64].try_into().unwrap();
            let mut list = parse_oracles(&pre(1).data).unwrap();
            let e = if body[64] == 0 {
                list.push(id);
                let want = build_record(&Record { vrf_pk: pk, reg_slot: env.slot, open: 0 });
                f.chk(post(2).owner == VRF && post(2).data == want, &["C06", "C26"], "record does not hold the registered key and slot", || brief(post(2)));
                f.rent_exact(&a[2].key, &["C06"]);
                Effect::Add { id, pk }
            } else {
                list.retain(|k| *k != id);
                f.chk(post(2).is_void(), &["C06"], "record not removed", || brief(post(2)));
                Effect::Remove { id }
            };
            let got = parse_oracles(&post(1).data);
            f.chk(got.as_ref() == Ok(&list) && post(1).owner == VRF, &["C06", "C26"], "oracle list is wrong afterwards", || format!("{got:?} instead of {list:?}"));
            f.rent_exact(&a[1].key, &["C06"]);
            f.wallet(&a[0].key);
            f.rest_same(&[a[0].key, a[1].key, a[2].key], &["C20", "C05"]);
            e
        }
        2 => {
            let target = u32::from_le_bytes(body[..4].try_into().unwrap()) as usize;
            let index = body[4];
            let (q, p) = (post(3), pre(3));
            f.chk(q.owner == VRF, &["C07"], "queue not owned by the program", || brief(q));
            f.rent_exact(&a[3].key, &["C07"]);
            f.wallet(&a[0].key);
            let (r0, r1) = (parse_record(&pre(2).data), parse_record(&post(2).data));
            let e = if q.data.iter().all(|b| *b == 0) {
                f.chk(target.saturating_sub(p.data.len()) > 10_240, &["C07"], "not initialised although it fits in one step", || brief(q));
                f.chk(q.data.len() > p.data.len() && q.data.len() <= target, &["C07"], "allocation step makes no progress", || format!("{} -> {} (target {target})", p.data.len(), q.data.len()));
                f.chk(r0 == r1, &["C08"], "open-queue count changed by an allocation step", || format!("{r0:?} -> {r1:?}"));
                Effect::Alloc { oracle: a[1].key, index, queue: a[3].key, len: q.data.len() }
            } else {
                f.chk(q.data.len() == target, &["C07"], "queue does not have the requested size", || format!("{} instead of {target}", q.data.len()));
                match parse_queue(&q.data) {
                    Ok(v) => {
                        f.chk(v.entries.is_empty() && v.count == 0, &["C07", "C09"], "new queue is not empty", || format!("{v:?}"));
                        f.chk(v.index == index, &["C07"], "new queue has the wrong index", || format!("{} instead of {index}", v.index));
                        f.chk(v.cursor == ITEMS_START as u32 || v.cursor == 0, &["C07", "C17"], "new queue does not start empty", || format!("cursor {}", v.cursor));
                    }
                    Err(e) => f.chk(target < 24, &["C07", "C26"], "new queue is not well-formed", || e),
                }
                let want = r0.clone().map(|r| Record { open: r.open + 1, ..r });
                f.chk(r1 == want, &["C08"], "open-queue count not increased by one", || format!("{r0:?} -> {r1:?}"));
                Effect::Open { oracle: a[1].key, index, queue: a[3].key, len: q.data.len() }
            };
            f.chk(post(2).lamports == pre(2).lamports && post(2).owner == VRF, &["C06"], "record account disturbed", || brief(post(2)));
            f.rest_same(&[a[0].key, a[2].key, a[3].key], &["C20"]);
            e
        }
        3 | 8 => {
            let (r, _) = parse_request(body).unwrap();
            let prio = (d[0] == 3) as u8;
            let cost = if a[2].key == DEFAULT_EPHEMERAL_QUEUE { 0 } else { price(prio) };
            let q0 = parse_queue(&pre(2).data).unwrap();
            let mut entry = None;
            match parse_queue(&post(2).data) {
                Err(e) => f.chk(false, &["C10", "C17", "C14", "C26"], "queue is malformed afterwards", || e),
                Ok(q1) => {
                    let n = q0.entries.len();
                    if q1.entries.len() != n + 1 {
                        f.chk(false, &["C10", "C17", "C14"], "not exactly one entry appended", || format!("{} -> {} entries", n, q1.entries.len()));
                    } else {
                        f.chk(q1.entries[..n] == q0.entries[..], &["C10", "C14", "C17"], "earlier entries changed", || String::new());
                        let e = &q1.entries[n];
                        f.chk(e.slot == env.slot, &["C10", "C13", "C16"], "wrong slot recorded", || format!("{} instead of {}", e.slot, env.slot));
                        f.chk(e.program == r.program, &["C10", "C12"], "wrong callback program recorded", || format!("{}", e.program));
                        f.chk(e.disc == r.disc, &["C10", "C12", "C17"], "wrong discriminator recorded", || format!("{:?} instead of {:?}", e.disc, r.disc));
                        f.chk(e.args == r.args, &["C10", "C12", "C17"], "wrong arguments recorded", || format!("{:?} instead of {:?}", e.args, r.args));
                        let want: Vec<(Pubkey, bool)> = r.metas.iter().map(|m| (m.0, m.2)).collect();
                        f.chk(e.metas == want, &["C10", "C12", "C17", "C19"], "wrong callback accounts recorded", || format!("{:?} instead of {want:?}", e.metas));
                        f.chk(!q1.odd, &["C10", "C26"], "writable flag is neither 0 nor 1", || String::new());
                        f.chk(e.prio == prio, &["C10", "C15"], "wrong priority recorded", || format!("{} instead of {prio}", e.prio));
                        f.chk(!q0.entries.iter().any(|x| x.id == e.id), &["C11"], "request id equals a pending request's id", || hex(&e.id));
                        entry = Some(e.clone());
                    }
                    f.chk(q1.index == q0.index && post(2).data.len() == pre(2).data.len(), &["C10", "C17"], "queue header or size changed", || String::new());
                }
            }
            let dq = post(2).lamports as i128 - pre(2).lamports as i128;
            let ds = pre(0).lamports as i128 - post(0).lamports as i128;
            f.chk(dq == cost as i128 && ds == cost as i128, &["C15"], "wrong price moved", || format!("payer -{ds}, queue +{dq}, price {cost}"));
            f.chk(post(2).owner == VRF, &["C10"], "queue owner changed", || brief(post(2)));
            f.wallet(&a[0].key);
            f.rest_same(&[a[0].key, a[2].key], &["C20", "C10"]);
            match entry {
                Some(entry) => Effect::Request { queue: a[2].key, entry },
                None => return (f.out, None),
            }
        }
        4 => {
            let id: [u8; 32] = body[..32].try_into().unwrap();
            let q0 = parse_queue(&pre(3).data).unwrap();
            let pos = q0.entries.iter().position(|e| e.id == id).unwrap();
            let e = q0.entries[pos].clone();
            let fee = if a[3].key == DEFAULT_EPHEMERAL_QUEUE { 0 } else { price(e.prio) };
            // the callback
            f.chk(kids.len() == 1, &["C12", "C14"], "callback not invoked exactly once", || format!("{} nested calls", kids.len()));
            if let Some(k) = kids.first() {
                use sha2::Digest;
                let mut want = e.disc.clone();
                want.extend_from_slice(&sha2::Sha256::digest(&body[32..64]));
                want.extend_from_slice(&e.args);
                f.chk(k.program == e.program, &["C12"], "called another program", || format!("{}", k.program));
                f.chk(k.data == want, &["C12"], "callback data differs from the request", || format!("{} instead of {}", hex(&k.data), hex(&want)));
                let mut wa = vec![(VRF_IDENTITY, true, false)];
                wa.extend(e.metas.iter().map(|(k, w)| (*k, *k == VRF_IDENTITY, *w)));
                // privileges of repeated accounts are merged by the runtime
                let merged: Vec<(Pubkey, bool, bool)> = wa
                    .iter()
                    .map(|(k, s, _)| (*k, *s, wa.iter().any(|(k2, _, w2)| k2 == k && *w2)))
                    .collect();
                let got: Vec<(Pubkey, bool, bool)> = k.accts.iter().map(|x| (x.key, x.signer, x.writable)).collect();
                f.chk(got == merged, &["C12", "C19"], "callback accounts differ from the request", || format!("{got:?} instead of {merged:?}"));
                for x in &k.accts {
                    f.chk(!x.signer || x.key == VRF_IDENTITY, &["C19", "C12"], "callback received a foreign signer", || format!("{}", x.key));
                    f.chk(x.key != a[0].key, &["C19", "C13"], "callback received the oracle account", || format!("{}", x.key));
                }
            }
            match parse_queue(&post(3).data) {
                Err(m) => f.chk(false, &["C14", "C17", "C26"], "queue is malformed afterwards", || m),
                Ok(q1) => {
                    let mut want = q0.entries.clone();
                    want.remove(pos);
                    f.chk(q1.entries == want, &["C14", "C17"], "not exactly the fulfilled request was removed", || format!("{} -> {} entries", q0.entries.len(), q1.entries.len()));
                    f.chk(q1.index == q0.index && post(3).data.len() == pre(3).data.len(), &["C14", "C17"], "queue header or size changed", || String::new());
                    if want.is_empty() {
                        // space check is on the next append; nothing to see here
                    }
                }
            }
            f.chk(post(3).owner == VRF, &["C14"], "queue owner changed", || brief(post(3)));
            // lamports and data outside the callback
            for x in c.pre.keys() {
                let (p, q) = (&c.pre[x], &c.post[x]);
                let cb = kids.first().and_then(|k| Some((k.pre.get(x)?, k.post.get(x)?)));
                let dcb = cb.map_or(0, |(p, q)| q.lamports as i128 - p.lamports as i128);
                let d = q.lamports as i128 - p.lamports as i128;
                let want = dcb + if *x == a[3].key { -(fee as i128) } else { 0 } + if *x == a[0].key { fee as i128 } else { 0 };
                f.chk(d == want, &["C15", "C19"], "wrong fee moved", || format!("{x}: {d} instead of {want}"));
                if *x != a[3].key {
                    let ok = match cb {
                        Some((cp, cq)) => p.data == cp.data && p.owner == cp.owner && q.data == cq.data && q.owner == cq.owner,
                        None => p.data == q.data && p.owner == q.owner,
                    };
                    f.chk(ok, &["C20", "C19"], "changed an account it must not change", || format!("{x}"));
                }
            }
            Effect::Provide { queue: a[3].key, oracle: a[0].key, id, fee }
        }
        5 => {
            let q = a[1].key;
            let dl = kids.iter().find(|k| k.program == DLP && k.data.first() == Some(&0));
            match dl {
                None => f.chk(false, &["C21"], "the delegation program was not called", || String::new()),
                Some(k) => {
                    f.chk(k.accts.len() == 7 && k.accts[1].key == q && k.accts[0].key == a[0].key && k.accts[1].signer, &["C21", "C22"], "wrong accounts handed to the delegation program", || format!("{:?}", k.accts));
                    let buf = k.accts.get(3).map(|x| x.key).unwrap_or_default();
                    f.chk(k.pre.get(&buf).is_some_and(|b| b.data == pre(1).data), &["C21"], "queue content not handed over", || String::new());
                    let want_seeds = vec![b"queue".to_vec(), a[0].key.to_bytes().to_vec(), vec![body[0]]];
                    let ok = k.data.len() > 12 && parse_delegate_args(&k.data[8..]).is_some_and(|s| s == want_seeds);
                    f.chk(ok, &["C21"], "wrong seeds handed to the delegation program", || hex(&k.data));
                }
            }
            f.chk(post(1).owner == DLP, &["C21"], "queue not owned by the delegation program", || brief(post(1)));
            f.chk(post(1).lamports >= pre(1).lamports, &["C21", "C15"], "lamports taken out of the queue", || format!("{} -> {}", pre(1).lamports, post(1).lamports));
            f.chk(post(1).data == pre(1).data, &["C21"], "queue content changed by the delegation", || format!("{} -> {}", brief(pre(1)), brief(post(1))));
            f.wallet(&a[0].key);
            f.chk(post(2).lamports == 0, &["C21"], "delegation buffer left behind", || brief(post(2)));
            f.rest_same(&[a[0].key, a[1].key, a[2].key, a[3].key, a[4].key], &["C20"]);
            Effect::Delegate { oracle: a[0].key, index: body[0], queue: q }
        }
        6 => {
            let k = kids.iter().find(|k| k.program == MAGIC);
            match k {
                None => f.chk(false, &["C21", "C22"], "undelegation not requested", || String::new()),
                Some(k) => {
                    f.chk(k.data == [2, 0, 0, 0], &["C21"], "not a commit-and-undelegate request", || hex(&k.data));
                    let got: Vec<Pubkey> = k.accts.iter().map(|x| x.key).collect();
                    f.chk(got == vec![a[0].key, MAGIC_CTX, a[1].key], &["C21", "C22"], "wrong accounts in the undelegation request", || format!("{got:?}"));
                }
            }
            f.chk(kids.len() == 1, &["C21"], "unexpected nested calls", || format!("{}", kids.len()));
            f.rest_same(&[MAGIC_CTX], &["C20"]);
            Effect::Undelegate { queue: a[1].key }
        }
        7 => {
            let usable = parse_queue(&pre(2).data).is_ok();
            f.chk(post(2).is_void(), &["C09"], "closed queue is not an ordinary empty account", || brief(post(2)));
            let got = post(0).lamports as i128 - pre(0).lamports as i128;
            f.chk(got == pre(2).lamports as i128, &["C09", "C15"], "not all lamports went to the oracle", || format!("{got} of {}", pre(2).lamports));
            let (r0, r1) = (parse_record(&pre(1).data).unwrap(), parse_record(&post(1).data));
            let want = Record { open: if usable { r0.open.wrapping_sub(1) } else { r0.open }, ..r0.clone() };
            f.chk(r1.as_ref() == Ok(&want), &["C08"], "open-queue count wrong after closing", || format!("{r0:?} -> {r1:?}"));
            f.chk(post(1).lamports == pre(1).lamports, &["C06"], "record balance changed", || String::new());
            f.wallet(&a[0].key);
            f.rest_same(&[a[0].key, a[1].key, a[2].key], &["C20"]);
            Effect::Close { oracle: a[0].key, index: body[0], queue: a[2].key, usable }
        }
        9 => {
            let Ok(q0) = parse_queue(&pre(1).data) else {
                // nothing to purge in an account that is not a usable queue
                f.rest_same(&[], &["C16", "C07", "C20"]);
                return (f.out, None);
            };
            let (gone, keep): (Vec<Entry>, Vec<Entry>) = q0.entries.iter().cloned().partition(|e| env.slot.saturating_sub(e.slot) > TTL);
            let fee: u64 = if a[1].key == DEFAULT_EPHEMERAL_QUEUE { 0 } else { gone.iter().map(|e| price(e.prio)).sum() };
            match parse_queue(&post(1).data) {
                Err(m) => f.chk(false, &["C16", "C17", "C14", "C26"], "queue is malformed afterwards", || m),
                Ok(q1) => {
                    f.chk(q1.entries == keep, &["C16", "C14", "C17"], "not exactly the expired requests were removed", || {
                        format!("{} entries, {} expired, {} left", q0.entries.len(), gone.len(), q1.entries.len())
                    });
                    f.chk(q1.index == q0.index && post(1).data.len() == pre(1).data.len(), &["C16", "C17"], "queue header or size changed", || String::new());
                }
            }
            if gone.is_empty() {
                f.chk(pre(1) == post(1), &["C16"], "purge changed a queue without expired requests", || String::new());
            }
            let (dq, do_) = (pre(1).lamports as i128 - post(1).lamports as i128, post(0).lamports as i128 - pre(0).lamports as i128);
            f.chk(dq == fee as i128 && do_ == fee as i128, &["C15", "C16"], "wrong amount paid for the purge", || format!("queue -{dq}, oracle +{do_}, expected {fee}"));
            f.wallet(&a[0].key);
            f.chk(post(1).owner == VRF, &["C16"], "queue owner changed", || String::new());
            f.rest_same(&[a[0].key, a[1].key], &["C20"]);
            Effect::Purge { queue: a[1].key, oracle: a[0].key, ids: gone.iter().map(|e| e.id).collect(), fee }
        }
        196 => {
            f.chk(post(0).owner == VRF && post(0).data == pre(1).data, &["C21", "C22"], "restored account differs from the buffer", || brief(post(0)));
            f.rent_exact(&a[0].key, &["C21"]);
            f.wallet(&a[2].key);
            f.rest_same(&[a[0].key, a[2].key], &["C20", "C22"]);
            Effect::Restore { account: a[0].key }
        }
        _ => return (f.out, None),
    };
    (f.out, Some(eff))
}

/// seeds of a DelegateArgs { commit_frequency_ms: u32, seeds: Vec<Vec<u8>>, validator: Option<Pubkey> }
pub fn parse_delegate_args(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let b = b.get(4..)?;
    // find the end of the seeds vector
    let n = u32::from_le_bytes(b.get(..4)?.try_into().unwrap()) as usize;
    let mut p = 4;
    let mut v = vec![];
    for _ in 0..n.min(16) {
        let l = u32::from_le_bytes(b.get(p..p + 4)?.try_into().unwrap()) as usize;
        p += 4;
        v.push(b.get(p..p.checked_add(l)?)?.to_vec());
        p += l;
    }
    match b.get(p) {
        Some(0) if b.len() == p + 1 => Some(v),
        Some(1) if b.len() == p + 33 => Some(v),
        _ => None,
    }
}
