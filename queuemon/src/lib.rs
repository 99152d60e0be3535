//! Monitors for the zero-copy queue and the typed account views, driven
//! directly through their public functions. Built three times: natively (inside
//! the main harness), under AddressSanitizer, and under Miri.
use ephemeral_vrf_api::prelude::{AccountDiscriminator, CompactAccountMeta, Queue, QueueAccount, QueueItem};
use std::collections::BTreeMap;

pub mod codec;

pub type Cnt = BTreeMap<String, u64>;
pub fn inc(c: &mut Cnt, k: &str) {
    *c.entry(k.into()).or_default() += 1;
}

#[derive(Clone)]
pub struct R(u64);
impl R {
    pub fn new(s: u64) -> R {
        let mut r = R(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def0);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
}

/// A problem: which property it breaks, a stable kind, and the details.
pub struct Problem {
    pub prop: &'static str,
    pub kind: String,
    pub msg: String,
}
pub(crate) fn prob(prop: &'static str, kind: &str, msg: String) -> Problem {
    Problem { prop, kind: kind.into(), msg }
}

/// Account bytes the way the runtime hands them over: eight-byte aligned, the
/// eight tag bytes first, and (natively) nothing after the last byte.
pub struct Buf {
    mem: Vec<u64>,
    pub len: usize,
    canary: usize,
}
const FILL: u64 = 0xc5c5_c5c5_c5c5_c5c5;
impl Buf {
    /// `len` counts the bytes after the tag.
    pub fn new(len: usize, canary: bool) -> Buf {
        let words = (len + 7) / 8 + 1;
        let pad = if canary { 64 } else { 0 };
        let mut b = Buf { mem: vec![FILL; words + pad], len, canary: pad };
        b.all()[..8 + len].fill(0);
        b
    }
    fn all(&mut self) -> &mut [u8] {
        let n = self.mem.len() * 8;
        // SAFETY: plain bytes of an owned vector
        unsafe { std::slice::from_raw_parts_mut(self.mem.as_mut_ptr() as *mut u8, n) }
    }
    pub fn account(&mut self) -> &mut [u8] {
        let l = 8 + self.len;
        &mut self.all()[..l]
    }
    pub fn body(&mut self) -> &mut [u8] {
        let l = 8 + self.len;
        &mut self.all()[8..l]
    }
    pub fn intact(&mut self) -> bool {
        let (l, c) = (8 + self.len, self.canary);
        self.all()[l..].iter().all(|b| *b == 0xc5) || c == 0
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Entry {
    pub slot: u64,
    pub id: [u8; 32],
    pub prog: [u8; 32],
    pub prio: u8,
    pub disc: Vec<u8>,
    pub metas: Vec<([u8; 32], u8)>,
    pub args: Vec<u8>,
    /// where the monitor expects it to start
    at: usize,
}
const HEAD: usize = 16;
const ITEM: usize = 96;
fn up8(x: usize) -> usize {
    (x + 7) & !7
}
impl Entry {
    fn size(&self) -> usize {
        ITEM + self.disc.len() + 33 * self.metas.len() + self.args.len()
    }
    fn end(&self) -> usize {
        up8(self.at + self.size())
    }
    pub(crate) fn item(&self) -> QueueItem {
        QueueItem { slot: self.slot, id: self.id, callback_program_id: self.prog, priority_request: self.prio, ..Default::default() }
    }
    pub(crate) fn cmetas(&self) -> Vec<CompactAccountMeta> {
        self.metas.iter().map(|m| CompactAccountMeta { pubkey: m.0, is_writable: m.1 }).collect()
    }
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
    })
}

pub fn gen_entry(r: &mut R, uid: u64, few_ids: bool) -> Entry {
    let mut id = [0u8; 32];
    id[..8].copy_from_slice(&uid.to_le_bytes());
    id[31] = 1;
    if few_ids && r.one_in(6) {
        // near-identical ids
        id = [0; 32];
        id[r.below(32)] = 1 + r.below(3) as u8;
    }
    let nm = match r.below(8) {
        0 => 0,
        1 => 20,
        2 => 19,
        _ => r.below(5),
    };
    let na = match r.below(10) {
        0 => 0,
        1 => 512,
        2 => 511,
        3 => r.below(513),
        _ => r.below(40),
    };
    let nd = if r.one_in(3) { r.below(9) } else { 8 };
    Entry {
        slot: match r.below(6) {
            0 => 0,
            1 => u64::MAX,
            _ => r.u64() >> r.below(60),
        },
        id,
        prog: if r.one_in(4) { [r.below(3) as u8; 32] } else { r.bytes(32).try_into().unwrap() },
        prio: r.below(2) as u8,
        disc: r.bytes(nd),
        metas: (0..nm).map(|_| (if r.one_in(3) { [r.below(2) as u8; 32] } else { r.bytes(32).try_into().unwrap() }, r.below(2) as u8)).collect(),
        args: if r.one_in(3) { vec![[0, 1, 0xff][r.below(3)]; na] } else { r.bytes(na) },
        at: 0,
    }
}

/// Full comparison of the account with the model list.
fn compare(acc: &mut [u8], model: &[Entry], why: &str, out: &mut Vec<Problem>) {
    let n = acc.len();
    let mut q = match QueueAccount::load(acc) {
        Ok(q) => q,
        Err(e) => {
            out.push(prob("C17", "queue can no longer be loaded", format!("{why}: {e:?}")));
            return;
        }
    };
    let q = &mut q;
    if q.len() != model.len() || q.is_empty() != model.is_empty() || q.header().len() != model.len() || q.header().is_empty() != model.is_empty() {
        out.push(prob("C17", "wrong length", format!("{why}: {} instead of {}", q.len(), model.len())));
    }
    let items: Vec<QueueItem> = q.iter_items().take(n + 1).collect();
    if items.len() != model.len() {
        out.push(prob("C17", "listing has the wrong entries", format!("{why}: {} instead of {}", items.len(), model.len())));
        return;
    }
    let same = |it: &QueueItem, e: &Entry, acc: &[u8]| {
        it.slot == e.slot
            && it.id == e.id
            && it.callback_program_id == e.prog
            && it.priority_request == e.prio
            && it.callback_discriminator(acc) == &e.disc[..]
            && it.callback_args(acc) == &e.args[..]
            && it.account_metas(acc).iter().map(|m| (m.pubkey, m.is_writable)).eq(e.metas.iter().cloned())
            && it.account_metas(acc).iter().map(|m| m.to_account_meta()).all(|m| !m.is_signer)
            && it.account_metas(acc).iter().map(|m| m.to_account_meta()).map(|m| (m.pubkey.to_bytes(), m.is_writable as u8)).eq(e.metas.iter().cloned())
    };
    for (i, (it, e)) in items.iter().zip(model).enumerate() {
        if !same(it, e, q.acc) {
            out.push(prob("C17", "an entry was altered or misplaced", format!("{why}: position {i}")));
            return;
        }
        match q.get_item_by_index(i) {
            Some(x) if same(&x, e, q.acc) => {}
            _ => {
                out.push(prob("C17", "look-up by position is wrong", format!("{why}: position {i}")));
                return;
            }
        }
        let first = model.iter().position(|m| m.id == e.id).unwrap();
        match q.find_item_by_id(&e.id) {
            Some((k, x)) if k == first && same(&x, &model[first], q.acc) => {}
            o => {
                out.push(prob("C17", "look-up by id is wrong", format!("{why}: position {i}, got {:?}", o.map(|x| x.0))));
                return;
            }
        }
    }
    for k in [model.len(), model.len() + 1, usize::MAX] {
        if q.get_item_by_index(k).is_some() {
            out.push(prob("C17", "look-up by position invents an entry", why.into()));
        }
    }
    for id in [[0u8; 32], [0x77; 32]] {
        if model.iter().all(|m| m.id != id) && q.find_item_by_id(&id).is_some() {
            out.push(prob("C17", "look-up by id invents an entry", why.into()));
        }
    }
}

/// Random histories against a plain list.
pub fn list(seed: u64, histories: u64, ops: usize, canary: bool, cnt: &mut Cnt) -> Vec<Problem> {
    let mut out = vec![];
    for h in 0..histories {
        let mut r = R::new(seed ^ h.wrapping_mul(0xA24B_AED4_963E_E407));
        // small accounts fill up quickly; sizes straddle exact fits
        let len = match r.below(6) {
            0 => HEAD + r.below(40),
            1 => HEAD + ITEM + r.below(20),
            2 => HEAD + r.below(600),
            3 => HEAD + r.below(4000),
            4 => HEAD + 8 * r.below(400),
            _ => HEAD + 2000 + r.below(6000),
        };
        let len = if cfg!(miri) { HEAD + (len - HEAD) % 900 } else { len };
        let mut b = Buf::new(len, canary);
        b.account()[..8].copy_from_slice(&3u64.to_le_bytes());
        let mut model: Vec<Entry> = vec![];
        let mut uid = 0;
        let mut log: Vec<String> = vec![];
        let mut ever_full = false;
        for _ in 0..ops {
            let hi = if ever_full && r.one_in(2) { 10 } else { 7 };
            let op = r.below(hi);
            let mut problems = vec![];
            let res = guarded(|| match op {
                0..=4 => {
                    uid += 1;
                    let mut e = gen_entry(&mut r, uid, true);
                    if r.one_in(30) {
                        let k = 21 + r.below(5);
                        e.metas = (0..k).map(|i| ([i as u8; 32], 0)).collect();
                    }
                    if r.one_in(30) {
                        e.args = vec![7; 513 + r.below(100)];
                    }
                    e.at = model.last().map(|e| e.end()).unwrap_or(HEAD);
                    if r.one_in(4) && e.at + ITEM + e.disc.len() <= len {
                        // aim at the exact end of the account
                        let room = len - (e.at + ITEM + e.disc.len());
                        let over = r.below(3);
                        e.metas.truncate(room / 33);
                        let left = room - 33 * e.metas.len();
                        if left <= 500 {
                            e.args = r.bytes((left + over).saturating_sub(1));
                        }
                    }
                    let legal = e.metas.len() <= 20 && e.args.len() <= 512;
                    let fits = e.at + e.size() <= len;
                    let mut q = QueueAccount::load(b.body()).map_err(|e| format!("{e:?}"))?;
                    let got = q.add_item(&e.item(), &e.disc, &e.cmetas(), &e.args);
                    log.push(format!("add {} bytes at {} of {len}: {:?}", e.size(), e.at, got.as_ref().map_err(|e| format!("{e:?}"))));
                    match got {
                        Ok(i) => {
                            if !legal {
                                problems.push(prob("C17", "an oversized entry was accepted", format!("{} metas {} args", e.metas.len(), e.args.len())));
                            }
                            if i != model.len() {
                                problems.push(prob("C17", "append reports the wrong position", format!("{i} for {}", model.len())));
                            }
                            model.push(e);
                            inc(cnt, if fits { "appends accepted" } else { "appends accepted beyond the expected capacity" });
                        }
                        Err(_) => {
                            if legal && fits {
                                problems.push(prob("C17", "an entry that fits was refused", format!("{} bytes at {} of {len}, {} entries", e.size(), e.at, model.len())));
                            }
                            ever_full |= legal;
                            inc(cnt, if legal { "appends refused: full" } else { "appends refused: too large" });
                        }
                    }
                    Ok::<(), String>(())
                }
                _ => {
                    let mut q = QueueAccount::load(b.body()).map_err(|e| format!("{e:?}"))?;
                    let i = match r.below(6) {
                        0 => model.len() + r.below(3),
                        1 | 2 => model.len().saturating_sub(1),
                        3 => 0,
                        _ => r.below(model.len()),
                    };
                    let got = q.remove_item(i);
                    log.push(format!("remove {i} of {}: {}", model.len(), got.is_ok()));
                    match got {
                        Ok(it) => {
                            if i >= model.len() {
                                problems.push(prob("C17", "removal beyond the end succeeded", format!("{i} of {}", model.len())));
                            } else {
                                let e = model.remove(i);
                                if it.id != e.id || it.slot != e.slot || it.callback_program_id != e.prog || it.priority_request != e.prio {
                                    problems.push(prob("C17", "removal returns another entry", format!("{i}")));
                                }
                            }
                            inc(cnt, if model.is_empty() { "removals emptying the queue" } else { "removals" });
                        }
                        Err(_) => {
                            if i < model.len() {
                                problems.push(prob("C17", "a pending entry cannot be removed", format!("{i} of {}", model.len())));
                            }
                            inc(cnt, "removals refused");
                        }
                    }
                    Ok(())
                }
            });
            match res {
                Err(p) => problems.push(prob("C17", "queue operation aborts", p)),
                Ok(Err(e)) => problems.push(prob("C17", "queue can no longer be loaded", e)),
                Ok(Ok(())) => {}
            }
            let m = model.clone();
            if let Err(p) = guarded(|| compare(b.body(), &m, "after the last step", &mut problems)) {
                problems.push(prob("C17", "queue operation aborts", p));
            }
            if !b.intact() {
                problems.push(prob("C33", "bytes after the account were written", String::new()));
            }
            inc(cnt, "list comparisons");
            if !problems.is_empty() {
                for mut p in problems {
                    p.msg = format!("{} | history {h}: {}", p.msg, log.iter().rev().take(12).rev().cloned().collect::<Vec<_>>().join("; "));
                    out.push(p);
                }
                break;
            }
        }
        inc(cnt, "list histories");
        if out.len() > 8 {
            break;
        }
    }
    out
}

fn put32(b: &mut [u8], at: usize, v: u32) {
    if at + 4 <= b.len() {
        b[at..at + 4].copy_from_slice(&v.to_le_bytes());
    }
}
fn put16(b: &mut [u8], at: usize, v: u16) {
    if at + 2 <= b.len() {
        b[at..at + 2].copy_from_slice(&v.to_le_bytes());
    }
}
fn wild32(r: &mut R, len: usize) -> u32 {
    match r.below(10) {
        0 => 0,
        1 => u32::MAX,
        2 => u32::MAX - r.below(200) as u32,
        3 => len as u32,
        4 => (len as u32).wrapping_add(r.below(9) as u32).wrapping_sub(4),
        5 => 1 << r.below(32),
        6 => r.below(64) as u32,
        _ => r.below(len + 64) as u32,
    }
}
fn wild16(r: &mut R) -> u16 {
    match r.below(6) {
        0 => 0,
        1 => u16::MAX,
        2 => 1 << r.below(16),
        _ => r.below(700) as u16,
    }
}

/// Everything a reader can do with a queue account; returns how much it saw.
pub fn read_all(acc: &mut [u8], r: &mut R, mutate: bool) -> Result<(usize, u64), String> {
    let n = acc.len();
    let mut q = match QueueAccount::load(acc) {
        Ok(q) => q,
        Err(_) => return Ok((0, 0)),
    };
    let mut sum = 0u64;
    let mut touch = |b: &[u8]| {
        if b.len() > n {
            return Err(format!("a slice of {} bytes from an account of {n}", b.len()));
        }
        for x in b {
            sum = sum.wrapping_mul(31).wrapping_add(*x as u64);
        }
        Ok(())
    };
    let _ = (q.len(), q.is_empty());
    let items: Vec<QueueItem> = q.iter_items().take(n / 8 + 2).collect();
    if items.len() > n / 8 + 1 {
        return Err("more entries than the account can hold".into());
    }
    for it in &items {
        let base = q.acc.as_ptr() as usize;
        let (d, m, a) = (it.callback_discriminator(q.acc), it.account_metas(q.acc), it.callback_args(q.acc));
        for (p, l) in [(d.as_ptr() as usize, d.len()), (m.as_ptr() as usize, std::mem::size_of_val(m)), (a.as_ptr() as usize, a.len())] {
            if l > 0 && (p < base || p + l > base + n) {
                return Err("an entry's data lies outside the account".into());
            }
        }
        touch(d)?;
        touch(a)?;
        for x in m.iter().take(n) {
            touch(&x.pubkey)?;
            touch(&[x.is_writable])?;
            let _ = x.to_account_meta();
        }
        let _ = q.find_item_by_id(&it.id);
    }
    for i in 0..items.len().min(12) + 2 {
        let _ = q.get_item_by_index(i);
    }
    let _ = q.get_item_by_index(usize::MAX);
    let _ = q.find_item_by_id(&[0; 32]);
    if mutate {
        for _ in 0..6 {
            match r.below(3) {
                0 => {
                    let e = gen_entry(r, 77, false);
                    let _ = q.add_item(&e.item(), &e.disc, &e.cmetas(), &e.args);
                }
                1 => {
                    let _ = q.remove_item(r.below(4));
                }
                _ => {
                    let _ = q.remove_item(q.len().saturating_sub(1));
                }
            }
            let k = q.iter_items().take(n / 8 + 2).count();
            if k > n / 8 + 1 {
                return Err("more entries than the account can hold".into());
            }
        }
    }
    Ok((items.len(), sum))
}

/// Account bytes nobody wrote through the program.
pub fn hostile_bytes(r: &mut R) -> (Buf, String) {
    let len = match r.below(8) {
        0 => r.below(HEAD + 1),
        1 => HEAD + r.below(ITEM + 2),
        2 => HEAD + ITEM,
        3 => HEAD + r.below(300),
        _ => HEAD + r.below(if cfg!(miri) { 700 } else { 2500 }),
    };
    let mut b = Buf::new(len, true);
    if r.one_in(8) {
        let v = r.bytes(len);
        b.body().copy_from_slice(&v);
        return (b, "random bytes".into());
    }
    if r.one_in(16) {
        b.body().fill([0xff, 1, 0][r.below(3)]);
        return (b, "constant bytes".into());
    }
    // a valid queue first
    let mut starts = vec![];
    if let Ok(mut q) = QueueAccount::load(b.body()) {
        for k in 0..1 + r.below(6) {
            let e = gen_entry(r, k as u64, false);
            if q.add_item(&e.item(), &e.disc, &e.cmetas(), &e.args).is_err() {
                break;
            }
            starts.push(e.size());
        }
    }
    let mut at = HEAD;
    let mut heads = vec![];
    for s in starts {
        heads.push(at);
        at = up8(at + s);
    }
    let mut what = String::from("valid queue");
    for _ in 0..1 + r.below(3) {
        let h = if heads.is_empty() { HEAD } else { heads[r.below(heads.len())] };
        let w32 = wild32(r, len);
        let w16 = wild16(r);
        let body = b.body();
        let l = body.len();
        match r.below(11) {
            0 => {
                put32(body, 0, w32);
                what += ", count overwritten";
            }
            1 | 2 => {
                put32(body, 4, w32);
                what += ", cursor overwritten";
            }
            3 => {
                put32(body, h + 72, w32);
                what += ", discriminator offset overwritten";
            }
            4 => {
                put32(body, h + 76, w32);
                what += ", account offset overwritten";
            }
            5 => {
                put32(body, h + 80, w32);
                what += ", argument offset overwritten";
            }
            6 => {
                put16(body, h + 84, w16);
                what += ", discriminator length overwritten";
            }
            7 => {
                put16(body, h + 86, w16);
                what += ", account count overwritten";
            }
            8 => {
                put16(body, h + 88, w16);
                what += ", argument length overwritten";
            }
            9 => {
                if h + 92 <= l {
                    body[h + 91] = [0, 1, 2, 255][r.below(4)];
                }
                what += ", used flag overwritten";
            }
            _ => {
                if l > 0 {
                    let i = r.below(l);
                    body[i] = r.u64() as u8;
                }
                what += ", a byte flipped";
            }
        }
    }
    (b, what)
}

pub fn hostile(seed: u64, n: u64, canary: bool, cnt: &mut Cnt) -> Vec<Problem> {
    let mut out = vec![];
    for i in 0..n {
        let mut r = R::new(seed ^ 0x55aa ^ i.wrapping_mul(0x9FB2_1C65_1E98_DF25));
        let (src, what) = match guarded(|| hostile_bytes(&mut r)) {
            Ok(x) => x,
            Err(p) => {
                out.push(prob("C18", "queue operation aborts", p));
                continue;
            }
        };
        // an exact allocation, so that sanitizers see the first byte beyond
        let mut src = src;
        let mut b = Buf::new(src.len, canary);
        let bytes = src.body().to_vec();
        b.body().copy_from_slice(&bytes);
        let hexs = |b: &[u8]| b.iter().take(400).map(|x| format!("{x:02x}")).collect::<String>();
        for mutate in [false, true] {
            match guarded(|| read_all(b.body(), &mut r, mutate)) {
                Err(p) => out.push(prob("C18", if mutate { "queue operation aborts on corrupt bytes" } else { "reading corrupt bytes aborts" }, format!("case {i} ({what}): {p} | {}", hexs(&bytes)))),
                Ok(Err(p)) => out.push(prob("C18", "reading corrupt bytes leaves the account", format!("case {i} ({what}): {p} | {}", hexs(&bytes)))),
                Ok(Ok((k, _))) => {
                    inc(cnt, if k > 0 { "corrupt queues with entries read" } else { "corrupt queues without entries read" });
                }
            }
        }
        if !b.intact() {
            out.push(prob("C18", "bytes after the account were written", format!("case {i} ({what})")));
        }
        inc(cnt, &format!("corruption: {}", what.split(", ").nth(1).unwrap_or(&what)));
        // the typed reader
        let mut acc = vec![0u64; (8 + bytes.len() + 7) / 8 + 1];
        // SAFETY: plain bytes of an owned vector
        let raw = unsafe { std::slice::from_raw_parts_mut(acc.as_mut_ptr() as *mut u8, 8 + bytes.len()) };
        raw[8..].copy_from_slice(&bytes);
        let tag: u64 = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => 2,
            3 => r.u64(),
            4 => 3 | 1 << (8 + r.below(56)),
            _ => 3,
        };
        raw[..8].copy_from_slice(&tag.to_le_bytes());
        let cut = match r.below(4) {
            0 => r.below(raw.len() + 1),
            1 => r.below(26).min(raw.len()),
            _ => raw.len(),
        };
        let raw = &mut raw[..cut];
        let want = cut >= 8 + 12 && tag == 3;
        let strict_refuse = cut < 8 + 12 || tag != 3;
        let (item_count, index) = if cut >= 17 + 3 { (u32::from_le_bytes(raw[8..12].try_into().unwrap()), raw[16]) } else { (0, 0) };
        match guarded(|| Queue::try_from_bytes(raw).map(|q| (q.len(), q.is_empty(), q.index))) {
            Err(p) => out.push(prob("C18", "typed queue reader aborts", p)),
            Ok(Ok(x)) => {
                if strict_refuse {
                    out.push(prob("C18", "typed queue reader accepts foreign or short bytes", format!("tag {tag:x}, {cut} bytes")));
                } else if x != (item_count as usize, item_count == 0, index) {
                    out.push(prob("C18", "typed queue reader misreads", format!("{x:?}")));
                }
                inc(cnt, "typed reads accepted");
            }
            Ok(Err(_)) => {
                if want && cut >= 8 + HEAD {
                    out.push(prob("C18", "typed queue reader refuses a queue", format!("tag {tag:x}, {cut} bytes")));
                }
                inc(cnt, "typed reads refused");
            }
        }
        match guarded(|| Queue::try_from_bytes_mut(raw).map(|q| q.len())) {
            Err(p) => out.push(prob("C18", "typed queue reader aborts", p)),
            Ok(Ok(_)) if strict_refuse => out.push(prob("C18", "typed queue reader accepts foreign or short bytes", format!("mutable, tag {tag:x}, {cut} bytes"))),
            _ => {}
        }
        let _ = AccountDiscriminator::Queue;
        if out.len() > 8 {
            break;
        }
    }
    out
}
