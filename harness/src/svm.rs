//! A small, strict, deterministic Solana runtime. Programs run natively, on
//! serialized input buffers laid out exactly as on chain, and every change they
//! make is checked against the runtime's rules (ownership, write access, size
//! limits, lamport balance, privilege escalation, re-entrancy, rent state,
//! transaction atomicity). A failed nested call fails the whole transaction.
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::program_stubs::{set_syscall_stubs, SyscallStubs};
use solana_system_interface::instruction::SystemInstruction;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Once};

pub const MAX_INCREASE: usize = 10_240;
pub const MAX_LEN: usize = 10 * 1024 * 1024;
pub const MAX_DEPTH: usize = 5;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Acct {
    pub lamports: u64,
    pub data: Vec<u8>,
    pub owner: Pubkey,
    pub executable: bool,
}

impl Acct {
    pub fn empty() -> Self {
        Acct { lamports: 0, data: vec![], owner: system_id(), executable: false }
    }
    pub fn wallet(lamports: u64) -> Self {
        Acct { lamports, data: vec![], owner: system_id(), executable: false }
    }
    pub fn is_void(&self) -> bool {
        self.lamports == 0 && self.data.is_empty() && self.owner == system_id()
    }
}

pub fn system_id() -> Pubkey {
    solana_system_interface::program::ID
}

pub type ProgFn = Arc<dyn Fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult + Send + Sync>;
pub type BuiltinFn =
    Arc<dyn Fn(&mut Rt, &[IxAcct], &[u8]) -> Result<(), String> + Send + Sync>;

#[derive(Clone)]
pub enum Prog {
    Native(ProgFn),
    Builtin(BuiltinFn),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IxAcct {
    pub key: Pubkey,
    pub signer: bool,
    pub writable: bool,
}

/// One program invocation as seen by the runtime.
#[derive(Clone, Debug)]
pub struct Call {
    pub depth: usize,
    pub caller: Option<Pubkey>,
    pub top_ix: usize,
    pub program: Pubkey,
    pub accts: Vec<IxAcct>,
    pub data: Vec<u8>,
    pub pre: BTreeMap<Pubkey, Acct>,
    pub post: BTreeMap<Pubkey, Acct>,
    pub finished_ok: bool,
    /// indices (into the call list) of the calls made by this call
    pub children: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct TxResult {
    pub err: Option<String>,
    pub custom: Option<u32>,
    pub failed_ix: Option<usize>,
    pub panicked: bool,
    pub calls: Vec<Call>,
    /// accounts whose ledger state changed (pre, post)
    pub diff: BTreeMap<Pubkey, (Acct, Acct)>,
    pub logs: Vec<String>,
}
impl TxResult {
    pub fn ok(&self) -> bool {
        self.err.is_none()
    }
}

#[derive(Clone, Debug, Default)]
pub struct Tx {
    pub ixs: Vec<Instruction>,
    pub signers: BTreeSet<Pubkey>,
    pub payer: Option<Pubkey>,
}
impl Tx {
    pub fn new(ixs: Vec<Instruction>, signers: &[Pubkey]) -> Self {
        Tx { ixs, signers: signers.iter().copied().collect(), payer: signers.first().copied() }
    }
}

#[derive(Clone)]
pub struct Svm {
    pub accts: BTreeMap<Pubkey, Acct>,
    pub slot: u64,
    pub unix_ts: i64,
    pub programs: HashMap<Pubkey, Prog>,
    pub hash_salt: u64,
    pub keep_logs: bool,
}

struct Frame {
    program: Pubkey,
    /// de-duplicated privileges of the instruction accounts
    privs: BTreeMap<Pubkey, (bool, bool)>,
    orig_len: BTreeMap<Pubkey, usize>,
    sum: u128,
    call: usize,
}

pub struct Rt {
    pub table: BTreeMap<Pubkey, Acct>,
    programs: *const HashMap<Pubkey, Prog>,
    stack: Vec<Frame>,
    calls: Vec<Call>,
    aborted: Option<String>,
    custom: Option<u32>,
    panicked: bool,
    clock: solana_program::clock::Clock,
    top_ix: usize,
    logs: Vec<String>,
    keep_logs: bool,
}

thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(std::ptr::null_mut()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

fn with_rt<R>(f: impl FnOnce(&mut Rt) -> R) -> R {
    let p = RT.with(|c| c.get());
    assert!(!p.is_null(), "no runtime active");
    f(unsafe { &mut *p })
}

struct Stubs;
impl SyscallStubs for Stubs {
    fn sol_log(&self, message: &str) {
        let p = RT.with(|c| c.get());
        if !p.is_null() {
            let rt = unsafe { &mut *p };
            if rt.keep_logs {
                rt.logs.push(message.to_string());
            }
        }
    }
    fn sol_log_data(&self, _f: &[&[u8]]) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        cpi(ix, infos, seeds)
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        with_rt(|rt| unsafe {
            *(var_addr as *mut solana_program::clock::Clock) = rt.clock.clone();
        });
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { *(var_addr as *mut Rent) = Rent::default() };
        0
    }
    fn sol_get_stack_height(&self) -> u64 {
        with_rt(|rt| rt.stack.len() as u64)
    }
    fn sol_remaining_compute_units(&self) -> u64 {
        1_000_000
    }
}

static INIT: Once = Once::new();
pub fn init() {
    INIT.call_once(|| {
        set_syscall_stubs(Box::new(Stubs));
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !QUIET.with(|q| q.get()) && RT.with(|c| c.get()).is_null() {
                prev(i)
            }
        }));
    });
}

/// Run `f` catching panics without printing them.
pub fn quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    init();
    let old = QUIET.with(|q| q.replace(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| panic_text(&e))
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn cpi(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let p = RT.with(|c| c.get());
    assert!(!p.is_null(), "no runtime active");
    // SAFETY: one thread, re-entered strictly in stack order; no reference into
    // the runtime is kept across the nested call.
    let r = unsafe { (*p).cpi(ix, infos, seeds) };
    r.map_err(|e| {
        let rt = unsafe { &mut *p };
        if rt.aborted.is_none() {
            rt.aborted = Some(e);
        }
        ProgramError::Custom(0xdead)
    })
}

fn sum_of(table: &BTreeMap<Pubkey, Acct>, privs: &BTreeMap<Pubkey, (bool, bool)>) -> u128 {
    privs.keys().map(|k| table.get(k).map_or(0, |a| a.lamports as u128)).sum()
}

impl Rt {
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.table.get(k).cloned().unwrap_or_else(Acct::empty)
    }
    pub fn slot(&self) -> u64 {
        self.clock.slot
    }

    /// Apply a change made by `program` under the runtime's rules.
    fn apply(&mut self, program: &Pubkey, writable: bool, orig_len: usize, key: &Pubkey, lamports: u64, data: &[u8], owner: &Pubkey) -> Result<(), String> {
        let a = self.table.entry(*key).or_insert_with(Acct::empty);
        if a.lamports != lamports {
            if lamports < a.lamports && a.owner != *program {
                return Err(format!("ExternalAccountLamportSpend {key}"));
            }
            if !writable {
                return Err(format!("ReadonlyLamportChange {key}"));
            }
            a.lamports = lamports;
        }
        if a.data != data {
            if !writable {
                return Err(format!("ReadonlyDataModified {key}"));
            }
            if a.owner != *program {
                return Err(format!("ExternalAccountDataModified {key}"));
            }
            if data.len() > MAX_LEN || data.len().saturating_sub(orig_len) > MAX_INCREASE {
                return Err(format!("InvalidRealloc {key}"));
            }
            a.data = data.to_vec();
        }
        if a.owner != *owner {
            if !writable || a.owner != *program || a.executable || a.data.iter().any(|b| *b != 0) {
                return Err(format!("ModifiedProgramId {key}"));
            }
            a.owner = *owner;
        }
        Ok(())
    }

    fn cpi(&mut self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> Result<(), String> {
        if let Some(e) = &self.aborted {
            return Err(e.clone());
        }
        let (caller, cprivs, corig, csum) = {
            let f = self.stack.last().ok_or("no frame")?;
            (f.program, f.privs.clone(), f.orig_len.clone(), f.sum)
        };
        let mut pdas = BTreeSet::new();
        for s in seeds {
            let k = Pubkey::create_program_address(s, &caller).map_err(|e| format!("BadSeeds {e:?}"))?;
            pdas.insert(k);
        }
        if !cprivs.contains_key(&ix.program_id) {
            return Err(format!("MissingAccount program {}", ix.program_id));
        }
        // privileges of the callee
        let mut un: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let e = un.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        for (k, (s, w)) in &un {
            let Some((cs, cw)) = cprivs.get(k) else {
                return Err(format!("MissingAccount {k}"));
            };
            if *w && !*cw {
                return Err(format!("PrivilegeEscalation writable {k}"));
            }
            if *s && !*cs && !pdas.contains(k) {
                return Err(format!("PrivilegeEscalation signer {k}"));
            }
        }
        // sync the caller's view of the passed accounts into the runtime
        for k in un.keys() {
            if self.table.get(k).is_some_and(|a| a.executable) {
                continue;
            }
            let Some(info) = infos.iter().find(|i| i.key == k) else {
                return Err(format!("MissingAccount info {k}"));
            };
            let lam = **info.try_borrow_lamports().map_err(|_| "AccountBorrowFailed")?;
            let data = info.try_borrow_data().map_err(|_| "AccountBorrowFailed")?.to_vec();
            let owner = *info.owner;
            let w = cprivs[k].1;
            self.apply(&caller, w, corig[k], k, lam, &data, &owner)?;
        }
        if sum_of(&self.table, &cprivs) != csum {
            return Err("UnbalancedInstruction (before nested call)".into());
        }
        let accts: Vec<IxAcct> = ix
            .accounts
            .iter()
            .map(|m| IxAcct { key: m.pubkey, signer: un[&m.pubkey].0, writable: un[&m.pubkey].1 })
            .collect();
        self.invoke(&ix.program_id, accts, &ix.data)?;
        // reflect the callee's changes in the caller's account views
        for (k, (_, w)) in &un {
            if !*w {
                continue;
            }
            let a = self.get(k);
            for info in infos.iter().filter(|i| i.key == k) {
                **info.try_borrow_mut_lamports().map_err(|_| "AccountBorrowFailed")? = a.lamports;
                if info.data_len() != a.data.len() {
                    info.resize(a.data.len()).map_err(|_| "InvalidRealloc".to_string())?;
                }
                info.try_borrow_mut_data().map_err(|_| "AccountBorrowFailed")?.copy_from_slice(&a.data);
                if *info.owner != a.owner {
                    info.assign(&a.owner);
                }
                break;
            }
        }
        Ok(())
    }

    /// Builtins may call back into programs (used by the delegation program model).
    pub fn builtin_invoke(&mut self, ix: &Instruction, signer_pdas: &[Pubkey]) -> Result<(), String> {
        let (cprivs, csum) = {
            let f = self.stack.last().ok_or("no frame")?;
            (f.privs.clone(), f.sum)
        };
        let mut un: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for m in &ix.accounts {
            let e = un.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        if !cprivs.contains_key(&ix.program_id) {
            return Err(format!("MissingAccount program {}", ix.program_id));
        }
        for (k, (s, w)) in &un {
            let Some((cs, cw)) = cprivs.get(k) else {
                return Err(format!("MissingAccount {k}"));
            };
            if *w && !*cw || *s && !*cs && !signer_pdas.contains(k) {
                return Err(format!("PrivilegeEscalation {k}"));
            }
        }
        if sum_of(&self.table, &cprivs) != csum {
            return Err("UnbalancedInstruction (before nested call)".into());
        }
        let accts = ix
            .accounts
            .iter()
            .map(|m| IxAcct { key: m.pubkey, signer: un[&m.pubkey].0, writable: un[&m.pubkey].1 })
            .collect();
        self.invoke(&ix.program_id, accts, &ix.data)
    }

    /// A builtin's change to one of its instruction accounts.
    pub fn set(&mut self, key: &Pubkey, a: Acct) -> Result<(), String> {
        let f = self.stack.last().ok_or("no frame")?;
        let program = f.program;
        let (_, w) = *f.privs.get(key).ok_or_else(|| format!("MissingAccount {key}"))?;
        let orig = usize::MAX / 2; // builtins may allocate any size up to MAX_LEN
        self.apply(&program, w, orig, key, a.lamports, &a.data, &a.owner)
    }

    fn invoke(&mut self, program: &Pubkey, accts: Vec<IxAcct>, data: &[u8]) -> Result<(), String> {
        if self.stack.len() >= MAX_DEPTH {
            return Err("CallDepth".into());
        }
        if let Some(pos) = self.stack.iter().position(|f| f.program == *program) {
            if pos + 1 != self.stack.len() || self.stack[..pos].iter().any(|f| f.program == *program) {
                return Err("ReentrancyNotAllowed".into());
            }
        }
        let prog = unsafe { &*self.programs }.get(program).cloned();
        let Some(prog) = prog else {
            return Err(format!("UnsupportedProgramId {program}"));
        };
        let mut privs: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        for a in &accts {
            let e = privs.entry(a.key).or_insert((false, false));
            e.0 |= a.signer;
            e.1 |= a.writable;
        }
        let orig_len: BTreeMap<Pubkey, usize> = privs.keys().map(|k| (*k, self.table.get(k).map_or(0, |a| a.data.len()))).collect();
        let sum = sum_of(&self.table, &privs);
        let snapshot = |t: &BTreeMap<Pubkey, Acct>| -> BTreeMap<Pubkey, Acct> {
            privs.keys().map(|k| (*k, t.get(k).cloned().unwrap_or_else(Acct::empty))).collect()
        };
        let call = self.calls.len();
        let parent = self.stack.last().map(|f| f.call);
        self.calls.push(Call {
            depth: self.stack.len(),
            caller: self.stack.last().map(|f| f.program),
            top_ix: self.top_ix,
            program: *program,
            accts: accts.clone(),
            data: data.to_vec(),
            pre: snapshot(&self.table),
            post: BTreeMap::new(),
            finished_ok: false,
            children: vec![],
        });
        if let Some(p) = parent {
            self.calls[p].children.push(call);
        }
        self.stack.push(Frame { program: *program, privs: privs.clone(), orig_len, sum, call });
        let r = match prog {
            Prog::Builtin(f) => f(self, &accts, data),
            Prog::Native(f) => self.run_native(&f, program, &accts, data, &privs),
        };
        let r = r.and_then(|_| {
            if let Some(e) = &self.aborted {
                return Err(e.clone());
            }
            if sum_of(&self.table, &privs) != sum {
                return Err("UnbalancedInstruction".into());
            }
            Ok(())
        });
        self.stack.pop();
        if r.is_ok() {
            self.calls[call].finished_ok = true;
            self.calls[call].post = snapshot(&self.table);
        }
        r
    }

    fn run_native(&mut self, f: &ProgFn, program: &Pubkey, accts: &[IxAcct], ixdata: &[u8], privs: &BTreeMap<Pubkey, (bool, bool)>) -> Result<(), String> {
        // serialize
        let mut first: BTreeMap<Pubkey, usize> = BTreeMap::new();
        let mut size = 8;
        for (i, a) in accts.iter().enumerate() {
            if first.contains_key(&a.key) {
                size += 8;
            } else {
                first.insert(a.key, i);
                let len = self.table.get(&a.key).map_or(0, |x| x.data.len());
                size += 8 + 32 + 32 + 8 + 8 + len + MAX_INCREASE;
                size = (size + 7) & !7;
                size += 8;
            }
        }
        size += 8 + ixdata.len() + 32 + 16;
        let mut words = vec![0u128; size / 16 + 1];
        let buf = words.as_mut_ptr() as *mut u8;
        let mut o = 0usize;
        let put = |o: &mut usize, b: &[u8]| unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), buf.add(*o), b.len());
            *o += b.len();
        };
        put(&mut o, &(accts.len() as u64).to_le_bytes());
        let mut pos: BTreeMap<Pubkey, usize> = BTreeMap::new();
        for (i, a) in accts.iter().enumerate() {
            let fi = first[&a.key];
            if fi != i {
                put(&mut o, &[fi as u8, 0, 0, 0, 0, 0, 0, 0]);
                continue;
            }
            let acc = self.get(&a.key);
            let (s, w) = privs[&a.key];
            pos.insert(a.key, o);
            put(&mut o, &[0xff, s as u8, w as u8, acc.executable as u8]);
            put(&mut o, &(acc.data.len() as u32).to_le_bytes());
            put(&mut o, a.key.as_ref());
            put(&mut o, acc.owner.as_ref());
            put(&mut o, &acc.lamports.to_le_bytes());
            put(&mut o, &(acc.data.len() as u64).to_le_bytes());
            put(&mut o, &acc.data);
            o += MAX_INCREASE;
            o = (o + 7) & !7;
            put(&mut o, &u64::MAX.to_le_bytes());
        }
        put(&mut o, &(ixdata.len() as u64).to_le_bytes());
        put(&mut o, ixdata);
        put(&mut o, program.as_ref());
        let r = {
            let (pid, infos, d) = unsafe { solana_program::entrypoint::deserialize(buf) };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(pid, &infos, d)));
            // program heap is gone with the call
            drop(infos);
            r
        };
        match r {
            Err(e) => {
                self.panicked = true;
                return Err(format!("ProgramFailedToComplete: {}", panic_text(&e)));
            }
            Ok(Err(e)) => {
                if let Some(a) = &self.aborted {
                    return Err(a.clone());
                }
                if let ProgramError::Custom(c) = e {
                    self.custom = Some(c);
                }
                return Err(format!("{e:?}"));
            }
            Ok(Ok(())) => {}
        }
        if let Some(a) = &self.aborted {
            return Err(a.clone());
        }
        // read back
        let frame_orig = self.stack.last().unwrap().orig_len.clone();
        for (k, p) in pos {
            unsafe {
                let base = buf.add(p);
                let owner = Pubkey::new_from_array(*(base.add(8 + 32) as *const [u8; 32]));
                let lamports = (base.add(8 + 64) as *const u64).read_unaligned();
                let len = (base.add(8 + 64 + 8) as *const u64).read_unaligned() as usize;
                if len > frame_orig[&k] + MAX_INCREASE {
                    return Err(format!("InvalidRealloc {k}"));
                }
                let data = std::slice::from_raw_parts(base.add(8 + 64 + 16), len).to_vec();
                let (_, w) = privs[&k];
                self.apply(program, w, frame_orig[&k], &k, lamports, &data, &owner)?;
            }
        }
        Ok(())
    }
}

fn system_program(rt: &mut Rt, accts: &[IxAcct], data: &[u8]) -> Result<(), String> {
    let ix: SystemInstruction = bincode::deserialize(data).map_err(|_| "InvalidInstructionData".to_string())?;
    let acc = |i: usize| accts.get(i).copied().ok_or_else(|| "NotEnoughAccountKeys".to_string());
    fn allocate(rt: &Rt, a: &IxAcct, space: u64) -> Result<Acct, String> {
        if !a.signer {
            return Err("MissingRequiredSignature (allocate)".into());
        }
        let mut x = rt.get(&a.key);
        if !x.data.is_empty() || x.owner != system_id() {
            return Err("Custom(AccountAlreadyInUse)".into());
        }
        if space as usize > MAX_LEN {
            return Err("Custom(InvalidAccountDataLength)".into());
        }
        x.data = vec![0; space as usize];
        Ok(x)
    }
    fn transfer(rt: &mut Rt, from: &IxAcct, to: &IxAcct, lamports: u64) -> Result<(), String> {
        if !from.signer {
            return Err("MissingRequiredSignature (transfer)".into());
        }
        let mut f = rt.get(&from.key);
        if !f.data.is_empty() {
            return Err("InvalidArgument (from carries data)".into());
        }
        if f.lamports < lamports {
            return Err("Custom(ResultWithNegativeLamports)".into());
        }
        f.lamports -= lamports;
        rt.set(&from.key, f)?;
        let mut t = rt.get(&to.key);
        t.lamports = t.lamports.checked_add(lamports).ok_or("ArithmeticOverflow")?;
        rt.set(&to.key, t)
    }
    match ix {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            let (f, t) = (acc(0)?, acc(1)?);
            if rt.get(&t.key).lamports > 0 {
                return Err("Custom(AccountAlreadyInUse)".into());
            }
            let mut x = allocate(rt, &t, space)?;
            x.owner = owner;
            // owner change is legal here: freshly zeroed data
            rt.set(&t.key, x)?;
            // the new owner now owns it; only credit it
            transfer(rt, &f, &t, lamports)
        }
        SystemInstruction::Assign { owner } => {
            let a = acc(0)?;
            let mut x = rt.get(&a.key);
            if x.owner == owner {
                return Ok(());
            }
            if !a.signer {
                return Err("MissingRequiredSignature (assign)".into());
            }
            x.owner = owner;
            rt.set(&a.key, x)
        }
        SystemInstruction::Transfer { lamports } => transfer(rt, &acc(0)?, &acc(1)?, lamports),
        SystemInstruction::Allocate { space } => {
            let a = acc(0)?;
            let x = allocate(rt, &a, space)?;
            rt.set(&a.key, x)
        }
        _ => Err("InvalidInstructionData (unsupported system instruction)".into()),
    }
}

pub fn rent_min(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

#[derive(PartialEq)]
enum RentState {
    Uninit,
    Paying(u64, usize),
    Exempt,
}
fn rent_state(a: &Acct) -> RentState {
    if a.lamports == 0 {
        RentState::Uninit
    } else if a.lamports >= rent_min(a.data.len()) {
        RentState::Exempt
    } else {
        RentState::Paying(a.lamports, a.data.len())
    }
}

impl Default for Svm {
    fn default() -> Self {
        Self::new()
    }
}

impl Svm {
    pub fn new() -> Self {
        init();
        let mut s = Svm { accts: BTreeMap::new(), slot: 1000, unix_ts: 1_700_000_000, programs: HashMap::new(), hash_salt: 0, keep_logs: false };
        s.add_program(system_id(), Prog::Builtin(Arc::new(system_program)));
        s.refresh_sysvars();
        s
    }
    pub fn add_program(&mut self, id: Pubkey, p: Prog) {
        self.programs.insert(id, p);
        self.accts.insert(id, Acct { lamports: 1_000_000_000, data: vec![1; 4], owner: solana_sdk_ids::bpf_loader::ID, executable: true });
    }
    pub fn slot_hash(&self, slot: u64) -> [u8; 32] {
        use sha2::Digest;
        let mut h = sha2::Sha256::new();
        h.update(b"slot-hash");
        h.update(self.hash_salt.to_le_bytes());
        h.update(slot.to_le_bytes());
        h.finalize().into()
    }
    pub fn refresh_sysvars(&mut self) {
        let n = 4u64.min(self.slot);
        let mut d = n.to_le_bytes().to_vec();
        for i in 1..=n {
            d.extend_from_slice(&(self.slot - i).to_le_bytes());
            d.extend_from_slice(&self.slot_hash(self.slot - i));
        }
        self.accts.insert(
            solana_program::sysvar::slot_hashes::id(),
            Acct { lamports: rent_min(d.len()), data: d, owner: solana_program::sysvar::ID, executable: false },
        );
    }
    pub fn warp(&mut self, slots: u64) {
        self.slot += slots;
        self.unix_ts += (slots / 2) as i64;
        self.refresh_sysvars();
    }
    pub fn get(&self, k: &Pubkey) -> Acct {
        self.accts.get(k).cloned().unwrap_or_else(Acct::empty)
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.accts.get(k).map_or(&[], |a| &a.data)
    }
    pub fn lamports(&self, k: &Pubkey) -> u64 {
        self.accts.get(k).map_or(0, |a| a.lamports)
    }
    pub fn airdrop(&mut self, k: &Pubkey, l: u64) {
        self.accts.entry(*k).or_insert_with(Acct::empty).lamports += l;
    }
    pub fn total_lamports(&self) -> u128 {
        self.accts.values().map(|a| a.lamports as u128).sum()
    }

    pub fn exec(&mut self, tx: &Tx) -> TxResult {
        let mut res = TxResult { err: None, custom: None, failed_ix: None, panicked: false, calls: vec![], diff: BTreeMap::new(), logs: vec![] };
        // message privileges
        let mut un: BTreeMap<Pubkey, (bool, bool)> = BTreeMap::new();
        if let Some(p) = tx.payer {
            un.insert(p, (true, true));
        }
        for ix in &tx.ixs {
            for m in &ix.accounts {
                let e = un.entry(m.pubkey).or_insert((false, false));
                e.0 |= m.is_signer;
                e.1 |= m.is_writable;
            }
            un.entry(ix.program_id).or_insert((false, false));
        }
        for (k, (s, _)) in &un {
            if *s && !tx.signers.contains(k) {
                res.err = Some(format!("SignatureFailure {k}"));
                return res;
            }
        }
        for (k, (_, w)) in un.iter_mut() {
            let a = self.accts.get(k);
            if self.programs.contains_key(k) || a.is_some_and(|a| a.executable || a.owner == solana_program::sysvar::ID) {
                *w = false;
            }
        }
        let mut table = BTreeMap::new();
        for k in un.keys() {
            table.insert(*k, self.get(k));
        }
        let mut rt = Rt {
            table,
            programs: &self.programs,
            stack: vec![],
            calls: vec![],
            aborted: None,
            custom: None,
            panicked: false,
            clock: solana_program::clock::Clock { slot: self.slot, epoch_start_timestamp: 0, epoch: self.slot / 432_000, leader_schedule_epoch: 0, unix_timestamp: self.unix_ts },
            top_ix: 0,
            logs: vec![],
            keep_logs: self.keep_logs,
        };
        let old = RT.with(|c| c.replace(&mut rt));
        for (i, ix) in tx.ixs.iter().enumerate() {
            rt.top_ix = i;
            let accts: Vec<IxAcct> = ix.accounts.iter().map(|m| IxAcct { key: m.pubkey, signer: un[&m.pubkey].0, writable: un[&m.pubkey].1 }).collect();
            if let Err(e) = rt.invoke(&ix.program_id, accts, &ix.data) {
                res.err = Some(e);
                res.failed_ix = Some(i);
                break;
            }
        }
        RT.with(|c| c.set(old));
        res.custom = rt.custom;
        res.panicked = rt.panicked;
        res.calls = std::mem::take(&mut rt.calls);
        res.logs = std::mem::take(&mut rt.logs);
        if res.err.is_none() {
            for (k, (_, w)) in &un {
                if !*w {
                    continue;
                }
                let (pre, post) = (self.get(k), rt.get(k));
                let ok = match (rent_state(&pre), rent_state(&post)) {
                    (_, RentState::Uninit) | (_, RentState::Exempt) => true,
                    (RentState::Paying(l0, s0), RentState::Paying(l1, s1)) => s0 == s1 && l1 <= l0,
                    _ => false,
                };
                if !ok {
                    res.err = Some(format!("InsufficientFundsForRent {k}"));
                    break;
                }
            }
        }
        if res.err.is_none() {
            for (k, mut post) in rt.table {
                if post.lamports == 0 {
                    post = Acct::empty();
                }
                let pre = self.get(&k);
                if pre != post {
                    res.diff.insert(k, (pre, post.clone()));
                    if post.is_void() {
                        self.accts.remove(&k);
                    } else {
                        self.accts.insert(k, post);
                    }
                }
            }
        }
        res
    }
}

pub fn meta(k: Pubkey, s: bool, w: bool) -> AccountMeta {
    AccountMeta { pubkey: k, is_signer: s, is_writable: w }
}
