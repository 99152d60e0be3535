//! Deterministic random source and small helpers.
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Clone)]
pub struct Rng(pub u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15, 0);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        self.1 = self.1.wrapping_add(1);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability n/d
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn b32(&mut self) -> [u8; 32] {
        let mut o = [0u8; 32];
        for c in o.chunks_mut(8) {
            c.copy_from_slice(&self.u64().to_le_bytes());
        }
        o
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(t.max(1));
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        0
    }
}

thread_local! {
    static PDAS: RefCell<HashMap<(Vec<Vec<u8>>, Pubkey), (Pubkey, u8)>> = RefCell::new(HashMap::new());
}

/// Cached program address derivation for the monitors' own use.
pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> (Pubkey, u8) {
    let key = (seeds.iter().map(|s| s.to_vec()).collect::<Vec<_>>(), *program);
    PDAS.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 20_000 {
            p.clear();
        }
        *p.entry(key).or_insert_with(|| Pubkey::find_program_address(seeds, program))
    })
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn short(k: &Pubkey) -> String {
    k.to_string()[..8].to_string()
}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
static OUT: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();
/// Programs log to standard output; keep it for ourselves and send theirs away.
pub fn take_stdout() {
    use std::os::fd::{AsRawFd, FromRawFd};
    OUT.get_or_init(|| unsafe {
        let f = std::fs::File::from_raw_fd(dup(1));
        let n = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        dup2(n.as_raw_fd(), 1);
        f
    });
}
pub fn say(s: &str) {
    use std::io::Write;
    match OUT.get() {
        Some(mut f) => {
            let _ = f.write_all(format!("{s}\n").as_bytes());
        }
        None => println!("{s}"),
    }
}
