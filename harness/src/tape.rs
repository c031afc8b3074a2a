//! The system's randomness, on demand: while a tape runs on a thread, what the code asks the operating system for comes from
//! the tape and is written down. Everything else passes through.
use std::arch::asm;
use rand::rngs::StdRng;
use rand::{RngCore, SeedableRng};
use std::cell::{Cell, RefCell};

thread_local! {
    static TAPE: RefCell<Option<(Vec<u8>, Vec<Vec<u8>>)>> = const { RefCell::new(None) };
    static QUIRK: Cell<bool> = const { Cell::new(false) };
}

unsafe fn real(n: i64, a: [i64; 6]) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a[0], in("rsi") a[1], in("rdx") a[2], in("r10") a[3], in("r8") a[4], in("r9") a[5],
         lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

/// Random bytes as they come, but more often with a run of equal bytes in them; they decide themselves
pub fn quirk(b: &mut [u8]) {
    let l = b.len();
    if l < 8 || b[4] & 1 == 0 {
        return;
    }
    let n = [1, 1, 2, 2, 3, 4, 6, 8][(b[5] & 7) as usize].min(l / 4);
    let v = [0, 0, 0, 255, 255, 128, 1, b[0]][(b[6] & 7) as usize];
    let a = match b[7] & 7 {
        0..=2 => 0,
        3..=5 => l - n,
        _ => b[3] as usize % (l - n),
    };
    b[a..a + n].fill(v);
}

/// The system's randomness as quirk makes it, on this thread
pub fn set_quirk(on: bool) {
    QUIRK.with(|q| q.set(on))
}
pub fn is_quirk() -> bool {
    QUIRK.with(|q| q.get())
}

/// A generator, with or without runs of equal bytes
pub struct Dice {
    r: StdRng,
    quirk: bool,
}

impl Dice {
    pub fn new(r: StdRng, quirk: bool) -> Dice {
        Dice { r, quirk }
    }
    /// the seed decides
    pub fn from_seed(s: [u8; 32]) -> Dice {
        Dice { r: StdRng::from_seed(s), quirk: s[31] & 3 == 1 }
    }
}

impl RngCore for Dice {
    fn next_u32(&mut self) -> u32 {
        self.r.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.r.next_u64()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.r.fill_bytes(b);
        if self.quirk {
            quirk(b);
        }
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(b);
        Ok(())
    }
}

impl rand_core::CryptoRng for Dice {}

const GETRANDOM: i64 = 318;

/// In place of the C library's: the way the crates ask for randomness
#[no_mangle]
unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == GETRANDOM && b > 0 {
        let done = TAPE.try_with(|t| {
            let Ok(mut t) = t.try_borrow_mut() else { return false };
            let Some((tape, log)) = t.as_mut() else { return false };
            let out = std::slice::from_raw_parts_mut(a as *mut u8, b as usize);
            if tape.len() < out.len() {
                real(n, [a, b, 0, 0, 0, 0]);
            } else {
                out.copy_from_slice(&tape[..b as usize]);
                tape.drain(..b as usize);
            }
            log.push(out.to_vec());
            true
        });
        if done == Ok(true) {
            return b;
        }
    }
    let r = real(n, [a, b, c, d, e, f]);
    if n == GETRANDOM && r > 0 && QUIRK.try_with(|q| q.get()) == Ok(true) {
        quirk(std::slice::from_raw_parts_mut(a as *mut u8, r as usize));
    }
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        return -1;
    }
    r
}

/// What f returns, and what it was given as randomness: the bytes of the tape as long as there are enough
pub fn with<T>(tape: &[u8], f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) {
    TAPE.with(|t| *t.borrow_mut() = Some((tape.to_vec(), vec![])));
    let r = f();
    let log = TAPE.with(|t| t.borrow_mut().take()).map(|t| t.1).unwrap_or_default();
    (r, log)
}
