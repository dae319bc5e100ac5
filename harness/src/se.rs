//! Harness primitives.  In the symbolic run these are intrinsics of the
//! engine; the bodies below are what the native build executes when a model
//! found by the solver is replayed against the real code.
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

pub static INPUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());
pub static SCRATCH: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);
static POS: AtomicUsize = AtomicUsize::new(0);
pub static OBS: Mutex<u64> = Mutex::new(0xcbf29ce484222325);

fn next() -> u8 {
    let i = POS.fetch_add(1, Ordering::SeqCst);
    INPUT.lock().unwrap().get(i).copied().unwrap_or(0)
}
pub fn finish(code: i32, msg: &str) -> ! {
    use std::io::Write;
    println!("RESULT {} obs={:016x} {}", code, *OBS.lock().unwrap(), msg);
    std::io::stdout().flush().ok();
    if let Ok(g) = SCRATCH.lock() {
        if let Some(d) = &*g {
            std::fs::remove_dir_all(d).ok();
        }
    }
    unsafe { libc_exit(code) }
}
unsafe fn libc_exit(code: i32) -> ! {
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    _exit(code)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = next() }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_choice(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    next() as usize
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_assume(c: u8) {
    if c & 1 == 0 {
        finish(3, "assumption does not hold")
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_assert(c: u8, p: *const u8, n: usize) {
    if c & 1 == 0 {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        finish(1, &format!("assert {}", String::from_utf8_lossy(s)))
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_fail(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    finish(1, &format!("assert {}", String::from_utf8_lossy(s)))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_reach(p: *const u8, n: usize) {
    std::hint::black_box((p, n));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_observe(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    let mut o = OBS.lock().unwrap();
    for b in s {
        *o = (*o ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    *o = (*o ^ 0x1ff).wrapping_mul(0x100000001b3);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_panic_mode(on: u8) {
    std::hint::black_box(on);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_sched(budget: i32) {
    std::hint::black_box(budget);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_symbolic() -> u8 {
    0
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn se_step_limit(n: usize) {
    std::hint::black_box(n);
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn se_tier() -> usize {
    std::env::var("STARRY_TIER").ok().and_then(|v| v.parse().ok()).unwrap_or(0)
}

// ------------------------------------------------------------ conveniences
/// how often to look again for something another thread does: natively the
/// threads run at their own pace
pub fn spins() -> Spins {
    spins_of(2000)
}
pub fn spins_of(limit: usize) -> Spins {
    Spins { n: 0, limit, until: None }
}
pub struct Spins {
    n: usize,
    limit: usize,
    until: Option<std::time::Instant>,
}
impl Iterator for Spins {
    type Item = ();
    fn next(&mut self) -> Option<()> {
        self.n += 1;
        if unsafe_symbolic() {
            return if self.n > self.limit { None } else { Some(()) };
        }
        // natively the limit is one of time, generous on a busy machine
        if self.n > 2000 {
            let now = std::time::Instant::now();
            if *self.until.get_or_insert(now + std::time::Duration::from_secs(15)) <= now {
                return None;
            }
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
        Some(())
    }
}
fn unsafe_symbolic() -> bool {
    se_symbolic() != 0
}
/// the bound to use: `q` in the quick, `t` in the thorough run
pub fn deep(q: usize, t: usize) -> usize {
    if se_tier() == 0 {
        q
    } else {
        t
    }
}
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    se_bytes(v.as_mut_ptr(), n);
    v
}
pub fn u8_() -> u8 {
    let mut b = [0u8; 1];
    se_bytes(b.as_mut_ptr(), 1);
    b[0]
}
pub fn u16_() -> u16 {
    let mut b = [0u8; 2];
    se_bytes(b.as_mut_ptr(), 2);
    u16::from_le_bytes(b)
}
pub fn u32_() -> u32 {
    let mut b = [0u8; 4];
    se_bytes(b.as_mut_ptr(), 4);
    u32::from_le_bytes(b)
}
pub fn u64_() -> u64 {
    let mut b = [0u8; 8];
    se_bytes(b.as_mut_ptr(), 8);
    u64::from_le_bytes(b)
}
/// all values of 0..n are explored, each on its own paths
pub fn choice(n: usize) -> usize {
    se_choice(n)
}
pub fn assume(c: bool) {
    se_assume(c as u8)
}
pub fn check(c: bool, what: &str) {
    se_assert(c as u8, what.as_ptr(), what.len())
}
pub fn fail(what: &str) {
    se_fail(what.as_ptr(), what.len())
}
pub fn reach(what: &str) {
    se_reach(what.as_ptr(), what.len())
}
pub fn observe(b: &[u8]) {
    se_observe(b.as_ptr(), b.len())
}
/// byte equality without short-circuit branches
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// `n` symbolic bytes restricted to the given inclusive ranges
pub fn bytes_in(n: usize, ranges: &[(u8, u8)]) -> Vec<u8> {
    let v = bytes(n);
    for i in 0..n {
        assume(in_ranges(v[i], ranges));
    }
    v
}
pub fn in_ranges(b: u8, ranges: &[(u8, u8)]) -> bool {
    let mut ok = false;
    for r in ranges {
        ok |= (b >= r.0) & (b <= r.1);
    }
    ok
}
