//! Control over the process's only source of randomness, `getrandom` (hash map seeds).
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
static SEED: AtomicU64 = AtomicU64::new(1);
static CALLS: AtomicU64 = AtomicU64::new(0);
/// Seed for hash maps created by threads that have not created one yet.
pub fn seed(s: u64) { SEED.store(s, SeqCst); }
/// number of times randomness was asked for
pub fn calls() -> u64 { CALLS.load(SeqCst) }
/// Run `f` on a fresh thread whose hash maps are seeded with `s`.
pub fn with_seed<R: Send>(s: u64, f: impl FnOnce() -> R + Send) -> std::thread::Result<R> {
  seed(s);
  std::thread::scope(|sc| {
    std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, f).expect("thread").join()
  })
}
/// replaces libc's
///
/// # Safety
/// as libc's
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
  CALLS.fetch_add(1, SeqCst);
  let mut z = SEED.load(SeqCst).wrapping_mul(0x9e3779b97f4a7c15);
  for i in 0..len {
    if i % 8 == 0 {
      z = z.wrapping_add(0x9e3779b97f4a7c15);
    }
    let mut x = z;
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^= x >> 31;
    *buf.add(i) = (x >> (8 * (i % 8))) as u8;
  }
  len as isize
}
