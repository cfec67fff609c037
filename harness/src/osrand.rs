//! Deterministic operating-system randomness: the process's getrandom is replaced, so that a run is a function of code
//! and seed, and every byte the code under test draws from the system is known to the oracle.

use crate::engine::Rng;
use std::cell::UnsafeCell;

const LOGMAX: usize = 1 << 16;

/// per thread, so that threads do not disturb each other's sequence
struct State {
  rng: Rng,
  log: [u8; LOGMAX],
  len: usize,
  fail: bool
}
thread_local! {
  static STATE: UnsafeCell<State> = const { UnsafeCell::new(State { rng: Rng(1), log: [0; LOGMAX], len: 0, fail: false }) };
}
fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
  STATE.with(|s| f(unsafe { &mut *s.get() }))
}

/// from now on the operating system refuses to give randomness
pub fn fail(on: bool) {
  with(|s| s.fail = on)
}
pub fn reset() {
  fail(false);
  reseed(0x5eed);
}
pub fn reseed(x: u64) {
  with(|s| {
    s.rng = Rng::new(&[x, 0x05]);
    s.len = 0;
  })
}
/// bytes handed out since the last reset or `clear`
pub fn log() -> Vec<u8> {
  with(|s| s.log[..s.len].to_vec())
}
pub fn clear() {
  with(|s| s.len = 0)
}

/// false: no randomness
unsafe fn fill(buf: *mut u8, len: usize) -> bool {
  with(|s| {
    if s.fail {
      return false;
    }
    for i in 0..len {
      let b = (s.rng.next() >> 24) as u8;
      buf.add(i).write(b);
      if s.len < LOGMAX {
        s.log[s.len] = b;
        s.len += 1;
      }
    }
    true
  })
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
  // used by std for hash-map keys: deterministic, not logged
  for i in 0..len {
    buf.add(i).write(0x42);
  }
  len as isize
}

extern "C" {
  fn __errno_location() -> *mut i32;
}

#[no_mangle]
#[cfg(target_arch = "x86_64")]
pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
  if n == 318 {
    if !fill(a as *mut u8, b) {
      *__errno_location() = 5;
      return -1;
    }
    return b as i64;
  }
  let r: i64;
  std::arch::asm!(
    "syscall",
    inlateout("rax") n => r,
    in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
    lateout("rcx") _, lateout("r11") _, options(nostack)
  );
  if r < 0 && r > -4096 {
    *__errno_location() = -r as i32;
    return -1;
  }
  r
}
