//! Global allocator that, while tracking is on, records every block with its layout, keeps freed blocks in quarantine
//! (so that addresses are not reused) and reports double frees, frees with another layout and blocks never freed.
//! Single-threaded use only.
#![allow(static_mut_refs)]

use std::alloc::{GlobalAlloc, Layout, System};

pub struct Recorder;

#[derive(Clone, Copy)]
struct Slot {
  ptr: usize,
  size: usize,
  align: usize,
  state: u8 // 0 empty, 1 live, 2 freed (quarantined)
}
const N: usize = 1 << 16;
static mut TAB: [Slot; N] = [Slot { ptr: 0, size: 0, align: 0, state: 0 }; N];
static mut USED: [u32; N] = [0; N];
static mut NUSED: usize = 0;
static mut ACTIVE: bool = false; // a session is open
static mut ON: bool = false; // code under test is running
static mut DOUBLE: u64 = 0;
static mut LAYOUT: u64 = 0;
static mut DETAIL: (usize, usize, usize, usize) = (0, 0, 0, 0);
const SPOTS: usize = 16;
static mut SPY_ON: bool = false;
static mut SPY_N: usize = 0;
static mut SPY: [(usize, usize); SPOTS] = [(0, 0); SPOTS];
static mut SPY_SEEN: [bool; SPOTS] = [false; SPOTS];
static mut SPY_BYTES: [[u8; 64]; SPOTS] = [[0; 64]; SPOTS];

static FILL: std::sync::atomic::AtomicU8 = std::sync::atomic::AtomicU8::new(0xa5);
/// what fresh memory holds, in a build with a sanitizer
pub fn fill(byte: u8) {
  FILL.store(byte, std::sync::atomic::Ordering::Relaxed);
}

thread_local! {
  // bytes this thread has taken and not given back, and the most there were
  static LIVE: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
  static PEAK: std::cell::Cell<i64> = const { std::cell::Cell::new(0) };
}
#[inline]
fn count(n: i64) {
  let _ = LIVE.try_with(|l| {
    let now = l.get() + n;
    l.set(now);
    if n > 0 {
      let _ = PEAK.try_with(|p| {
        if now > p.get() {
          p.set(now)
        }
      });
    }
  });
}
pub fn live() -> i64 {
  LIVE.with(|l| l.get())
}
/// the most bytes held at once while `f` runs, over those held before
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
  let before = live();
  PEAK.with(|p| p.set(before));
  let r = f();
  (r, PEAK.with(|p| p.get()) - before)
}

unsafe fn find(p: usize, insert: bool) -> Option<usize> {
  let mut h = (p.wrapping_mul(0x9e3779b97f4a7c15) >> 48) as usize & (N - 1);
  for _ in 0..N {
    if TAB[h].state == 0 {
      if insert && NUSED < N / 2 {
        USED[NUSED] = h as u32;
        NUSED += 1;
        return Some(h);
      }
      return None;
    }
    if TAB[h].ptr == p {
      return Some(h);
    }
    h = (h + 1) & (N - 1);
  }
  None
}

unsafe impl GlobalAlloc for Recorder {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let p = System.alloc(l);
    if !p.is_null() {
      count(l.size() as i64);
      if cfg!(kcv_asan) {
        std::ptr::write_bytes(p, FILL.load(std::sync::atomic::Ordering::Relaxed), l.size().min(1 << 14));
      }
    }
    if ON && !p.is_null() {
      if let Some(i) = find(p as usize, true) {
        TAB[i] = Slot { ptr: p as usize, size: l.size(), align: l.align(), state: 1 };
      }
    }
    p
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    count(-(l.size() as i64));
    if SPY_ON {
      for i in 0..SPY_N {
        let (at, n) = SPY[i];
        if !SPY_SEEN[i] && at >= p as usize && at + n <= p as usize + l.size() {
          SPY_SEEN[i] = true;
          std::ptr::copy_nonoverlapping(at as *const u8, SPY_BYTES[i].as_mut_ptr(), n);
        }
      }
    }
    if ACTIVE {
      if let Some(i) = find(p as usize, false) {
        let t = TAB[i];
        if t.state == 2 {
          DOUBLE += 1;
          DETAIL = (t.size, t.align, l.size(), l.align());
          return;
        }
        if t.size != l.size() || t.align != l.align() {
          LAYOUT += 1;
          DETAIL = (t.size, t.align, l.size(), l.align());
        }
        // quarantine and poison; really freed by end()
        std::ptr::write_bytes(p, 0xdd, t.size);
        TAB[i].state = 2;
        return;
      }
    }
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    if ACTIVE || SPY_ON {
      let nl = Layout::from_size_align_unchecked(n, l.align());
      let q = self.alloc(nl);
      if !q.is_null() {
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
      }
      return q;
    }
    let q = System.realloc(p, l, n);
    if !q.is_null() {
      count(n as i64 - l.size() as i64);
    }
    q
  }
}

/// open a session; nothing is recorded until `on`
pub fn begin() {
  end();
  unsafe {
    ACTIVE = true;
    DOUBLE = 0;
    LAYOUT = 0;
  }
}
pub fn on() {
  unsafe { ON = ACTIVE };
}
pub fn off() {
  unsafe { ON = false };
}
/// run `f` without recording its allocations
pub fn paused<T>(f: impl FnOnce() -> T) -> T {
  unsafe {
    let was = ON;
    ON = false;
    let r = f();
    ON = was;
    r
  }
}

pub struct Report {
  pub live: Vec<(usize, usize)>,
  pub double: u64,
  pub layout: u64,
  pub detail: (usize, usize, usize, usize),
  pub blocks: usize
}

pub fn report() -> Report {
  unsafe {
    ON = false;
    let mut live = Vec::new();
    for k in 0..NUSED {
      let t = TAB[USED[k] as usize];
      if t.state == 1 {
        live.push((t.size, t.align));
      }
    }
    Report { live, double: DOUBLE, layout: LAYOUT, detail: DETAIL, blocks: NUSED }
  }
}

/// size of the live recorded block at p, None if p is not the start of one
pub fn live_size(p: *const u8) -> Option<usize> {
  unsafe {
    match find(p as usize, false) {
      Some(i) if TAB[i].state == 1 => Some(TAB[i].size),
      _ => None
    }
  }
}

pub fn end() {
  unsafe {
    ON = false;
    if !ACTIVE {
      return;
    }
    ACTIVE = false;
    for k in 0..NUSED {
      let i = USED[k] as usize;
      let t = TAB[i];
      TAB[i].state = 0;
      TAB[i].ptr = 0;
      if t.state == 2 {
        System.dealloc(t.ptr as *mut u8, Layout::from_size_align_unchecked(t.size, t.align));
      }
    }
    NUSED = 0;
  }
}

/// from now on keep what the given places hold when the blocks they lie in are freed
pub fn spy(list: &[(usize, usize)]) {
  unsafe {
    SPY_N = list.len().min(SPOTS);
    for i in 0..SPY_N {
      SPY[i] = (list[i].0, list[i].1.min(64));
      SPY_SEEN[i] = false;
    }
    SPY_ON = true;
  }
}
/// what each place held when it was freed, None: it was not freed
pub fn spied() -> Vec<Option<Vec<u8>>> {
  unsafe {
    SPY_ON = false;
    (0..SPY_N).map(|i| if SPY_SEEN[i] { Some(SPY_BYTES[i][..SPY[i].1].to_vec()) } else { None }).collect()
  }
}
