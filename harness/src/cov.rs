//! SanitizerCoverage callbacks: edge counters and compare operands of the instrumented crates of /repo.
//! Single-threaded use only (each worker process runs one thread).
#![allow(static_mut_refs)]

const MAXR: usize = 256;
static mut RANGES: [(*mut u8, usize); MAXR] = [(std::ptr::null_mut(), 0); MAXR];
static mut NR: usize = 0;

const CONSTS: usize = 4096;
static mut TABLE: [u64; CONSTS] = [0; CONSTS];
static mut LIST: [u64; CONSTS] = [0; CONSTS];
static mut NLIST: usize = 0;
const RING: usize = 64;
static mut RECENT: [u64; RING] = [0; RING];
static mut RPOS: usize = 0;

#[inline]
unsafe fn konst(v: u64) {
  let mut h = (v.wrapping_mul(0x9e3779b97f4a7c15) >> 52) as usize;
  for _ in 0..8 {
    let t = TABLE[h & (CONSTS - 1)];
    if t == v {
      return;
    }
    if t == 0 {
      if v != 0 && NLIST < CONSTS {
        TABLE[h & (CONSTS - 1)] = v;
        LIST[NLIST] = v;
        NLIST += 1;
      }
      return;
    }
    h += 1;
  }
}

#[inline]
unsafe fn recent(v: u64) {
  // values that cannot be addresses, so that a run stays a function of code and seed
  if v > 16 && v < 1 << 33 {
    RECENT[RPOS & (RING - 1)] = v;
    RPOS += 1;
  }
}

macro_rules! cb {
  ($n:ident, $c:ident, $t:ty) => {
    #[no_mangle]
    pub unsafe extern "C" fn $n(a: $t, b: $t) {
      recent(a as u64);
      recent(b as u64);
    }
    #[no_mangle]
    pub unsafe extern "C" fn $c(a: $t, _b: $t) {
      konst(a as u64);
    }
  };
}
cb!(__sanitizer_cov_trace_cmp1, __sanitizer_cov_trace_const_cmp1, u8);
cb!(__sanitizer_cov_trace_cmp2, __sanitizer_cov_trace_const_cmp2, u16);
cb!(__sanitizer_cov_trace_cmp4, __sanitizer_cov_trace_const_cmp4, u32);
cb!(__sanitizer_cov_trace_cmp8, __sanitizer_cov_trace_const_cmp8, u64);

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
  let n = *cases as usize;
  for i in 0..n.min(64) {
    konst(*cases.add(2 + i));
  }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_div4(_v: u32) {}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_div8(_v: u64) {}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_gep(_v: usize) {}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_pcs_init(_a: *const usize, _b: *const usize) {}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, stop: *mut u8) {
  let n = stop as usize - start as usize;
  if n > 0 && NR < MAXR && !(0..NR).any(|i| RANGES[i].0 == start) {
    RANGES[NR] = (start, n);
    NR += 1;
  }
}

pub fn total() -> usize {
  unsafe { (0..NR).map(|i| RANGES[i].1).sum() }
}

pub fn reset() {
  unsafe {
    for i in 0..NR {
      std::ptr::write_bytes(RANGES[i].0, 0, RANGES[i].1);
    }
  }
}

fn bucket(c: u8) -> u8 {
  match c {
    0 => 0,
    1 => 1,
    2 => 2,
    3 => 4,
    4..=7 => 8,
    8..=15 => 16,
    16..=31 => 32,
    32..=127 => 64,
    _ => 128
  }
}

/// merges the counters of the last case into `seen`; true if something new was reached
pub fn merge(seen: &mut Vec<u8>) -> bool {
  let mut new = false;
  unsafe {
    if seen.len() != total() {
      seen.resize(total(), 0);
    }
    let mut k = 0;
    for i in 0..NR {
      let s = std::slice::from_raw_parts(RANGES[i].0, RANGES[i].1);
      for c in s {
        if *c != 0 {
          let b = bucket(*c);
          if seen[k] & b == 0 {
            seen[k] |= b;
            new = true;
          }
        }
        k += 1;
      }
    }
  }
  new
}

pub fn hint(r: u64) -> Option<u64> {
  unsafe {
    if r & 3 == 0 && RPOS > 0 {
      return Some(RECENT[(r >> 2) as usize % RPOS.min(RING)]);
    }
    if NLIST == 0 {
      return None;
    }
    Some(LIST[(r >> 2) as usize % NLIST])
  }
}
