//! Choice-tape property-based testing engine with coverage guidance, process isolation and shrinking.

use crate::cov;
use crate::refimpl::json::{self, J};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

pub const WORKERS: u64 = 8;
const TAPE_MAX: usize = 1 << 15;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
  pub fn new(parts: &[u64]) -> Rng {
    let mut r = Rng(0x243f6a8885a308d3);
    for p in parts {
      r.0 ^= p.wrapping_mul(0x9e3779b97f4a7c15);
      r.next();
    }
    r
  }
  pub fn next(&mut self) -> u64 {
    self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = self.0;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
  }
  pub fn below(&mut self, n: u64) -> u64 {
    if n == 0 {
      0
    } else {
      ((self.next() as u128 * n as u128) >> 64) as u64
    }
  }
}

pub fn fnv(s: &str) -> u64 {
  s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// The source of every random decision of a case.
pub struct Src {
  pub tape: Vec<u64>,
  prefix: Vec<u64>,
  rng: Rng,
  live: bool,
  side: *mut u64
}

impl Src {
  fn new(prefix: Vec<u64>, rng: Option<Rng>, side: *mut u64) -> Src {
    Src { tape: Vec::new(), prefix, live: rng.is_some(), rng: rng.unwrap_or(Rng(0)), side }
  }
  /// the decisions of a tape again
  pub fn replaying(tape: Vec<u64>) -> Src {
    Src::new(tape, None, std::ptr::null_mut())
  }
  /// one recorded decision in 0..=max; `gen` proposes a fresh value
  pub fn pick(&mut self, max: u64, gen: impl FnOnce(&mut Rng) -> u64) -> u64 {
    let i = self.tape.len();
    let v = if i < self.prefix.len() {
      self.prefix[i]
    } else if self.live && i < TAPE_MAX {
      gen(&mut self.rng)
    } else {
      0
    };
    let v = if v <= max { v } else { v % (max + 1) };
    self.tape.push(v);
    if !self.side.is_null() && i < TAPE_MAX {
      unsafe {
        self.side.add(8 + i).write_volatile(v);
        self.side.add(2).write_volatile(i as u64 + 1);
      }
    }
    v
  }
  /// uniform in 0..n
  pub fn below(&mut self, n: u64) -> u64 {
    self.pick(n - 1, |r| r.below(n))
  }
  pub fn idx(&mut self, n: usize) -> usize {
    self.below(n as u64) as usize
  }
  pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
    lo + self.below(hi - lo + 1)
  }
  pub fn bool(&mut self) -> bool {
    self.below(2) == 1
  }
  /// true with probability n/d; shrinks to false
  pub fn chance(&mut self, n: u64, d: u64) -> bool {
    self.pick(1, |r| (r.below(d) < n) as u64) == 1
  }
  pub fn weighted(&mut self, w: &[u64]) -> usize {
    let t: u64 = w.iter().sum();
    self.pick(w.len() as u64 - 1, |r| {
      let mut x = r.below(t);
      for (i, p) in w.iter().enumerate() {
        if x < *p {
          return i as u64;
        }
        x -= p;
      }
      0
    }) as usize
  }
  pub fn u8(&mut self) -> u8 {
    self.pick(255, |r| match r.below(8) {
      0 => [0u64, 1, 0x7f, 0x80, 0xff, 0x20, 0x0a, 0x2f][r.below(8) as usize],
      1 => cov::hint(r.next()).unwrap_or(0) & 255,
      _ => r.below(256)
    }) as u8
  }
  pub fn u32_any(&mut self) -> u32 {
    self.pick(0xffff_ffff, gen_u32) as u32
  }
  pub fn u32_uniform(&mut self) -> u32 {
    self.pick(0xffff_ffff, |r| r.next() >> 32) as u32
  }
  pub fn u64(&mut self) -> u64 {
    self.pick(u64::MAX - 1, |r| r.next())
  }
  /// a length in 0..=max, biased to small, to block-size neighbourhoods and to values the code compares with
  pub fn len(&mut self, max: usize) -> usize {
    let m = max as u64;
    self.pick(m, |r| {
      let v = match r.below(10) {
        0..=3 => r.below(m.min(20) + 1),
        4 => cov::hint(r.next()).unwrap_or(0),
        5 => cov::hint(r.next()).unwrap_or(0).wrapping_add(r.below(3)).wrapping_sub(1),
        6 => {
          let p = 1u64 << r.below(17);
          p.wrapping_add(r.below(5)).wrapping_sub(2)
        }
        7 => 64 * r.below(12) + r.below(5),
        _ => r.below(m + 1)
      };
      if v <= m {
        v
      } else {
        r.below(m + 1)
      }
    }) as usize
  }
  /// exactly n bytes of varied character
  pub fn bytes_n(&mut self, n: usize) -> Vec<u8> {
    let kind = self.weighted(&[1, 6, 1, 2, 1]);
    match kind {
      0 => vec![0; n],
      1 => {
        let mut r = Rng(self.u64());
        (0..n).map(|_| r.next() as u8).collect()
      }
      2 => vec![0xff; n],
      3 => {
        // sparse: background with a few chosen positions
        let bg = self.u8();
        let mut v = vec![bg; n];
        let k = self.below(4);
        for _ in 0..k {
          if n > 0 {
            let i = self.idx(n);
            v[i] = self.u8();
          }
        }
        v
      }
      _ => {
        if n <= 80 {
          (0..n).map(|_| self.u8()).collect()
        } else {
          let b = self.u8();
          vec![b; n]
        }
      }
    }
  }
  /// a length up to `max`, small ones up to `usual` most of the time, else about a power of two
  pub fn len_far(&mut self, usual: usize, max: usize) -> usize {
    if !self.chance(1, 7) {
      return self.len(usual);
    }
    let m = max as u64;
    self.pick(m, |r| {
      let top = 64 - m.leading_zeros() as u64;
      let p = 1u64 << (9 + r.below(top.max(10) - 9));
      let v = match r.below(3) {
        0 => p.wrapping_add(r.below(5)).wrapping_sub(2),
        1 => p + r.below(p),
        _ => p + 64 * r.below(p / 64 + 1)
      };
      v.min(m)
    }) as usize
  }
  pub fn bytes_far(&mut self, usual: usize, max: usize) -> Vec<u8> {
    let n = self.len_far(usual, max);
    self.bytes_n(n)
  }
  pub fn bytes(&mut self, max: usize) -> Vec<u8> {
    let n = self.len(max);
    self.bytes_n(n)
  }
  /// n uniformly random bytes behind one tape entry
  pub fn rand_n(&mut self, n: usize) -> Vec<u8> {
    let mut r = Rng(self.u64());
    (0..n).map(|_| (r.next() >> 32) as u8).collect()
  }
  pub fn choose<'a, T>(&mut self, v: &'a [T]) -> &'a T {
    let i = self.idx(v.len());
    &v[i]
  }
  /// any Unicode scalar, biased to ASCII, boundaries and multi-byte
  pub fn char(&mut self) -> char {
    let v = self.pick(0x10ffff, |r| match r.below(8) {
      0..=2 => 0x20 + r.below(0x5f),
      3 => r.below(0x20),
      4 => [0x7f, 0x80, 0xa0, 0x2028, 0x3000, 0xfeff, 0xffff, 0x10ffff, 0x7ff, 0x800, 0x2b, 0x2d][r.below(12) as usize],
      5 => [0x301, 0x308, 0x2019, 0x2032, 0x660, 0xff11, 0x1d7d8, 0x200b][r.below(8) as usize],
      6 => r.below(0x800),
      _ => r.below(0x110000)
    });
    char::from_u32(v as u32).unwrap_or('\u{fffd}')
  }
  pub fn text(&mut self, max: usize) -> String {
    let n = self.len(max);
    if n > 120 {
      let c = self.char();
      return std::iter::repeat(c).take(n).collect();
    }
    (0..n).map(|_| self.char()).collect()
  }
}

fn gen_u32(r: &mut Rng) -> u64 {
  const B: [u64; 24] = [
    0, 1, 2, 3, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0x7ffffffe, 44, 49, 84, 60, 1815, 0x8000002c,
    0x80000031, 0x80000054, 0x8000003c, 0x80000717, 0x80000002, 255, 256, 65536
  ];
  (match r.below(16) {
    0..=4 => B[r.below(24) as usize],
    5 => r.below(64),
    6 => 0x80000000 + r.below(64),
    7 | 8 => cov::hint(r.next()).unwrap_or(0),
    9 => cov::hint(r.next()).unwrap_or(0).wrapping_add(r.below(3)).wrapping_sub(1),
    10 => (1u64 << r.below(32)).wrapping_add(r.below(3)).wrapping_sub(1),
    11 => r.below(0x80000000),
    12 => 0x80000000 + r.below(0x80000000),
    _ => r.next() >> 32
  }) & 0xffff_ffff
}

/// Per-case context: classification and rendering.
pub struct Cx {
  pub nontrivial: bool,
  labels: Vec<&'static str>,
  pub want: bool,
  desc: Vec<String>,
  live: Option<std::fs::File>
}
impl Cx {
  pub fn nt(&mut self) {
    self.nontrivial = true;
  }
  /// a context for a part of the case, that writes to no file
  pub fn quiet(&self) -> Cx {
    Cx { nontrivial: false, labels: Vec::new(), want: self.want, desc: Vec::new(), live: None }
  }
  pub fn absorb(&mut self, inner: Cx) {
    self.nontrivial |= inner.nontrivial;
    self.labels.extend(inner.labels);
    for d in inner.desc {
      self.note(|| d);
    }
  }
  pub fn label(&mut self, l: &'static str) {
    self.labels.push(l);
  }
  /// a listed defect is counted and reported at the end; one that is not listed is a violation
  pub fn known(&mut self, key: &str, label: &'static str, what: &str) -> Result<(), String> {
    if known_findings().iter().any(|(_, k, _)| k == key) {
      self.label(label);
      Ok(())
    } else {
      Err(what.to_string())
    }
  }
  pub fn note(&mut self, f: impl FnOnce() -> String) {
    if self.want && self.desc.len() < 200 {
      let mut s = f();
      if s.len() > 700 {
        let mut k = 700;
        while !s.is_char_boundary(k) {
          k -= 1;
        }
        s.truncate(k);
        s.push_str("...");
      }
      if let Some(f) = &mut self.live {
        use std::io::Write;
        let _ = f.write_all(format!("{}\n", s).as_bytes());
      }
      self.desc.push(s);
    }
  }
}

/// KNOWN_FINDINGS.txt: "known: property=ID key=KEY TEXT"
fn known_findings() -> &'static Vec<(String, String, String)> {
  static LIST: std::sync::OnceLock<Vec<(String, String, String)>> = std::sync::OnceLock::new();
  LIST.get_or_init(|| {
    let file = std::env::current_exe().ok().and_then(|p| p.ancestors().nth(3).map(|d| d.join("KNOWN_FINDINGS.txt")));
    let text = file.and_then(|f| std::fs::read_to_string(f).ok()).unwrap_or_default();
    text
      .lines()
      .filter_map(|l| {
        let mut f = l.strip_prefix("known: property=")?.splitn(3, ' ');
        Some((f.next()?.to_string(), f.next()?.strip_prefix("key=")?.to_string(), f.next()?.to_string()))
      })
      .collect()
  })
}

pub type CaseFn = fn(&mut Src, &mut Cx) -> Result<(), String>;

pub struct Sub {
  pub name: &'static str,
  pub rule: &'static str,
  pub quick: u64,
  pub thorough: u64,
  /// the first decision of the case enumerates 0..n, every value exactly once
  pub enumerate: Option<u64>,
  pub f: CaseFn
}

pub struct Prop {
  pub id: &'static str,
  pub subs: Vec<Sub>
}

thread_local! {
  static PANIC: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn take_panic() -> Option<String> {
  PANIC.with(|p| p.borrow_mut().take())
}

pub fn hook() {
  std::panic::set_hook(Box::new(|info| crate::alloc::paused(|| {
    let msg = info
      .payload()
      .downcast_ref::<String>()
      .cloned()
      .or_else(|| info.payload().downcast_ref::<&'static str>().map(|s| s.to_string()))
      .unwrap_or_else(|| "panic".into());
    let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
    PANIC.with(|p| {
      if let Ok(mut p) = p.try_borrow_mut() {
        *p = Some(format!("panic at {}: {}", loc, msg));
      }
    });
  })));
}

#[macro_export]
macro_rules! check {
  ($c:expr, $($a:tt)*) => {
    if !($c) { return Err(format!($($a)*)); }
  };
}
#[macro_export]
macro_rules! bail {
  ($($a:tt)*) => { return Err(format!($($a)*)) };
}

struct Outcome {
  res: Result<(), String>,
  tape: Vec<u64>,
  nontrivial: bool,
  labels: Vec<&'static str>,
  desc: Vec<String>
}

fn run_case(sub: &Sub, prefix: Vec<u64>, rng: Option<Rng>, side: *mut u64, want: bool) -> Outcome {
  let mut s = Src::new(prefix, rng, side);
  let live = std::env::var_os("KCV_NOTES").filter(|_| want).and_then(|p| std::fs::File::create(p).ok());
  let mut cx = Cx { nontrivial: false, labels: Vec::new(), want, desc: Vec::new(), live };
  if !side.is_null() {
    unsafe {
      side.add(2).write_volatile(0);
      side.add(0).write_volatile(side.add(0).read_volatile() + 1);
      side.add(3).write_volatile(1);
    }
  }
  crate::osrand::reset();
  crate::alloc::end();
  let r = catch_unwind(AssertUnwindSafe(|| (sub.f)(&mut s, &mut cx)));
  crate::alloc::end();
  if !side.is_null() {
    unsafe { side.add(3).write_volatile(0) };
  }
  let res = match r {
    Ok(r) => r,
    Err(_) => {
      hook();
      Err(take_panic().unwrap_or_else(|| "panic".into()))
    }
  };
  take_panic();
  Outcome { res, tape: s.tape, nontrivial: cx.nontrivial, labels: cx.labels, desc: cx.desc }
}

fn tape_hash(t: &[u64]) -> u64 {
  let mut h = 0x1234567u64;
  for v in t {
    h = (h ^ v).wrapping_mul(0x9e3779b97f4a7c15);
    h ^= h >> 29;
  }
  h
}

fn mutate(c: &[Vec<u64>], r: &mut Rng) -> Vec<u64> {
  let mut t = c[r.below(c.len() as u64) as usize].clone();
  let n = 1 + r.below(4);
  for _ in 0..n {
    let l = t.len() as u64;
    if l == 0 {
      break;
    }
    let i = r.below(l) as usize;
    match r.below(8) {
      0 => t[i] = r.next(),
      1 => t[i] = t[i].wrapping_add(1),
      2 => t[i] = t[i].wrapping_sub(1),
      3 => t[i] = cov::hint(r.next()).unwrap_or(0),
      4 => t[i] = gen_u32(r),
      5 => {
        let k = 1 + r.below(8.min(l - i as u64)) as usize;
        t.drain(i..(i + k).min(l as usize));
      }
      6 => {
        let k = 1 + r.below(8.min(l - i as u64)) as usize;
        let d: Vec<u64> = t[i..(i + k).min(l as usize)].to_vec();
        for (j, v) in d.into_iter().enumerate() {
          t.insert(i + j, v);
        }
      }
      _ => {
        let o = &c[r.below(c.len() as u64) as usize];
        let j = r.below(o.len() as u64 + 1) as usize;
        t.truncate(i);
        t.extend_from_slice(&o[j..]);
      }
    }
  }
  t
}

/// generic tape shrinker; `fails` re-runs the case
fn shrink(start: Vec<u64>, mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>, budget: usize, secs: u64, fixed: usize) -> Vec<u64> {
  let mut best = start;
  let mut left = budget;
  let t0 = std::time::Instant::now();
  let mut go = |cand: &[u64], best: &mut Vec<u64>| -> bool {
    if left == 0 || t0.elapsed().as_secs() > secs {
      return false;
    }
    left -= 1;
    if let Some(t) = fails(cand) {
      // accept only strictly simpler consumed tapes
      let simpler = t.len() < best.len() || (t.len() == best.len() && t.iter().lt(best.iter()));
      if simpler {
        *best = t;
        return true;
      }
    }
    false
  };
  for _round in 0..6 {
    let before = best.clone();
    for size in [64usize, 16, 8, 4, 3, 2, 1] {
      let mut i = best.len();
      while i > fixed {
        i = i.saturating_sub(size).max(fixed);
        if i + size > best.len() {
          if i == fixed {
            break;
          }
          continue;
        }
        let mut c = best.clone();
        c.drain(i..i + size);
        go(&c, &mut best);
        if i == fixed {
          break;
        }
      }
    }
    let mut i = fixed;
    while i < best.len() {
      if best[i] > 0 {
        let mut c = best.clone();
        c[i] = 0;
        if !go(&c, &mut best) {
          // lower towards 0 by bisection
          let mut lo = 0u64;
          let mut hi = best[i];
          while hi > lo + 1 && i < best.len() {
            let mid = lo + (hi - lo) / 2;
            let mut c = best.clone();
            c[i] = mid;
            if go(&c, &mut best) {
              hi = mid;
            } else {
              lo = mid;
            }
          }
        }
      }
      i += 1;
    }
    if best == before {
      break;
    }
  }
  best
}

extern "C" {
  fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

fn map_side(p: &Path) -> *mut u64 {
  use std::os::unix::io::AsRawFd;
  let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(p).expect("side file");
  let n = (TAPE_MAX + 8) * 8;
  f.set_len(n as u64).expect("side file size");
  let m = unsafe { mmap(std::ptr::null_mut(), n, 3, 1, f.as_raw_fd(), 0) };
  assert!(m as isize != -1, "mmap");
  m as *mut u64
}

fn read_side(p: &Path) -> Option<(u64, usize, bool, Vec<u64>)> {
  let b = std::fs::read(p).ok()?;
  let w: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).collect();
  if w.len() < 8 {
    return None;
  }
  let n = (w[2] as usize).min(TAPE_MAX);
  Some((w[0], w[1] as usize, w[3] == 1, w[8..8 + n].to_vec()))
}

fn tape_json(t: &[u64]) -> J {
  J::Arr(t.iter().map(J::n).collect())
}

fn share(n: u64, w: u64) -> u64 {
  n / WORKERS + if w < n % WORKERS { 1 } else { 0 }
}

pub fn worker(prop: &Prop, tier: &str, seed: u64, w: u64, dir: &Path, deadline: u64) {
  hook();
  limit_memory();
  let side = map_side(&dir.join(format!("side{}", w)));
  let mut subs = Vec::new();
  let mut failure = J::Null;
  let mut hashes: Vec<u8> = Vec::new();
  let t0 = std::time::Instant::now();
  let only = std::env::var("VERIF_SUB").ok();
  for (si, sub) in prop.subs.iter().enumerate() {
    if only.as_deref().map_or(false, |o| o != sub.name) {
      continue;
    }
    unsafe { side.add(1).write_volatile(si as u64) };
    let total = match sub.enumerate {
      Some(n) => n,
      None => {
        if tier == "thorough" {
          sub.thorough
        } else {
          sub.quick
        }
      }
    };
    let mine = share(total, w);
    let mut rng = Rng::new(&[seed, fnv(prop.id), fnv(sub.name), w]);
    let mut seen: Vec<u8> = Vec::new();
    let mut corpus: Vec<Vec<u64>> = Vec::new();
    let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut nt: HashSet<u64> = HashSet::new();
    let mut samples: Vec<J> = Vec::new();
    let mut evals = 0u64;
    let mut cut = false;
    let s0 = std::time::Instant::now();
    for k in 0..mine {
      if k % 16 == 0 && t0.elapsed().as_secs() > deadline {
        cut = true;
        break;
      }
      let case_rng = Rng(rng.next());
      let mut prefix = Vec::new();
      if sub.enumerate.is_some() {
        prefix.push(w + k * WORKERS);
      } else if !corpus.is_empty() && rng.below(4) == 0 {
        prefix = mutate(&corpus, &mut rng);
      }
      let want = samples.len() < 6 && (k & (k + 1) == 0);
      cov::reset();
      let o = run_case(sub, prefix, Some(case_rng), side, want);
      evals += 1;
      if cov::merge(&mut seen) && corpus.len() < 4096 {
        corpus.push(o.tape.clone());
      }
      for l in &o.labels {
        *labels.entry(l).or_insert(0) += 1;
      }
      if o.nontrivial {
        let h = tape_hash(&o.tape) ^ fnv(sub.name);
        if nt.insert(h) {
          hashes.extend_from_slice(&h.to_le_bytes());
        }
        if want && !o.desc.is_empty() {
          samples.push(J::s(&format!("{}: {}", sub.name, o.desc.join("; "))));
        }
      }
      if let Err(msg) = o.res {
        let fixed = if sub.enumerate.is_some() { 1 } else { 0 };
        let small = shrink(
          o.tape.clone(),
          |t| {
            let r = run_case(sub, t.to_vec(), None, side, false);
            if r.res.is_err() {
              Some(r.tape)
            } else {
              None
            }
          },
          1500,
          40,
          fixed
        );
        let fin = run_case(sub, small.clone(), None, side, true);
        let (tape, msg, desc) = match fin.res {
          Err(m) => (small, m, fin.desc),
          Ok(()) => (o.tape, format!("{} (did not fail again when re-run)", msg), o.desc)
        };
        failure = J::Obj(vec![
          ("property".into(), J::s(prop.id)),
          ("build".into(), J::s(BUILD)),
          ("sub".into(), J::s(sub.name)),
          ("message".into(), J::s(&msg)),
          ("case".into(), J::Arr(desc.iter().map(|d| J::s(d)).collect())),
          ("tape".into(), tape_json(&tape)),
          ("cases_before".into(), J::n(evals))
        ]);
        break;
      }
    }
    subs.push(J::Obj(vec![
      ("name".into(), J::s(sub.name)),
      ("evals".into(), J::n(evals)),
      ("nontrivial".into(), J::n(nt.len())),
      ("labels".into(), J::Obj(labels.iter().map(|(k, v)| (k.to_string(), J::n(v))).collect())),
      ("samples".into(), J::Arr(samples)),
      ("edges".into(), J::n(seen.iter().filter(|x| **x != 0).count())),
      ("cov".into(), J::s(&crate::refimpl::hex(&seen.iter().map(|x| (*x != 0) as u8).collect::<Vec<_>>()))),
      ("corpus".into(), J::n(corpus.len())),
      ("cut".into(), J::Bool(cut)),
      ("secs".into(), J::n(format!("{:.2}", s0.elapsed().as_secs_f64())))
    ]));
    if failure != J::Null {
      break;
    }
  }
  std::fs::write(dir.join(format!("hash{}", w)), &hashes).expect("hash file");
  let out = J::Obj(vec![("subs".into(), J::Arr(subs)), ("failure".into(), failure)]);
  std::fs::write(dir.join(format!("out{}", w)), out.write()).expect("out file");
}

/// run one tape in this process: 0 pass, 1 fail
pub fn run_tape(prop: &Prop, subname: &str, tape: Vec<u64>, side: Option<&Path>, verbose: bool) -> i32 {
  hook();
  let sub = match prop.subs.iter().find(|s| s.name == subname) {
    Some(s) => s,
    None => {
      eprintln!("no such sub-check {}", subname);
      return 2;
    }
  };
  limit_memory();
  let sp = side.map_or(std::ptr::null_mut(), map_side);
  let o = run_case(sub, tape, None, sp, true);
  if verbose {
    for d in &o.desc {
      println!("  {}", d);
    }
  }
  match o.res {
    Ok(()) => {
      if verbose {
        println!("no violation");
      }
      0
    }
    Err(m) => {
      if verbose {
        println!("fails: {}", m);
      }
      1
    }
  }
}

fn sig_name(s: i32) -> &'static str {
  match s {
    4 => "SIGILL",
    5 => "SIGTRAP",
    6 => "SIGABRT",
    7 => "SIGBUS",
    8 => "SIGFPE",
    11 => "SIGSEGV",
    _ => "signal"
  }
}

fn spawn_tape(exe: &Path, prop: &str, sub: &str, tape: &[u64], dir: &Path) -> (Option<i32>, Option<Vec<u64>>) {
  use std::os::unix::process::ExitStatusExt;
  let f = dir.join("tape.json");
  std::fs::write(&f, tape_json(tape).write()).expect("tape file");
  let side = dir.join("tapeside");
  let mut st = std::process::Command::new(exe)
    .args(["tape", prop, sub])
    .arg(&f)
    .arg(&side)
    .env("KCV_NOTES", dir.join("notes"))
    .stdout(std::process::Stdio::null())
    .stderr(std::process::Stdio::null())
    .spawn()
    .expect("spawn");
  let t0 = std::time::Instant::now();
  let sig = loop {
    match st.try_wait() {
      Ok(Some(x)) => break x.signal(),
      Ok(None) if t0.elapsed().as_secs() > 90 => {
        let _ = st.kill();
        let _ = st.wait();
        break Some(STUCK);
      }
      _ => std::thread::sleep(std::time::Duration::from_millis(2))
    }
  };
  (sig, read_side(&side).map(|x| x.3))
}

const BUILD: &str = if cfg!(kcv_asan) { "asan" } else if cfg!(debug_assertions) { "checked" } else { "release" };

/// stands for a case that does not finish
const STUCK: i32 = 1000;

fn read_notes(dir: &Path) -> J {
  let t = std::fs::read_to_string(dir.join("notes")).unwrap_or_default();
  J::Arr(t.lines().map(J::s).collect())
}

extern "C" {
  fn setrlimit(which: i32, v: *const [u64; 2]) -> i32;
}
/// a runaway allocation ends the case, not the machine
fn limit_memory() {
  crate::props::watch();
  if cfg!(kcv_asan) {
    // a sanitizer reserves all the room there is, and has a limit of its own
    return;
  }
  let v = [3_500_000_000u64; 2];
  unsafe { setrlimit(9, &v) };
}

pub fn run_prop(prop: &Prop, tier: &str, seed: u64, root: &Path) -> i32 {
  use std::os::unix::process::ExitStatusExt;
  let t0 = std::time::Instant::now();
  if let Err(e) = crate::refimpl::selftest::run() {
    eprintln!("HARNESS ERROR {}", e);
    return 2;
  }
  let exe = std::env::current_exe().expect("exe");
  let dir: PathBuf = std::env::temp_dir().join(format!("kcv-{}-{}", prop.id, std::process::id()));
  std::fs::create_dir_all(&dir).expect("scratch dir");
  let cleanup = || {
    let _ = std::fs::remove_dir_all(&dir);
  };
  let deadline: u64 = if tier == "thorough" { 6 * 3600 } else { 600 };
  let mut kids: Vec<std::process::Child> = (0..WORKERS)
    .map(|w| {
      std::process::Command::new(&exe)
        .args(["worker", prop.id, tier, &seed.to_string(), &w.to_string(), &deadline.to_string()])
        .arg(&dir)
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .spawn()
        .expect("spawn worker")
    })
    .collect();
  // wait with a heartbeat: a case that does not finish in 150 s is tried again alone
  let mut status: Vec<Option<std::process::ExitStatus>> = vec![None; WORKERS as usize];
  let mut beat: Vec<(u64, std::time::Instant)> = vec![(0, std::time::Instant::now()); WORKERS as usize];
  let mut hung = None;
  while status.iter().any(|s| s.is_none()) {
    std::thread::sleep(std::time::Duration::from_millis(30));
    for w in 0..WORKERS as usize {
      if status[w].is_none() {
        if let Ok(Some(s)) = kids[w].try_wait() {
          status[w] = Some(s);
        } else if beat[w].1.elapsed().as_secs() > 5 {
          let b = read_side(&dir.join(format!("side{}", w))).map_or(0, |x| x.0);
          if b != beat[w].0 {
            beat[w] = (b, std::time::Instant::now());
          } else if beat[w].1.elapsed().as_secs() > 150 {
            hung = Some(w);
          }
        }
      }
    }
    if hung.is_some() {
      for k in kids.iter_mut() {
        let _ = k.kill();
        let _ = k.wait();
      }
      break;
    }
  }
  let mut failure: Option<J> = None;
  if let Some(w) = hung {
    let (si, tape) = read_side(&dir.join(format!("side{}", w))).map_or((0, Vec::new()), |x| (x.1, x.3));
    let sub = &prop.subs[si.min(prop.subs.len() - 1)];
    // the same case alone: only if it does not finish either, it is the code and not the machine
    if spawn_tape(&exe, prop.id, sub.name, &tape, &dir).0 != Some(STUCK) {
      eprintln!("HARNESS ERROR: a case of {} did not finish in 150 s, but does alone: {:?} ({} choices)", prop.id, &tape[..tape.len().min(60)], tape.len());
      cleanup();
      return 2;
    }
    failure = Some(J::Obj(vec![
      ("property".into(), J::s(prop.id)),
      ("build".into(), J::s(BUILD)),
      ("sub".into(), J::s(sub.name)),
      ("message".into(), J::s("the case does not finish")),
      ("case".into(), read_notes(&dir)),
      ("tape".into(), tape_json(&tape)),
      ("cases_before".into(), J::n(0))
    ]));
  }
  let mut error: Option<String> = None;
  let mut outs: Vec<J> = Vec::new();
  for w in 0..WORKERS as usize {
    let st = match status[w] {
      Some(s) => s,
      None => continue
    };
    if hung.is_some() {
      continue;
    }
    if let Some(sig) = st.signal() {
      if !matches!(sig, 4 | 5 | 6 | 7 | 8 | 11) {
        error = Some(format!("worker {} was ended by signal {}", w, sig));
        continue;
      }
      if failure.is_some() {
        continue;
      }
      let (_, si, incase, tape) = match read_side(&dir.join(format!("side{}", w))) {
        Some(x) => x,
        None => {
          error = Some("side file unreadable after a crash".into());
          continue;
        }
      };
      let sub = &prop.subs[si.min(prop.subs.len() - 1)];
      if !incase {
        error = Some(format!("worker {} crashed ({}) outside a case", w, sig_name(sig)));
        continue;
      }
      let (s2, _) = spawn_tape(&exe, prop.id, sub.name, &tape, &dir);
      let crash = |s: Option<i32>| s.map_or(false, |x| matches!(x, 4 | 5 | 6 | 7 | 8 | 11));
      let (tape, note) = if crash(s2) {
        let t = shrink(
          tape,
          |c| {
            let (s, used) = spawn_tape(&exe, prop.id, sub.name, c, &dir);
            if crash(s) {
              used
            } else {
              None
            }
          },
          300,
          60,
          if sub.enumerate.is_some() { 1 } else { 0 }
        );
        let _ = spawn_tape(&exe, prop.id, sub.name, &t, &dir);
        (t, "")
      } else {
        (tape, " (seen after the worker's earlier cases; this case alone does not crash)")
      };
      failure = Some(J::Obj(vec![
        ("property".into(), J::s(prop.id)),
        ("build".into(), J::s(BUILD)),
        ("sub".into(), J::s(sub.name)),
        ("message".into(), J::s(&format!("the process was ended by {}{}", sig_name(sig), note))),
        ("case".into(), read_notes(&dir)),
        ("tape".into(), tape_json(&tape)),
        ("cases_before".into(), J::n(0))
      ]));
      continue;
    }
    if st.code() != Some(0) {
      error = Some(format!("worker {} exit {:?}", w, st.code()));
      continue;
    }
    match std::fs::read(dir.join(format!("out{}", w))).ok().and_then(|b| json::parse(&b)) {
      Some(j) => {
        if let Some(f) = j.get("failure") {
          if *f != J::Null && failure.is_none() {
            failure = Some(f.clone());
          }
        }
        outs.push(j);
      }
      None => error = Some(format!("worker {} left no result", w))
    }
  }
  if failure.is_none() {
    if let Some(e) = error {
      eprintln!("HARNESS ERROR: {}", e);
      cleanup();
      return 2;
    }
  }
  // evidence
  let mut distinct: HashSet<u64> = HashSet::new();
  for w in 0..WORKERS {
    if let Ok(b) = std::fs::read(dir.join(format!("hash{}", w))) {
      for c in b.chunks_exact(8) {
        distinct.insert(u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]));
      }
    }
  }
  let mut evals = 0u64;
  let mut samples: Vec<J> = Vec::new();
  let mut per_sub = Vec::new();
  let mut seen_known: BTreeMap<String, u64> = BTreeMap::new();
  let mut truncated = false;
  let mut edges_all: Vec<u8> = Vec::new();
  for sub in &prop.subs {
    let mut e = 0;
    let mut n = 0;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut corpus = 0;
    let mut cov: Vec<u8> = Vec::new();
    let mut ns = 0;
    for o in &outs {
      for s in o.get("subs").and_then(|s| s.arr()).unwrap_or(&[]) {
        if s.get("name").and_then(|x| x.str()) != Some(sub.name) {
          continue;
        }
        e += s.get("evals").and_then(|x| x.u64()).unwrap_or(0);
        n += s.get("nontrivial").and_then(|x| x.u64()).unwrap_or(0);
        corpus += s.get("corpus").and_then(|x| x.u64()).unwrap_or(0);
        if s.get("cut") == Some(&J::Bool(true)) {
          truncated = true;
        }
        let c = crate::refimpl::unhex(s.get("cov").and_then(|x| x.str()).unwrap_or(""));
        for v in [&mut cov, &mut edges_all] {
          if v.len() < c.len() {
            v.resize(c.len(), 0);
          }
          for (a, b) in v.iter_mut().zip(c.iter()) {
            *a |= b;
          }
        }
        if let Some(J::Obj(l)) = s.get("labels") {
          for (k, v) in l {
            *labels.entry(k.clone()).or_insert(0) += v.u64().unwrap_or(0);
          }
        }
        for x in s.get("samples").and_then(|x| x.arr()).unwrap_or(&[]).iter().rev() {
          if ns < 3 {
            ns += 1;
            samples.push(x.clone());
          }
        }
      }
    }
    evals += e;
    for (k, n) in &labels {
      if let Some(k) = k.strip_prefix("known: ") {
        *seen_known.entry(k.to_string()).or_insert(0) += n;
      }
    }
    let mut o = vec![
      ("sub".into(), J::s(sub.name)),
      ("rule".into(), J::s(sub.rule)),
      ("evaluations".into(), J::n(e)),
      ("nontrivial".into(), J::n(n)),
      ("edges_reached".into(), J::n(cov.iter().filter(|x| **x != 0).count())),
      ("corpus".into(), J::n(corpus)),
      ("labels".into(), J::Obj(labels.into_iter().map(|(k, v)| (k, J::n(v))).collect()))
    ];
    if sub.enumerate.is_some() {
      o.push(("exhaustive".into(), J::Bool(failure.is_none())));
    }
    per_sub.push(J::Obj(o));
  }
  let rule = prop.subs.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect::<Vec<_>>().join(" | ");
  let mut viol = 0;
  let mut replay = String::new();
  if let Some(f) = &failure {
    viol = 1;
    let rd = root.join("replays");
    let _ = std::fs::create_dir_all(&rd);
    let body = f.write();
    let p = rd.join(format!("{}-{:016x}.json", prop.id, fnv(&body)));
    std::fs::write(&p, &body).expect("replay file");
    replay = p.to_string_lossy().into_owned();
  }
  // the same property in the other build, run just before
  let also = std::env::var("KCV_ALSO").ok().and_then(|f| std::fs::read(f).ok()).and_then(|b| json::parse(&b));
  let also_n = |k: &str| also.as_ref().and_then(|j| j.get("coverage")).and_then(|c| c.get(k)).and_then(|x| x.u64()).unwrap_or(0);
  let (evals, more) = (evals + also_n("evaluations"), also_n("distinct_nontrivial"));
  let ev = J::Obj(vec![
    ("property".into(), J::s(prop.id)),
    ("tier".into(), J::s(tier)),
    ("seed".into(), J::n(seed)),
    ("level".into(), J::s("exploration")),
    (
      "coverage".into(),
      J::Obj(vec![
        ("evaluations".into(), J::n(evals)),
        ("distinct_nontrivial".into(), J::n(distinct.len().max(more as usize))),
        ("rule".into(), J::s(&rule)),
        ("samples".into(), J::Arr(samples)),
        ("subs".into(), J::Arr(per_sub)),
        ("release_build".into(), also.as_ref().and_then(|j| j.get("coverage")).cloned().unwrap_or(J::Null)),
        ("edges_reached".into(), J::n(edges_all.iter().filter(|x| **x != 0).count())),
        ("edges_total".into(), J::n(edges_all.len())),
        ("stopped_early".into(), J::Bool(truncated))
      ])
    ),
    (
      "assumptions".into(),
      J::Arr(vec![
        J::s("the reference implementations in harness/src/refimpl (self-tested on published vectors at the start of this run)"),
        J::s("sampling: absence of violations is not established beyond the cases counted here")
      ])
    ),
    ("wall_s".into(), J::n(format!("{:.2}", t0.elapsed().as_secs_f64()))),
    ("violations".into(), J::n(viol))
  ]);
  let ed = root.join("evidence");
  let _ = std::fs::create_dir_all(&ed);
  std::fs::write(ed.join(format!("{}.json", prop.id)), ev.write() + "\n").expect("evidence file");
  cleanup();
  println!(
    "{} {} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
    prop.id,
    tier,
    seed,
    evals,
    distinct.len(),
    t0.elapsed().as_secs_f64()
  );
  if let Some(f) = failure {
    println!("  sub-check: {}", f.get("sub").and_then(|x| x.str()).unwrap_or(""));
    println!("  {}", f.get("message").and_then(|x| x.str()).unwrap_or(""));
    for l in f.get("case").and_then(|x| x.arr()).unwrap_or(&[]) {
      println!("    {}", l.str().unwrap_or(""));
    }
    println!("VIOLATION property={} replay={}", prop.id, replay);
    return 1;
  }
  for (p, k, text) in known_findings() {
    if p == prop.id {
      if let Some(n) = seen_known.get(k) {
        println!("KNOWN-FINDING: property={} {} ({} cases)", p, text, n);
      }
    }
  }
  0
}

pub fn replay(props: &[Prop], file: &Path) -> i32 {
  let j = match std::fs::read(file).ok().and_then(|b| json::parse(&b)) {
    Some(j) => j,
    None => {
      eprintln!("cannot read {}", file.display());
      return 2;
    }
  };
  let id = j.get("property").and_then(|x| x.str()).unwrap_or("");
  let sub = j.get("sub").and_then(|x| x.str()).unwrap_or("");
  let tape: Vec<u64> = j.get("tape").and_then(|x| x.arr()).unwrap_or(&[]).iter().filter_map(|x| x.u64()).collect();
  println!("replay {} {}", id, sub);
  match props.iter().find(|p| p.id == id) {
    Some(p) => run_tape(p, sub, tape, None, true),
    None => 2
  }
}
