//! Calls give back the memory they take, and need no more memory and time than what they are given warrants.
use crate::alloc;
use crate::capi::{Call, World};
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use bip39::util::hex as h;
use bip39::util::bits::{BitReaderBy11, BitWriterBy11};
use bip39::{MnemonicIndex, MnemonicString, Mnemonics, Seed};
use keychain::crypt::{decrypt, encrypt};
use keychain::{Key, KeychainManager, Language};
use secp256k1_bip32::XPrv;
use std::os::raw::c_int;
use std::sync::OnceLock;

// ---- what is taken is given back -------------------------------------------------------------------------------------

type Entry = (&'static str, &'static Sub);
static TABLE: OnceLock<Vec<Entry>> = OnceLock::new();

fn run(sub: &Sub, s: &mut Src, cx: &mut Cx) {
  crate::osrand::reset();
  // what the calls answer is for the other properties to judge
  drop(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sub.f)(s, cx))));
  alloc::end();
  take_panic();
}

/// the same case again: what is set up on first use is there by then
fn again<const K: usize>(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let (_, sub) = TABLE.get().ok_or("no table")?[K];
  let mut inner = cx.quiet();
  run(sub, s, &mut inner);
  cx.absorb(inner);
  let tape = s.tape.clone();
  let mut kept = [0i64; 3];
  for k in kept.iter_mut() {
    let before = alloc::live();
    {
      let mut again = Src::replaying(tape.clone());
      let mut inner = cx.quiet();
      inner.want = false;
      run(sub, &mut again, &mut inner);
    }
    *k = alloc::live() - before;
    if *k == 0 {
      return Ok(());
    }
  }
  check!(kept.iter().any(|k| *k <= 0), "each time the same calls keep more memory: {:?} bytes", kept);
  Ok(())
}

macro_rules! fns {
  ($($k:literal)*) => { [$(again::<$k>),*] };
}
const FNS: [CaseFn; 110] = fns!(
  0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29
  30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59
  60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89
  90 91 92 93 94 95 96 97 98 99 100 101 102 103 104 105 106 107 108 109
);

// ---- operations on a text or on bytes of any size --------------------------------------------------------------------

struct Stage {
  m: KeychainManager,
  keys: Vec<Box<dyn Key>>,
  sigs: Vec<Vec<u8>>,
  blob: Vec<u8>
}
const PASS: &str = "pass";
const SEED: [u8; 64] = [0x5a; 64];
fn path_of(n: usize) -> P {
  P([[HARD | 44, HARD, HARD, 0, 1], [HARD | 44, HARD | 60, HARD, 0, 1], [HARD | 44, HARD | 1815, HARD, 0, 1]][n])
}
fn stage() -> Result<Stage, String> {
  let m = manager(7)?;
  let mut keys = Vec::new();
  let mut sigs = Vec::new();
  for n in 0..3 {
    let k = key_of(n, &SEED)?;
    sigs.push(k.sign(b"message", &path_of(n)).map_err(|e| format!("signing: {}", e))?);
    keys.push(k);
  }
  let blob = m.keychain_data_from_seed(&SEED, PASS).map_err(|e| format!("{}", e))?;
  Ok(Stage { m, keys, sigs, blob })
}
fn with_stage<T>(f: impl FnOnce(&Stage) -> Result<T, String>) -> Result<T, String> {
  thread_local! {
    static STAGE: std::cell::RefCell<Option<Stage>> = const { std::cell::RefCell::new(None) };
  }
  STAGE.with(|c| {
    let mut c = c.borrow_mut();
    if c.is_none() {
      *c = Some(stage()?);
    }
    f(c.as_ref().unwrap())
  })
}

struct OsLess;
impl keychain::Entropy for OsLess {
  fn fill_bytes(&self, into: &mut [u8]) {
    for (i, b) in into.iter_mut().enumerate() {
      *b = i as u8;
    }
  }
}

/// name; whether the key of a password is stretched (costs the same for any input)
const OPS: [(&str, bool); 30] = [
  ("path from text", false),
  ("hex decoding", false),
  ("hex encoding", false),
  ("reading a phrase", false),
  ("checking a phrase", false),
  ("seed with a passphrase", false),
  ("phrase of words by number", false),
  ("bits read", false),
  ("bits written", false),
  ("entropy from bytes", false),
  ("seed from bytes", false),
  ("extended key from bytes", false),
  ("encryption", true),
  ("encryption under a password", true),
  ("decryption of noise", true),
  ("decryption", true),
  ("wallet from a phrase", false),
  ("wallet from a seed", false),
  ("opening noise", true),
  ("opening a record", true),
  ("opening under a password", true),
  ("another password", true),
  ("signing", false),
  ("verifying", false),
  ("verifying a signature", false),
  ("key from data", false),
  ("path from text through C", false),
  ("public key", false),
  ("phrase from entropy", false),
  ("generated phrase", false)
];

/// what an operation needs beside the text is prepared first; then only the operation runs
fn operate(k: usize, n: usize, l: usize, t: &[u8], st: &Stage) -> Result<(i64, u64), String> {
  let text = String::from_utf8_lossy(t);
  let text: &str = &text;
  let p = path_of(n);
  let p: &dyn keychain::KeyPath = &p;
  let lang: Language = LANGS[l];
  macro_rules! go {
    ($e:expr) => {{
      let t0 = cpu();
      let (r, peak) = alloc::peak(|| {
        guard(OPS[k].0, || {
          let _ = $e;
        })
      });
      let t1 = cpu();
      // whether a panic is right is not judged here
      drop(r);
      Ok((peak, t1 - t0))
    }};
  }
  match k {
    0 => go!(generic(text)),
    1 => go!(h::decode(text)),
    2 => go!(h::encode(t)),
    3 => go!(Mnemonics::from_string(dict(l), text)),
    4 => {
      let own = text.to_string();
      go!(MnemonicString::new(dict(l), own))
    }
    5 => {
      let ms = MnemonicString::new(dict(l), rb::phrase(l, &rb::encode(&[7; 16]))).map_err(|e| format!("{}", e))?;
      go!(Seed::from_mnemonic_string(&ms, t))
    }
    6 => {
      let v: Vec<MnemonicIndex> = t.iter().map(|b| MnemonicIndex::new(*b as u16 * 8)).collect::<Result<_, _>>().map_err(|e| format!("{}", e))?;
      go!(Mnemonics::from_mnemonics(v))
    }
    7 => go!({
      let mut r = BitReaderBy11::new(t);
      let mut n = 0u64;
      while r.size() > 0 && n < t.len() as u64 {
        n += 1;
        r.read();
      }
    }),
    8 => go!({
      let mut w = BitWriterBy11::new();
      for b in t {
        w.write(*b as u16);
      }
      w.to_bytes()
    }),
    9 => go!(bip39::Entropy::from_slice(t)),
    10 => go!(Seed::from_slice(t)),
    11 => go!(XPrv::from_data(t)),
    12 => go!(encrypt(t, PASS, &OsLess)),
    13 => go!(encrypt(b"data", text, &OsLess)),
    14 => go!(decrypt(t, PASS)),
    15 => {
      let b = encrypt(t, PASS, &OsLess);
      go!(decrypt(&b, PASS))
    }
    16 => go!(st.m.keychain_data_from_mnemonic(text, PASS, Some(lang))),
    17 => go!(st.m.keychain_data_from_seed(t, PASS)),
    18 => go!(st.m.keychain_from_data(t, PASS)),
    19 => {
      let b = encrypt(t, PASS, &OsLess);
      go!(st.m.keychain_from_data(&b, PASS))
    }
    20 => go!(st.m.keychain_from_data(&st.blob, text)),
    21 => go!(st.m.change_password(&st.blob, PASS, text)),
    22 => go!(st.keys[n].sign(t, p)),
    23 => go!(st.keys[n].verify(t, &st.sigs[n], p)),
    24 => go!(st.keys[n].verify(b"message", t, p)),
    25 => {
      let f = factory(n);
      go!(f.key_from_data(t))
    }
    29 => go!(st.m.generate_mnemonic(Some(lang))),
    27 => {
      let w = |i: usize| t.iter().skip(i * 3).take(3).fold(0u32, |a, b| a << 8 | *b as u32);
      let mut p = path_of(n);
      p.0[2] = HARD | w(0);
      p.0[4] = w(1);
      go!(st.keys[n].pub_key(&p))
    }
    28 => {
      let mut e = [0u8; 32];
      for (i, b) in t.iter().enumerate() {
        e[i % 32] = e[i % 32].rotate_left(1) ^ b;
      }
      let e = bip39::Entropy::from_slice(&e[..16 + t.len() % 5 * 4]).map_err(|e| format!("{}", e))?;
      go!({
        let m = e.to_mnemonics();
        let s = m.to_string(dict(l));
        drop(Seed::from_mnemonic_string(&s, b""));
        Mnemonics::from_string(dict(l), &s).map(|m| bip39::Entropy::from_mnemonics(&m).is_ok()).is_ok()
      })
    }
    _ => {
      let mut z: Vec<u8> = t.iter().map(|b| if *b == 0 { 1 } else { *b }).collect();
      z.push(0);
      let mut all = World::default();
      let c = Call::Path(z[..z.len() - 1].to_vec());
      go!({
        let _ = all.call(&c);
        let _ = all.delete_everything();
      })
    }
  }
}

extern "C" {
  fn clock_gettime(clock: c_int, t: *mut [i64; 2]) -> c_int;
}
/// time this thread has run, in nanoseconds
fn cpu() -> u64 {
  let mut t = [0i64; 2];
  unsafe { clock_gettime(3, &mut t) };
  t[0] as u64 * 1_000_000_000 + t[1] as u64
}

const UNITS: [&str; 30] = [
  "a", "0", "9", "0'", "/", "0/", "m/", "m/0'/", "2147483647'/", " ", "\t", "\n", "abandon ", "zoo ", "[", "{\"a\":", "\"", "\\u0041", ",", "é", "あ", "\u{3000}", "0x", "-", "ff", "F F ", "=",
  "\0", "e\u{301}", "[0,"
];

fn gen_units(s: &mut Src, n: usize) -> Vec<u8> {
  let l = s.idx(8);
  let mut t: Vec<u8> = Vec::new();
  let parts = s.range(1, 3) as usize;
  for k in 0..parts {
    let unit: Vec<u8> = match s.below(8) {
      0 => rb::phrase(l, &rb::encode(&s.rand_n(16))).into_bytes(),
      1 => s.bytes(12),
      2 => s.text(6).into_bytes(),
      _ => s.choose(&UNITS).as_bytes().to_vec()
    };
    if unit.is_empty() {
      continue;
    }
    let until = n * (k + 1) / parts;
    // a part may be a single unit
    if k + 1 < parts && s.chance(1, 3) {
      t.extend(&unit);
      continue;
    }
    while t.len() < until {
      t.extend(&unit);
    }
  }
  t
}

/// a stored record with as many networks as there is room for
fn gen_record(s: &mut Src, n: usize) -> Vec<u8> {
  let each = s.range(0, 120) as usize;
  let mut keys = std::collections::BTreeMap::new();
  let mut r = Rng(s.u64());
  for k in 0..(n / (each * 8 + 20)).min(3000) {
    keys.insert(if k < 3 { net(k).0 } else { r.next() as u32 }, vec![7; each]);
  }
  let mnemonic = if s.bool() { Some("zoo ".repeat(n / 20)) } else { None };
  let lang = mnemonic.as_ref().map(|_| s.idx(8));
  write_plain(&Plain { version: 2, seed: if s.bool() { Some(vec![9; n / 16]) } else { None }, mnemonic, lang, keys })
}

fn cost(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let k = s.idx(OPS.len());
  let n = s.idx(3);
  let l = s.idx(8);
  let size = s.len_far(3_000, 400_000);
  let t = match s.below(6) {
    0 => s.rand_n(size),
    1 => gen_record(s, size),
    _ => gen_units(s, size)
  };
  cx.note(|| format!("{} of {} bytes {}", OPS[k].0, t.len(), show(&t)));
  if t.len() > 1000 {
    cx.nt();
    cx.label(OPS[k].0);
  }
  with_stage(|st| {
    let (mem, mut ns) = operate(k, n, l, &t, st)?;
    if let Ok(f) = std::env::var("KCV_COST") {
      use std::io::Write;
      let _ = std::fs::OpenOptions::new().append(true).create(true).open(f).map(|mut f| f.write_all(format!("{}|{}|{}|{}\n", OPS[k].0, t.len(), mem, ns).as_bytes()));
    }
    let most = BYTES.0 + BYTES.1 * t.len() as i64;
    check!(mem <= most, "{} of {} bytes takes {} bytes of memory at once, over {}", OPS[k].0, t.len(), mem, most);
    let limit = if OPS[k].1 { 6 * NANOS.0 } else { NANOS.0 } + NANOS.1 * t.len() as u64;
    // a machine that is busy is given another chance
    for _ in 0..2 {
      if ns > limit {
        ns = ns.min(operate(k, n, l, &t, st)?.1);
      }
    }
    check!(ns <= limit, "{} of {} bytes takes {} ms of processor time, over {}", OPS[k].0, t.len(), ns / 1_000_000, limit / 1_000_000);
    Ok(())
  })
}

/// many calls, all different: what is kept for later use must not grow with every one of them
fn history(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let main = if s.chance(1, 12) { s.idx(OPS.len()) } else { *s.choose(&CHEAP) };
  let each = if OPS[main].1 { 3 } else { 24 };
  let mut ops = Vec::new();
  for _ in 0..4 * each {
    let k = if s.chance(1, 4) { *s.choose(&CHEAP) } else { main };
    let size = s.len(60);
    let t = match s.below(4) {
      0 => s.rand_n(size),
      1 => s.text(12).into_bytes(),
      2 => gen_phrase(s, 12).2.into_bytes(),
      _ => gen_units(s, size)
    };
    ops.push((k, s.idx(3), s.idx(8), t));
  }
  cx.note(|| format!("{} and others", OPS[main].0));
  cx.label(OPS[main].0);
  cx.nt();
  with_stage(|st| {
    let mut kept = [0i64; 4];
    for (i, (k, n, l, t)) in ops.iter().enumerate() {
      let before = alloc::live();
      operate(*k, *n, *l, t, st)?;
      take_panic();
      kept[i / each] += alloc::live() - before;
    }
    cx.note(|| format!("kept: {:?}", kept));
    check!(kept.iter().any(|k| *k <= 0), "calls keep ever more memory: {:?} bytes in four times {} calls", kept, each);
    Ok(())
  })
}
const CHEAP: [usize; 20] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 22, 23, 24, 25, 26, 27, 28, 29];

/// fixed and for each byte, generous: the calls take up to 13 bytes and 60 ns a byte, and a hundredth of the fixed parts
const BYTES: (i64, i64) = (2_000_000, 64);
const NANOS: (u64, u64) = (500_000_000, 3_000);

pub fn prop(all: &[Prop]) -> Prop {
  // these use threads, files or other programs of their own, or run others
  let skip = ["C20", "C21", "C22", "C23", "C24", "C25", "C27", "C28"];
  let mut subs = vec![Sub {
    name: "cost",
    rule: "one of 30 operations on a text or bytes of up to 200 KB: repeated units, noise, records of many networks; non-trivial: over 1000 bytes",
    quick: 12_000,
    thorough: 600_000,
    enumerate: None,
    f: cost
  }, Sub {
    name: "history",
    rule: "96 (with passwords 12) different calls, three quarters of one kind of 30; every one non-trivial",
    quick: 1_500,
    thorough: 150_000,
    enumerate: None,
    f: history
  }];
  let mut table: Vec<Entry> = Vec::new();
  for p in all.iter().filter(|p| !skip.contains(&p.id)) {
    for s in p.subs.iter().filter(|s| s.quick > 0) {
      let k = table.len();
      let own: &'static Sub = Box::leak(Box::new(Sub { name: s.name, rule: s.rule, quick: s.quick, thorough: s.thorough, enumerate: s.enumerate, f: s.f }));
      table.push((p.id, own));
      subs.push(Sub {
        name: Box::leak(format!("{} {}", p.id, s.name).into_boxed_str()),
        rule: s.rule,
        quick: (s.quick / 40).max(s.quick.min(16)),
        thorough: s.thorough / 40,
        enumerate: None,
        f: FNS[k]
      });
    }
  }
  let _ = TABLE.set(table);
  Prop { id: "C28", subs }
}
