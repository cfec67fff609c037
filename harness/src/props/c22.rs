//! What refusals say: they name what was refused, and nothing else about the wallet.
//!
//! Two wallets of the same shape but with unrelated secrets get the same refused calls; whatever is said
//! about them, on any channel, must be the same.
use crate::capi::*;
use crate::common::*;
use crate::engine::*;
use crate::refimpl::bip39 as rb;
use keychain::{Error, GenericKeyPath, KeyFactory, KeychainManager, Language, Network};
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;

extern "C" {
  fn dup(fd: i32) -> i32;
  fn dup2(a: i32, b: i32) -> i32;
  fn close(fd: i32) -> i32;
  fn memfd_create(name: *const u8, flags: u32) -> i32;
  fn lseek(fd: i32, off: i64, whence: i32) -> i64;
}

/// what this process writes to its standard output and error while it lives
struct Captured {
  fd: i32,
  old: [i32; 2]
}
impl Captured {
  fn start() -> Captured {
    let _ = std::io::stdout().flush();
    unsafe {
      let fd = memfd_create(b"said\0".as_ptr(), 0);
      assert!(fd >= 0);
      let old = [dup(1), dup(2)];
      dup2(fd, 1);
      dup2(fd, 2);
      Captured { fd, old }
    }
  }
  fn text(&self) -> Vec<u8> {
    let _ = std::io::stdout().flush();
    let mut out = Vec::new();
    unsafe {
      lseek(self.fd, 0, 0);
      let mut f = std::mem::ManuallyDrop::new(std::fs::File::from_raw_fd(self.fd));
      let _ = f.read_to_end(&mut out);
    }
    out
  }
}
impl Drop for Captured {
  fn drop(&mut self) {
    let _ = std::io::stdout().flush();
    unsafe {
      dup2(self.old[0], 1);
      dup2(self.old[1], 2);
      close(self.old[0]);
      close(self.old[1]);
      close(self.fd);
    }
  }
}

/// the secrets of one of the two wallets
struct Side {
  pass: String,
  wrong: String,
  seed: Vec<u8>,
  ent: Vec<u8>,
  /// for changes to data
  pos: usize
}

fn secret_pass(s: &mut Src, not: &str) -> String {
  let n = s.range(1, 24) as usize;
  let mut t: String = (0..n).map(|_| *s.choose(&['q', 'X', '7', 'z', 'k', 'é', 'W', '4', 'ß', 'm'])).collect();
  if s.chance(1, 5) {
    t = gen_pass(s);
  }
  // passwords that only differ in trailing NULs are one to PBKDF2-HMAC
  if same_password(&t, not) {
    t.push('1');
  }
  t
}

fn side(s: &mut Src) -> Side {
  let pass = secret_pass(s, "\u{1}none");
  let wrong = secret_pass(s, &pass);
  Side { pass, wrong, seed: s.rand_n(64), ent: s.rand_n(32), pos: s.below(1 << 20) as usize }
}

impl Side {
  /// a phrase of this many words, with the given word at its place
  fn phrase(&self, lang: usize, count: usize, bad: Option<(usize, &str)>) -> String {
    let w = rb::words(lang);
    let list: Vec<String> = if bad.is_none() && count % 3 == 0 && (9..=24).contains(&count) {
      rb::encode(&self.ent[..count / 3 * 4]).iter().map(|i| w[*i as usize].to_string()).collect()
    } else {
      (0..count)
        .map(|i| match bad {
          Some((at, t)) if at == i => t.to_string(),
          _ => {
            let h = crate::refimpl::hash::sha256(&[&self.ent[..], &[i as u8]].concat());
            w[(h[0] as usize * 256 + h[1] as usize) % 2048].to_string()
          }
        })
        .collect()
    };
    list.join(" ")
  }
}

#[derive(Clone, Debug)]
enum Stored {
  FromSeed,
  FromPhrase,
  /// keys only
  Old,
  /// the data of one network is not what its key needs
  BadKey(usize, usize),
  /// the data of one network has the right length but is not a key
  NoKey(usize, u64)
}

#[derive(Clone, Debug)]
enum Op {
  Open(bool),
  Change(bool),
  Retrieve(bool),
  Keys(bool),
  Add(u32, bool),
  /// the first bytes only
  Short(usize),
  /// a byte changed
  Damaged,
  SeedOf(usize),
  PhraseOf(usize, Option<(usize, String)>),
  Pub(u32, P),
  Sign(u32, P),
  Verify(u32, P, usize)
}

fn unknown_word(s: &mut Src, lang: usize) -> String {
  let t = match s.below(4) {
    0 => {
      let mut t = s.choose(rb::words(lang)).to_string();
      t.push('q');
      t
    }
    1 => s.choose(rb::words(lang)).to_uppercase(),
    2 => {
      let other = (lang + 1 + s.idx(7)) % 8;
      s.choose(rb::words(other)).to_string()
    }
    _ => (*s.choose(&["hunter2", "0", "%s", "a,b", "naïve"])).to_string()
  };
  if rb::index(lang, &t).is_some() {
    "hunter2".to_string()
  } else {
    t
  }
}

fn gen_op(s: &mut Src, lang: usize, words: usize, nets: &[usize]) -> Op {
  let any_net = |s: &mut Src| match s.weighted(&[3, 2, 1]) {
    0 => COINS[nets[s.idx(nets.len())]],
    1 => COINS[s.idx(3)],
    _ => s.u32_any()
  };
  match s.weighted(&[3, 2, 2, 2, 5, 2, 2, 3, 6, 4, 3, 4]) {
    0 => Op::Open(s.chance(1, 3)),
    1 => Op::Change(s.chance(1, 6)),
    2 => Op::Retrieve(s.chance(2, 3)),
    3 => Op::Keys(s.chance(1, 6)),
    4 => Op::Add(any_net(s), s.chance(5, 6)),
    5 => Op::Short(s.idx(60)),
    6 => Op::Damaged,
    7 => {
      let n = s.len(200);
      Op::SeedOf(if n == 64 { 63 } else { n })
    }
    8 => {
      if s.bool() {
        let n = match s.weighted(&[3, 2]) {
          0 => words,
          _ => *s.choose(&[9, 12, 15, 18, 21, 24])
        };
        let at = s.idx(n);
        let w = unknown_word(s, lang);
        Op::PhraseOf(n, Some((at, w)))
      } else {
        let n = s.idx(40);
        Op::PhraseOf(if n == words { n + 1 } else { n }, None)
      }
    }
    9 => {
      let n = any_net(s);
      let p = bad_path(s, n);
      Op::Pub(n, p)
    }
    10 => {
      let n = any_net(s);
      let p = bad_path(s, n);
      Op::Sign(n, p)
    }
    _ => {
      let n = any_net(s);
      let p = bad_path(s, n);
      Op::Verify(n, p, s.len(150))
    }
  }
}

fn bad_path(s: &mut Src, id: u32) -> P {
  let n = COINS.iter().position(|c| *c == id).unwrap_or(0);
  let mut p = gen_path(s, n);
  if s.chance(3, 4) {
    let k = s.idx(5);
    p.0[k] = gen_index(s);
  }
  p
}

/// what the text must name, as numbers, or a word
struct Named(Vec<u64>, Option<String>);

type Done = Result<(), Error>;

struct Shape {
  mask: u32,
  lang: usize,
  words: usize,
  stored: Stored
}

fn record(s: &mut Src, sh: &Shape, me: &Side) -> Plain {
  let mut p = Plain { version: 2, ..Default::default() };
  let seed = match sh.stored {
    Stored::FromPhrase => {
      let t = me.phrase(sh.lang, sh.words, None);
      p.mnemonic = Some(t.clone());
      p.lang = Some(sh.lang);
      rb::seed(&t, b"")
    }
    Stored::Old => {
      p.version = 1;
      me.seed.clone()
    }
    _ => {
      p.seed = Some(me.seed.clone());
      me.seed.clone()
    }
  };
  for n in mask_nets(sh.mask) {
    p.keys.insert(COINS[n], ref_key_data(n, &seed));
  }
  match sh.stored {
    Stored::BadKey(n, len) => {
      p.keys.insert(COINS[n], s.rand_n(len));
    }
    Stored::NoKey(n, kind) => {
      let d = p.keys.get_mut(&COINS[n]).unwrap();
      match (n, kind) {
        // a byte changed: the checksum of the data tells
        (0, _) | (1, _) => {
          let i = me.pos % d.len();
          d[i] ^= 1 << (me.pos % 8);
        }
        // the bits ed25519 keys have fixed
        (_, 0) => d[0] |= 1 + (me.pos % 7) as u8,
        (_, 1) => d[31] &= 0x3f,
        (_, _) => d[31] |= 0x20
      }
    }
    _ => ()
  }
  p
}

fn path_reasons(n: usize, p: &P) -> Vec<u64> {
  let mut v = Vec::new();
  if n != 0 && p.0[0] != P44 {
    v.push(p.0[0]);
  }
  if p.0[1] != COINS[n] {
    v.push(p.0[1]);
  }
  if p.0[2] < HARD {
    v.push(p.0[2]);
  }
  if p.0[3] > 1 {
    v.push(p.0[3]);
  }
  if p.0[4] >= HARD {
    v.push(p.0[4]);
  }
  v.iter().map(|x| *x as u64).collect()
}

/// run an operation of the Rust interface
fn rust_op(m: &KeychainManager, sh: &Shape, blob: &[u8], me: &Side, op: &Op) -> Option<Done> {
  let pw = |ok: bool| if ok { me.pass.as_str() } else { me.wrong.as_str() };
  let lang: Option<Language> = Some(LANGS[sh.lang]);
  Some(match op {
    Op::Open(ok) => m.keychain_from_data(blob, pw(*ok)).map(|_| ()),
    Op::Change(ok) => m.change_password(blob, pw(*ok), &me.wrong).map(|_| ()),
    Op::Retrieve(ok) => m.retrieve_mnemonic(blob, pw(*ok)).map(|_| ()),
    Op::Keys(ok) => m.get_keys_data(blob, pw(*ok)).map(|_| ()),
    Op::Add(n, ok) => m.add_network(blob, pw(*ok), Network(*n)).map(|_| ()),
    Op::Short(n) => m.keychain_from_data(&blob[..*n], &me.pass).map(|_| ()),
    Op::Damaged => {
      let mut b = blob.to_vec();
      let i = me.pos % b.len();
      b[i] ^= 1 << (me.pos % 8);
      m.keychain_from_data(&b, &me.pass).map(|_| ())
    }
    Op::SeedOf(n) => {
      let d: Vec<u8> = me.seed.iter().chain(me.ent.iter()).chain(me.seed.iter()).chain(me.seed.iter()).cloned().take(*n).collect();
      m.keychain_data_from_seed(&d, &me.pass).map(|_| ())
    }
    Op::PhraseOf(n, bad) => {
      let t = me.phrase(sh.lang, *n, bad.as_ref().map(|(i, w)| (*i, w.as_str())));
      m.keychain_data_from_mnemonic(&t, &me.pass, lang).map(|_| ())
    }
    _ => return None
  })
}

fn rust_key_op(k: &keychain::Keychain, me: &Side, op: &Op) -> Done {
  let path = |p: &P| GenericKeyPath::from(&p.text()).unwrap();
  match op {
    Op::Pub(n, p) => k.pub_key(&Network(*n), &path(p)).map(|_| ()),
    Op::Sign(n, p) => k.sign(&Network(*n), &me.ent, &path(p)).map(|_| ()),
    Op::Verify(n, p, len) => {
      let sig: Vec<u8> = me.seed.iter().chain(me.ent.iter()).chain(me.seed.iter()).cloned().take(*len).collect();
      k.verify(&Network(*n), &me.ent, &sig, &path(p)).map(|_| ())
    }
    _ => Ok(())
  }
}

/// what a refusal of this operation has to name, if anything in particular
fn named(sh: &Shape, op: &Op, e: &Error) -> Named {
  let mut v = Vec::new();
  let mut w = None;
  match (op, e) {
    (Op::Add(n, _), Error::NetworkIsNotSupported(_)) | (Op::Add(n, _), Error::KeyAlreadyExist(_)) => v.push(*n as u64),
    (Op::SeedOf(n), Error::InvalidSeedSize(_)) => v.push(*n as u64),
    (Op::PhraseOf(_, Some((_, t))), Error::MnemonicError(_)) => w = Some(t.clone()),
    (Op::PhraseOf(n, None), Error::MnemonicError(_)) if *n > 0 => {
      v.push(*n as u64);
      if *n % 3 == 0 && (9..=24).contains(n) {
        v.push(sh.words as u64);
      }
    }
    (Op::Pub(n, _), Error::KeyDoesNotExist(_)) | (Op::Sign(n, _), Error::KeyDoesNotExist(_)) | (Op::Verify(n, _, _), Error::KeyDoesNotExist(_)) => v.push(*n as u64),
    (Op::Pub(n, _), Error::KeyError(_, _)) | (Op::Sign(n, _), Error::KeyError(_, _)) => v.push(*n as u64),
    (Op::Verify(n, p, len), Error::KeyError(_, _)) => {
      v.push(*n as u64);
      let k = COINS.iter().position(|c| c == n);
      if k.map_or(false, |k| path_ok(k, p)) {
        v.push(*len as u64);
        v.push(64);
      }
    }
    (Op::Open(true), Error::KeyError(_, _)) => match sh.stored {
      Stored::BadKey(n, len) => {
        v.push(COINS[n] as u64);
        v.push(len as u64);
      }
      Stored::NoKey(n, _) => v.push(COINS[n] as u64),
      _ => ()
    },
    _ => ()
  }
  Named(v, w)
}

fn said(r: &Done) -> String {
  match r {
    Ok(()) => "done".into(),
    Err(e) => format!("'{}' / {:?}", e, e)
  }
}

fn refusals(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let mask = s.range(1, 7) as u32;
  let nets = mask_nets(mask);
  let sh = Shape {
    mask,
    lang: s.idx(8),
    words: mask_words(mask),
    stored: match s.weighted(&[4, 4, 2, 2, 2]) {
      0 => Stored::FromSeed,
      1 => Stored::FromPhrase,
      2 => Stored::Old,
      3 => {
        let n = nets[s.idx(nets.len())];
        let l = s.len(140);
        let good = ref_key_data(n, &[7; 64]).len();
        Stored::BadKey(n, if l == good { l - 1 } else { l })
      }
      _ => Stored::NoKey(nets[s.idx(nets.len())], s.below(3))
    }
  };
  let ops: Vec<Op> = (0..s.range(1, 4)).map(|_| gen_op(s, sh.lang, sh.words, &nets)).collect();
  let sides = [side(s), side(s)];
  cx.note(|| format!("networks {:?}, language {}, stored {:?}, operations {:?}", nets, sh.lang, sh.stored, ops));
  let m = manager(mask)?;
  let mut blobs = Vec::new();
  let mut plains = Vec::new();
  for me in sides.iter() {
    let p = record(s, &sh, me);
    blobs.push(write_blob(s, &write_plain(&p), &me.pass));
    plains.push(p);
  }
  // the key objects, without going through the encryption
  let sound = !matches!(sh.stored, Stored::BadKey(..) | Stored::NoKey(..));
  let mut results: Vec<Vec<Done>> = Vec::new();
  let mut outputs = Vec::new();
  for i in 0..2 {
    let cap = Captured::start();
    let mut kc = None;
    let mut rs = Vec::new();
    for op in &ops {
      let r = guard("a refused operation", || match rust_op(&m, &sh, &blobs[i], &sides[i], op) {
        Some(r) => r,
        None => {
          if !sound {
            return Ok(());
          }
          if kc.is_none() {
            kc = Some(m.keychain_from_data(&blobs[i], &sides[i].pass)?);
          }
          rust_key_op(kc.as_ref().unwrap(), &sides[i], op)
        }
      });
      rs.push(r);
    }
    outputs.push(cap.text());
    drop(cap);
    let mut list = Vec::new();
    for r in rs {
      list.push(r?);
    }
    results.push(list);
  }
  let b = results.pop().unwrap();
  let a = results.pop().unwrap();
  let mut refused = 0;
  for ((op, x), y) in ops.iter().zip(a.iter()).zip(b.iter()) {
    check!(said(x) == said(y), "{:?}: two wallets that differ in nothing but their secrets: {} and {}", op, said(x), said(y));
    if let Err(e) = x {
      refused += 1;
      cx.label(err_kind(e));
      let text = format!("{}", e);
      let Named(v, w) = named(&sh, op, e);
      for n in v {
        check!(has_number(&text, n), "{:?}: '{}' does not name {}", op, text, n);
      }
      if let Some(w) = w {
        check!(text.contains(&w), "{:?}: '{}' does not name the word '{}'", op, text, w);
      }
      if let (Op::Pub(n, p), Error::KeyError(..)) | (Op::Sign(n, p), Error::KeyError(..)) | (Op::Verify(n, p, _), Error::KeyError(..)) = (op, e) {
        if let Some(k) = COINS.iter().position(|c| c == n) {
          let mut why = path_reasons(k, p);
          if let (Op::Verify(_, _, len), false) = (op, why.is_empty()) {
            // two reasons to choose from
            why.push(*len as u64);
          }
          check!(why.is_empty() || why.iter().any(|x| has_number(&text, *x)), "{:?}: '{}' names none of {:?}", op, text, why);
        }
      }
    }
  }
  check!(
    outputs[0] == outputs[1],
    "what is printed depends on the secrets: {:?} and {:?}",
    String::from_utf8_lossy(&outputs[0]),
    String::from_utf8_lossy(&outputs[1])
  );
  if refused > 0 {
    cx.nt();
  }
  Ok(())
}

/// the same through the C interface
fn c_refusals(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let sh = Shape {
    mask: if s.chance(2, 3) { 7 } else { s.range(1, 7) as u32 },
    lang: s.idx(8),
    words: mask_words(7),
    stored: match s.weighted(&[4, 4, 2]) {
      0 => Stored::FromSeed,
      1 => Stored::FromPhrase,
      _ => Stored::Old
    }
  };
  let nets = mask_nets(sh.mask);
  let ops: Vec<Op> = (0..s.range(1, 4)).map(|_| gen_op(s, sh.lang, sh.words, &nets)).collect();
  let mut sides = [side(s), side(s)];
  for me in sides.iter_mut() {
    // C texts end at a NUL
    me.pass = me.pass.replace('\0', "0");
    me.wrong = me.wrong.replace('\0', "0");
    if me.pass == me.wrong {
      me.wrong.push('1');
    }
  }
  cx.note(|| format!("C; networks {:?}, language {}, stored {:?}, operations {:?}", nets, sh.lang, sh.stored, ops));
  let mut all = Vec::new();
  let mut outputs = Vec::new();
  for me in sides.iter() {
    let p = record(s, &sh, me);
    let blob = write_blob(s, &write_plain(&p), &me.pass);
    let cap = Captured::start();
    let r = c_side(&sh, me, &blob, &ops);
    outputs.push(cap.text());
    drop(cap);
    all.push(r?);
  }
  let mut refused = 0;
  for (i, op) in ops.iter().enumerate() {
    check!(all[0][i] == all[1][i], "{:?}: two wallets that differ in nothing but their secrets: {:?} and {:?}", op, all[0][i], all[1][i]);
    if let Err((code, text)) = &all[0][i] {
      refused += 1;
      cx.label("refused");
      let mut v: Vec<u64> = Vec::new();
      match op {
        Op::Add(n, true) if [7, 8].contains(code) => v.push(*n as u64),
        Op::SeedOf(n) => v.push(*n as u64),
        Op::PhraseOf(n, None) if *n > 0 => v.push(*n as u64),
        Op::Pub(n, _) | Op::Sign(n, _) | Op::Verify(n, _, _) => v.push(*n as u64),
        Op::PhraseOf(_, Some((_, w))) => check!(text.contains(w.as_str()), "{:?}: '{}' does not name the word '{}'", op, text, w),
        _ => ()
      }
      for n in v {
        check!(has_number(text, n), "{:?}: '{}' does not name {}", op, text, n);
      }
    }
  }
  check!(
    outputs[0] == outputs[1],
    "what is printed depends on the secrets: {:?} and {:?}",
    String::from_utf8_lossy(&outputs[0]),
    String::from_utf8_lossy(&outputs[1])
  );
  if refused > 0 {
    cx.nt();
  }
  Ok(())
}

fn c_side(sh: &Shape, me: &Side, blob: &[u8], ops: &[Op]) -> Result<Vec<Result<(), (i32, String)>>, String> {
  let mut w = World::default();
  match w.call(&Call::New)? {
    Ok(_) => (),
    Err(e) => bail!("no manager: {:?}", e)
  }
  let pw = |ok: bool| if ok { me.pass.clone().into_bytes() } else { me.wrong.clone().into_bytes() };
  let mut opened = None;
  let mut out = Vec::new();
  for op in ops {
    let b = blob.to_vec();
    let long = |n: usize| -> Vec<u8> { me.seed.iter().chain(me.ent.iter()).chain(me.seed.iter()).chain(me.seed.iter()).cloned().take(n).collect() };
    if let Op::Pub(..) | Op::Sign(..) | Op::Verify(..) = op {
      if opened.is_none() {
        match w.call(&Call::Open(0, b.clone(), pw(true)))? {
          Ok(Val::Keychain(i)) => opened = Some(i),
          x => bail!("a sound wallet does not open: {:?}", x)
        }
      }
    }
    let c = match op {
      Op::Open(ok) => Call::Open(0, b, pw(*ok)),
      Op::Change(ok) => Call::Change(0, b, pw(*ok), pw(false)),
      Op::Retrieve(ok) => Call::Phrase(0, b, pw(*ok)),
      Op::Keys(ok) => Call::Keys(0, b, pw(*ok)),
      Op::Add(n, ok) => Call::Add(0, b, pw(*ok), *n),
      Op::Short(n) => Call::Open(0, b[..*n].to_vec(), pw(true)),
      Op::Damaged => {
        let mut b = b;
        let i = me.pos % b.len();
        b[i] ^= 1 << (me.pos % 8);
        Call::Open(0, b, pw(true))
      }
      Op::SeedOf(n) => Call::FromSeed(0, long(*n), pw(true)),
      Op::PhraseOf(n, bad) => {
        let t = me.phrase(sh.lang, *n, bad.as_ref().map(|(i, w)| (*i, w.as_str())));
        Call::FromPhrase(0, t.into_bytes(), pw(true), sh.lang)
      }
      Op::Pub(n, p) => Call::Pub(opened.unwrap(), *n, p.0),
      Op::Sign(n, p) => Call::Sign(opened.unwrap(), *n, me.ent.clone(), p.0),
      Op::Verify(n, p, len) => Call::Verify(opened.unwrap(), *n, me.ent.clone(), long(*len), p.0)
    };
    out.push(w.call(&c)?.map(|_| ()));
  }
  w.delete_everything()?;
  Ok(out)
}

/// below the wallets: key data, seeds and phrases given straight to the parts that read them
fn parts(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let kind = s.below(6);
  let len = s.len(150);
  let n = s.idx(3);
  let lang = s.idx(8);
  let two = [s.rand_n(320), s.rand_n(320)];
  let at = s.below(1 << 16) as usize;
  let word = unknown_word(s, lang);
  let len = if kind == 0 && len == ref_key_data(n, &[7; 64]).len() { len + 1 } else { len };
  let count = *s.choose(&[9usize, 12, 15, 18, 21, 24]);
  let hex_at = s.idx(40);
  let mut texts = Vec::new();
  let mut must: Vec<u64> = Vec::new();
  let mut what = "";
  for d in two.iter() {
    let cap = Captured::start();
    let r: Result<Result<(), String>, String> = guard("reading secrets", || match kind {
      0 => {
        what = "key data of another length";
        factory(n).key_from_data(&d[..len]).map(|_| ()).map_err(|e| format!("'{}' / {:?}", e, e))
      }
      1 => {
        what = "key data with a changed byte";
        let mut k = ref_key_data(n, &d[..64]);
        if n == 2 {
          k[0] |= 1;
        } else {
          let l = k.len();
          k[at % l] ^= 0x10;
        }
        factory(n).key_from_data(&k).map(|_| ()).map_err(|e| format!("'{}' / {:?}", e, e))
      }
      2 => {
        what = "a seed of another length";
        factory(n).key_data_from_seed(&d[..len]).map(|_| ()).map_err(|e| format!("'{}' / {:?}", e, e))
      }
      3 => {
        what = "a phrase with an unknown word";
        let me = Side { pass: String::new(), wrong: String::new(), seed: vec![], ent: d[..32].to_vec(), pos: 0 };
        let t = me.phrase(lang, count, Some((at % count, &word)));
        bip39::Mnemonics::from_string(dict(lang), &t).map(|_| ()).map_err(|e| format!("'{}' / {:?}", e, e))
      }
      4 => {
        what = "entropy of another length";
        bip39::Entropy::from_slice(&d[..len]).map(|_| ()).map_err(|e| format!("'{}' / {:?}", e, e))
      }
      _ => {
        what = "hexadecimal with a foreign character";
        let mut t = crate::refimpl::hex(&d[..40]);
        t.insert(hex_at, 'x');
        bip39::util::hex::decode(&t).map(|_| ()).map_err(|e| format!("'{}' / {:?}", e, e))
      }
    });
    let out = cap.text();
    drop(cap);
    texts.push((r?, out));
  }
  match kind {
    0 | 2 | 4 => must.push(len as u64),
    5 => must.push(hex_at as u64),
    _ => ()
  }
  cx.note(|| format!("{} (network {}, length {}, language {})", what, n, len, lang));
  cx.label(match kind {
    0 => "key length",
    1 => "key content",
    2 => "seed length",
    3 => "unknown word",
    4 => "entropy length",
    _ => "hexadecimal"
  });
  check!(texts[0] == texts[1], "{}: what is said depends on the content: {:?} and {:?}", what, texts[0], texts[1]);
  if let Err(t) = &texts[0].0 {
    cx.nt();
    for m in must {
      // entropy sizes are told in bits
      check!(has_number(t, m) || (kind == 4 && has_number(t, 8 * m)), "{}: {} does not name {}", what, t, m);
    }
    if kind == 3 {
      check!(t.contains(&word) || t.contains(&format!("{:?}", word)), "{}: {} does not name '{}'", what, t, word);
    }
  }
  Ok(())
}

/// networks that do not agree on a phrase size: the error names the two sizes that exclude each other
fn sizes(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  use super::plug::Plug;
  let mut list: Vec<(usize, usize)> = Vec::new();
  for _ in 0..s.range(1, 4) {
    let a = *s.choose(&[96usize, 128, 160, 192, 224, 256]);
    let b = *s.choose(&[96usize, 128, 160, 192, 224, 256, 512]);
    list.push((a.min(b), a.max(b)));
  }
  let lo = list.iter().map(|x| x.0).max().unwrap();
  let hi = list.iter().map(|x| x.1).min().unwrap();
  cx.note(|| format!("sizes {:?}", list));
  let f: Vec<Box<dyn KeyFactory>> = list
    .iter()
    .enumerate()
    .map(|(i, x)| Plug::new(1000 + i as u32, x.0, x.1, Default::default()).boxed() as Box<dyn KeyFactory>)
    .collect();
  match guard("making a manager", || KeychainManager::with_factories(f))? {
    Ok(_) => check!(lo <= hi, "a manager for {:?}", list),
    Err(e) => {
      check!(lo > hi, "no manager for {:?}: {}", list, e);
      cx.nt();
      let t = format!("{}", e);
      match e {
        Error::CantCalculateSeedSize(a, b) => check!(a == lo && b == hi, "networks {:?}: minimum {} and maximum {} instead of {} and {}", list, a, b, lo, hi),
        _ => bail!("networks {:?}: '{}'", list, t)
      }
      check!(has_number(&t, lo as u64) && has_number(&t, hi as u64), "networks {:?}: '{}' does not name {} and {}", list, t, lo, hi);
    }
  }
  Ok(())
}

/// custom networks, one of which fails: the error names that one and what it said, whatever the secrets
fn custom(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  use super::plug::Plug;
  let mut ids: Vec<u32> = vec![];
  for _ in 0..s.range(2, 7) {
    let id = 1_000_000 + s.below(1 << 30) as u32;
    if !ids.contains(&id) {
      ids.push(id);
    }
  }
  let bad = s.idx(ids.len());
  let step = s.below(4);
  let sides = [side(s), side(s)];
  let lens: Vec<usize> = ids.iter().map(|_| s.len(90)).collect();
  let tags = [s.rand_n(90), s.rand_n(90)];
  let dup = s.chance(1, 4);
  cx.note(|| {
    let what = ["making the wallet", "opening it", "using its key", "adding it"][step as usize];
    format!("networks {:?}, {} fails at {}", ids, ids[bad], what)
  });
  let mut texts = vec![];
  for (me, tag) in sides.iter().zip(tags.iter()) {
    let make = |fail: u64| -> Result<KeychainManager, String> {
      let f: Vec<Box<dyn KeyFactory>> = ids
        .iter()
        .enumerate()
        .map(|(i, id)| {
          let mut p = Plug::new(*id, 96, 256, Default::default());
          p.tag = tag.clone();
          p.data_len = lens[i];
          if dup && i == (bad + 1) % ids.len() {
            // its neighbour has the same key data
            p.data_len = 0;
          }
          p.fail_make = i == bad && (fail == 0 || fail == 3);
          p.fail_load = i == bad && fail == 1;
          p.boxed() as Box<dyn KeyFactory>
        })
        .collect();
      KeychainManager::with_factories(f).map_err(|e| format!("making a manager: {}", e))
    };
    let m = make(step)?;
    let cap = Captured::start();
    let err: Option<Error> = guard("a call of a failing network", || -> Result<Option<Error>, String> {
      Ok(match step {
        0 => m.keychain_data_from_seed(&me.seed, &me.pass).err(),
        1 | 2 => {
          let blob = make(9)?.keychain_data_from_seed(&me.seed, &me.pass).map_err(|e| format!("making a wallet: {}", e))?;
          match m.keychain_from_data(&blob, &me.pass) {
            Err(e) => Some(e),
            Ok(k) => k.pub_key(&Network(ids[bad]), &P([666, 0, 0, 0, 0])).err()
          }
        }
        _ => {
          let f: Vec<Box<dyn KeyFactory>> = vec![Plug::new(77, 96, 256, Default::default()).boxed() as Box<dyn KeyFactory>];
          let blob = KeychainManager::with_factories(f)
            .and_then(|m| m.keychain_data_from_seed(&me.seed, &me.pass))
            .map_err(|e| format!("making a wallet: {}", e))?;
          m.add_network(&blob, &me.pass, Network(ids[bad])).err()
        }
      })
    })??;
    let out = cap.text();
    drop(cap);
    let e = err.ok_or("no error although the network fails".to_string())?;
    let t = format!("{}", e);
    let code = [888001, 777001, 999001, 888001][step as usize];
    match &e {
      Error::KeyError(n, _) => check!(n.0 == ids[bad], "the error is about {} instead of {}", n, ids[bad]),
      _ => bail!("'{}' is not the network's error", t)
    }
    check!(has_number(&t, ids[bad] as u64) && has_number(&t, code), "'{}' does not name network {} and what it said", t, ids[bad]);
    for (i, id) in ids.iter().enumerate() {
      check!(i == bad || !has_number(&t, *id as u64), "'{}' names network {}, which did not fail", t, id);
    }
    texts.push((t, format!("{:?}", e), out));
  }
  cx.nt();
  check!(texts[0] == texts[1], "what is said depends on the secrets: {:?} and {:?}", texts[0], texts[1]);
  Ok(())
}

/// a path text with one fault: the error names the fault's place, or the count, or the marker
fn path_texts(s: &mut Src, cx: &mut Cx) -> Result<(), String> {
  let p = P([s.u32_any(), s.u32_any(), s.u32_any(), s.u32_any(), s.u32_any()]);
  let mut parts: Vec<String> = p.text().split('/').map(|x| x.to_string()).collect();
  let mut place = None;
  let mut words = None;
  match s.below(4) {
    0 => {
      let n = s.range(1, 12) as usize;
      let n = if n == 6 { 7 } else { n };
      while parts.len() > n {
        parts.pop();
      }
      while parts.len() < n {
        parts.push("0".into());
      }
      place = Some(n);
    }
    1 => {
      let m = (*s.choose(&["M", "x", "n", "m'", "44'", "root", "\u{43c}", "mm"])).to_string();
      parts[0] = m.clone();
      words = Some(m);
    }
    _ => {
      let i = s.range(1, 5) as usize;
      let v = s.u32_any() as u64 | 0x8000_0000;
      parts[i] = match s.below(8) {
        0 => String::new(),
        1 => "'".into(),
        2 => format!("{}'", v),
        3 => format!("{}", v + (1 << 32)),
        4 => "x".into(),
        5 => format!("{}''", v & 0x7fff_ffff),
        6 => format!("-{}", v & 0x7fff_ffff),
        _ => format!("{}h", v & 0x7fff_ffff)
      };
      place = Some(i);
    }
  }
  let t = parts.join("/");
  cx.note(|| format!("{:?}", t));
  cx.nt();
  match guard("reading a path", || GenericKeyPath::from(&t))? {
    Ok(_) => bail!("{:?} is taken", t),
    Err(e) => {
      let e = format!("{}", e);
      if let Some(n) = place {
        check!(has_number(&e, n as u64), "{:?}: '{}' does not name {}", t, e, n);
      }
      if let Some(w) = words {
        check!(e.contains(&w), "{:?}: '{}' does not name '{}'", t, e, w);
      }
    }
  }
  Ok(())
}

pub fn prop() -> Prop {
  Prop {
    id: "C22",
    subs: vec![
      Sub {
        name: "refusals",
        rule: "two wallets of one shape with unrelated passwords, seeds, phrases and keys (sound, old, with damaged key data) get 1..4 operations, mostly to be refused; printed and debug form of each error and anything written to standard output or error must be equal, and the printed form names network, sizes, count, word or path value; non-trivial: something was refused",
        quick: 1_600,
        thorough: 200_000,
        enumerate: None,
        f: refusals
      },
      Sub {
        name: "through C",
        rule: "the same through the C interface, comparing codes and messages; non-trivial: something was refused",
        quick: 1_000,
        thorough: 120_000,
        enumerate: None,
        f: c_refusals
      },
      Sub {
        name: "parts",
        rule: "key data, seeds, phrases, entropy and hexadecimal text of one shape and two contents, given to the parts that read them; non-trivial: refused",
        quick: 40_000,
        thorough: 3_000_000,
        enumerate: None,
        f: parts
      },
      Sub {
        name: "sizes",
        rule: "1..4 custom networks with phrase size ranges; non-trivial: they do not agree",
        quick: 20_000,
        thorough: 1_000_000,
        enumerate: None,
        f: sizes
      },
      Sub {
        name: "custom networks",
        rule: "2..7 custom networks, one of which fails to make, load, use or add its key, over two wallets with unrelated secrets",
        quick: 500,
        thorough: 60_000,
        enumerate: None,
        f: custom
      },
      Sub {
        name: "path texts",
        rule: "texts of key paths with one fault (number of parts, marker, one component)",
        quick: 200_000,
        thorough: 8_000_000,
        enumerate: None,
        f: path_texts
      }
    ]
  }
}
