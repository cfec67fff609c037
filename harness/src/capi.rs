//! The C interface as a C caller sees it: prototypes, layouts and a driver that performs generated calls, keeps what
//! the caller owns, and checks the call protocol (which outputs may be written).

use crate::alloc;
use crate::common::*;
use crate::engine::*;
use rust_keychain as _;
use std::ffi::{c_void, CStr, CString};
use std::os::raw::c_char;

#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct CData {
  pub ptr: *const u8,
  pub len: usize
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct CNets {
  pub ptr: *const u32,
  pub count: usize
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct CElem {
  pub network: u32,
  pub data: CData
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct CBackup {
  pub ptr: *const CElem,
  pub count: usize
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct CInfo {
  pub mnemonic: *const c_char,
  pub language: u32
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct CError {
  pub kind: i32,
  pub message: *const c_char
}
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct CPath(pub [u32; 5]);
#[repr(transparent)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Handle(pub *mut c_void);
type S = *const c_char;
type B = *const u8;

extern "C" {
  fn keychain_init_library();
  fn keychain_manager_new(m: &mut Handle, e: &mut CError) -> bool;
  fn keychain_manager_has_network(m: &Handle, n: u32, has: &mut bool, e: &mut CError) -> bool;
  fn keychain_manager_generate_mnemonic(m: &Handle, lang: u32, out: &mut S, e: &mut CError) -> bool;
  fn keychain_manager_keychain_data_from_seed(m: &Handle, p: B, n: usize, pw: S, out: &mut CData, e: &mut CError) -> bool;
  fn keychain_manager_keychain_data_from_mnemonic(m: &Handle, t: S, pw: S, lang: u32, out: &mut CData, e: &mut CError) -> bool;
  fn keychain_manager_keychain_from_data(m: &Handle, p: B, n: usize, pw: S, out: &mut Handle, e: &mut CError) -> bool;
  fn keychain_manager_add_network(m: &Handle, p: B, n: usize, pw: S, net: u32, out: &mut CData, e: &mut CError) -> bool;
  fn keychain_manager_change_password(m: &Handle, p: B, n: usize, old: S, new: S, out: &mut CData, e: &mut CError) -> bool;
  fn keychain_manager_get_keys_data(m: &Handle, p: B, n: usize, pw: S, out: &mut CBackup, e: &mut CError) -> bool;
  fn keychain_manager_retrieve_mnemonic(m: &Handle, p: B, n: usize, pw: S, out: &mut CInfo, e: &mut CError) -> bool;
  fn keychain_networks(k: &Handle, out: &mut CNets, e: &mut CError) -> bool;
  fn keychain_pub_key(k: &Handle, net: u32, path: CPath, out: &mut CData, e: &mut CError) -> bool;
  fn keychain_sign(k: &Handle, net: u32, p: B, n: usize, path: CPath, out: &mut CData, e: &mut CError) -> bool;
  fn keychain_verify(k: &Handle, net: u32, p: B, n: usize, q: B, m: usize, path: CPath, out: &mut bool, e: &mut CError) -> bool;
  fn keypath_from_string(t: S, out: &mut CPath, e: &mut CError) -> bool;
  fn keypath_bitcoin_new_bip44(testnet: bool, a: u32, c: u32, d: u32, out: &mut CPath, e: &mut CError) -> bool;
  fn keypath_bitcoin_new_bip49(testnet: bool, a: u32, c: u32, d: u32, out: &mut CPath, e: &mut CError) -> bool;
  fn keypath_bitcoin_new_bip84(testnet: bool, a: u32, c: u32, d: u32, out: &mut CPath, e: &mut CError) -> bool;
  fn keypath_cardano_new(a: u32, c: u32, d: u32, out: &mut CPath, e: &mut CError) -> bool;
  fn keypath_ethereum_new(a: u32, out: &mut CPath, e: &mut CError) -> bool;
  fn keypath_ethereum_new_metamask(a: u32, out: &mut CPath, e: &mut CError) -> bool;
  fn NETWORK_BITCOIN() -> u32;
  fn NETWORK_CARDANO() -> u32;
  fn NETWORK_ETHEREUM() -> u32;
  fn delete_data(d: &mut CData);
  fn delete_error(e: &mut CError);
  fn delete_key_backup(b: &mut CBackup);
  fn delete_keychain(k: &mut Handle);
  fn delete_keychain_manager(m: &mut Handle);
  fn delete_mnemonic_info(i: &mut CInfo);
  fn delete_networks(n: &mut CNets);
  fn delete_string(s: S);
}

pub fn net_ids() -> [u32; 3] {
  unsafe { [NETWORK_BITCOIN(), NETWORK_ETHEREUM(), NETWORK_CARDANO()] }
}

/// silence panics the way a C program does, then give the harness its hook back
pub fn init_library() {
  unsafe { keychain_init_library() }
}

/// one call of the interface, by value; handles are positions in the driver's tables
#[derive(Clone, Debug)]
pub enum Call {
  New,
  Has(usize, u32),
  Gen(usize, usize),
  FromSeed(usize, Vec<u8>, Vec<u8>),
  FromPhrase(usize, Vec<u8>, Vec<u8>, usize),
  Open(usize, Vec<u8>, Vec<u8>),
  Add(usize, Vec<u8>, Vec<u8>, u32),
  Change(usize, Vec<u8>, Vec<u8>, Vec<u8>),
  Keys(usize, Vec<u8>, Vec<u8>),
  Phrase(usize, Vec<u8>, Vec<u8>),
  Nets(usize),
  Pub(usize, u32, [u32; 5]),
  Sign(usize, u32, Vec<u8>, [u32; 5]),
  Verify(usize, u32, Vec<u8>, Vec<u8>, [u32; 5]),
  Path(Vec<u8>),
  Btc(usize, bool, u32, u32, u32),
  Ada(u32, u32, u32),
  Eth(u32),
  Metamask(u32)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
  Bool(bool),
  Text(String),
  Data(Vec<u8>),
  Nets(Vec<u32>),
  Path([u32; 5]),
  Keys(Vec<(u32, Vec<u8>)>),
  Info(String, u32),
  Manager(usize),
  Keychain(usize)
}

pub type Out = Result<Val, (i32, String)>;

/// something the caller must delete, with the content it had when it was received
pub enum Own {
  Data(CData, Vec<u8>),
  Text(S, String),
  Nets(CNets, Vec<u32>),
  Keys(CBackup, Vec<(u32, Vec<u8>)>),
  Info(CInfo, String),
  Error(CError, String)
}

#[derive(Default)]
pub struct World {
  pub managers: Vec<Handle>,
  pub keychains: Vec<Handle>,
  pub owned: Vec<Own>,
  pub deleted: Vec<Own>,
  /// pass empty buffers as null
  pub null_empty: bool
}
impl Default for Handle {
  fn default() -> Handle {
    Handle(std::ptr::null_mut())
  }
}

unsafe fn text(p: S, what: &str) -> Result<String, String> {
  if p.is_null() {
    return Err(format!("{}: no text was given", what));
  }
  CStr::from_ptr(p).to_str().map(|s| s.to_string()).map_err(|_| format!("{}: the text is not UTF-8", what))
}
unsafe fn slice<'a, T>(p: *const T, n: usize) -> &'a [T] {
  if n == 0 {
    &[]
  } else {
    std::slice::from_raw_parts(p, n)
  }
}

const MARK: usize = 0x1010_1010;

impl World {
  fn track<T>(&self, f: impl FnOnce() -> T) -> T {
    alloc::on();
    let r = f();
    alloc::off();
    r
  }

  /// perform a call; Err of the outer result is a violation of the call protocol
  pub fn call(&mut self, c: &Call) -> Result<Out, String> {
    let cs = |b: &[u8]| CString::new(b.to_vec()).expect("no NUL in C text");
    let null = self.null_empty;
    let ptr = |b: &[u8]| if b.is_empty() && null { std::ptr::null() } else { b.as_ptr() };
    let err0 = CError { kind: 12345, message: MARK as S };
    let mut err = err0;
    let data0 = CData { ptr: MARK as B, len: MARK };
    let mut data = data0;
    let h0 = Handle(MARK as *mut c_void);
    let mut h = h0;
    let path0 = CPath([MARK as u32; 5]);
    let mut path = path0;
    let mut txt = MARK as S;
    let nets0 = CNets { ptr: MARK as *const u32, count: MARK };
    let mut nets = nets0;
    let keys0 = CBackup { ptr: MARK as *const CElem, count: MARK };
    let mut keys = keys0;
    let info0 = CInfo { mnemonic: MARK as S, language: 7 };
    let mut info = info0;
    let mut flag;
    let e = &mut err;
    let man = |w: &World, i: usize| w.managers[i];
    let kch = |w: &World, i: usize| w.keychains[i];
    let what = format!("{:?}", c);
    let what = what.split('(').next().unwrap_or("").to_string();
    unsafe {
      macro_rules! go {
        ($x:expr) => {
          self.track(|| $x)
        };
      }
      // on failure the output must be as it was; on success the error must be
      macro_rules! fin {
        ($ok:expr, $untouched:expr, $val:expr) => {{
          let ok = $ok;
          if ok {
            check!(err == err0, "{}: succeeded but wrote to the error", what);
            Ok($val)
          } else {
            check!($untouched, "{}: failed but wrote to its output", what);
            check!(err.message != err0.message && err.kind != err0.kind, "{}: failed without setting the error", what);
            let m = text(err.message, &what)?;
            self.owned.push(Own::Error(err, m.clone()));
            Err((err.kind, m))
          }
        }};
      }
      macro_rules! fin_data {
        ($ok:expr) => {{
          let ok = $ok;
          fin!(ok, data == data0, {
            check!(!data.ptr.is_null() && data.ptr as usize != MARK, "{}: succeeded without setting its output", what);
            let v = slice(data.ptr, data.len).to_vec();
            self.owned.push(Own::Data(data, v.clone()));
            Val::Data(v)
          })
        }};
      }
      macro_rules! fin_path {
        ($ok:expr) => {{
          let ok = $ok;
          fin!(ok, path == path0, Val::Path(path.0))
        }};
      }
      Ok(match c {
        Call::New => {
          let ok = go!(keychain_manager_new(&mut h, e));
          fin!(ok, h == h0, {
            check!(!h.0.is_null() && h != h0, "New: no manager was given");
            self.managers.push(h);
            Val::Manager(self.managers.len() - 1)
          })
        }
        Call::Has(m, n) => {
          flag = *n & 1 == 1;
          let f0 = flag;
          let m = man(self, *m);
          let ok = go!(keychain_manager_has_network(&m, *n, &mut flag, e));
          fin!(ok, flag == f0, Val::Bool(flag))
        }
        Call::Gen(m, l) => {
          let m = man(self, *m);
          let ok = go!(keychain_manager_generate_mnemonic(&m, *l as u32, &mut txt, e));
          fin!(ok, txt as usize == MARK, {
            let t = text(txt, &what)?;
            self.owned.push(Own::Text(txt, t.clone()));
            Val::Text(t)
          })
        }
        Call::FromSeed(m, seed, pw) => {
          let (m, pw) = (man(self, *m), cs(pw));
          fin_data!(go!(keychain_manager_keychain_data_from_seed(&m, ptr(seed), seed.len(), pw.as_ptr(), &mut data, e)))
        }
        Call::FromPhrase(m, t, pw, l) => {
          let (m, t, pw) = (man(self, *m), cs(t), cs(pw));
          fin_data!(go!(keychain_manager_keychain_data_from_mnemonic(&m, t.as_ptr(), pw.as_ptr(), *l as u32, &mut data, e)))
        }
        Call::Open(m, d, pw) => {
          let (m, pw) = (man(self, *m), cs(pw));
          let ok = go!(keychain_manager_keychain_from_data(&m, ptr(d), d.len(), pw.as_ptr(), &mut h, e));
          fin!(ok, h == h0, {
            check!(!h.0.is_null() && h != h0, "Open: no keychain was given");
            self.keychains.push(h);
            Val::Keychain(self.keychains.len() - 1)
          })
        }
        Call::Add(m, d, pw, n) => {
          let (m, pw) = (man(self, *m), cs(pw));
          fin_data!(go!(keychain_manager_add_network(&m, ptr(d), d.len(), pw.as_ptr(), *n, &mut data, e)))
        }
        Call::Change(m, d, old, new) => {
          let (m, old, new) = (man(self, *m), cs(old), cs(new));
          fin_data!(go!(keychain_manager_change_password(&m, ptr(d), d.len(), old.as_ptr(), new.as_ptr(), &mut data, e)))
        }
        Call::Keys(m, d, pw) => {
          let (m, pw) = (man(self, *m), cs(pw));
          let ok = go!(keychain_manager_get_keys_data(&m, ptr(d), d.len(), pw.as_ptr(), &mut keys, e));
          fin!(ok, keys == keys0, {
            check!(!keys.ptr.is_null() && keys.ptr as usize != MARK, "Keys: succeeded without setting its output");
            let v: Vec<(u32, Vec<u8>)> =
              slice(keys.ptr, keys.count).iter().map(|x| (x.network, slice(x.data.ptr, x.data.len).to_vec())).collect();
            self.owned.push(Own::Keys(keys, v.clone()));
            Val::Keys(v)
          })
        }
        Call::Phrase(m, d, pw) => {
          let (m, pw) = (man(self, *m), cs(pw));
          let ok = go!(keychain_manager_retrieve_mnemonic(&m, ptr(d), d.len(), pw.as_ptr(), &mut info, e));
          fin!(ok, info == info0, {
            check!(info.mnemonic as usize != MARK, "Phrase: succeeded without setting its output");
            let t = text(info.mnemonic, &what)?;
            self.owned.push(Own::Info(info, t.clone()));
            Val::Info(t, info.language)
          })
        }
        Call::Nets(k) => {
          let k = kch(self, *k);
          let ok = go!(keychain_networks(&k, &mut nets, e));
          fin!(ok, nets == nets0, {
            check!(!nets.ptr.is_null() && nets.ptr as usize != MARK, "Nets: succeeded without setting its output");
            let v = slice(nets.ptr, nets.count).to_vec();
            self.owned.push(Own::Nets(nets, v.clone()));
            Val::Nets(v)
          })
        }
        Call::Pub(k, n, p) => {
          let k = kch(self, *k);
          fin_data!(go!(keychain_pub_key(&k, *n, CPath(*p), &mut data, e)))
        }
        Call::Sign(k, n, d, p) => {
          let k = kch(self, *k);
          fin_data!(go!(keychain_sign(&k, *n, ptr(d), d.len(), CPath(*p), &mut data, e)))
        }
        Call::Verify(k, n, d, sig, p) => {
          let k = kch(self, *k);
          flag = *n & 2 == 2;
          let f0 = flag;
          let ok = go!(keychain_verify(&k, *n, ptr(d), d.len(), ptr(sig), sig.len(), CPath(*p), &mut flag, e));
          fin!(ok, flag == f0, Val::Bool(flag))
        }
        Call::Path(t) => {
          let t = cs(t);
          fin_path!(go!(keypath_from_string(t.as_ptr(), &mut path, e)))
        }
        Call::Btc(44, t, a, c, d) => fin_path!(go!(keypath_bitcoin_new_bip44(*t, *a, *c, *d, &mut path, e))),
        Call::Btc(49, t, a, c, d) => fin_path!(go!(keypath_bitcoin_new_bip49(*t, *a, *c, *d, &mut path, e))),
        Call::Btc(_, t, a, c, d) => fin_path!(go!(keypath_bitcoin_new_bip84(*t, *a, *c, *d, &mut path, e))),
        Call::Ada(a, c, d) => fin_path!(go!(keypath_cardano_new(*a, *c, *d, &mut path, e))),
        Call::Eth(a) => fin_path!(go!(keypath_ethereum_new(*a, &mut path, e))),
        Call::Metamask(a) => fin_path!(go!(keypath_ethereum_new_metamask(*a, &mut path, e)))
      })
    }
  }

  /// what the caller owns still has the content it was received with
  pub fn intact(&self, i: usize) -> Result<(), String> {
    unsafe {
      match &self.owned[i] {
        Own::Data(d, v) => check!(slice(d.ptr, d.len) == &v[..], "data the caller owns changed"),
        Own::Text(p, t) => check!(CStr::from_ptr(*p).to_bytes() == t.as_bytes(), "text the caller owns changed"),
        Own::Nets(n, v) => check!(slice(n.ptr, n.count) == &v[..], "a network list the caller owns changed"),
        Own::Keys(k, v) => {
          let now: Vec<(u32, Vec<u8>)> =
            slice(k.ptr, k.count).iter().map(|x| (x.network, slice(x.data.ptr, x.data.len).to_vec())).collect();
          check!(&now == v, "a key backup the caller owns changed")
        }
        Own::Info(p, t) => check!(CStr::from_ptr(p.mnemonic).to_bytes() == t.as_bytes(), "a phrase the caller owns changed"),
        Own::Error(p, t) => check!(CStr::from_ptr(p.message).to_bytes() == t.as_bytes(), "an error the caller owns changed")
      }
    }
    Ok(())
  }

  /// delete an owned object; afterwards its pointer is null
  pub fn delete(&mut self, i: usize) -> Result<(), String> {
    self.intact(i)?;
    let mut o = self.owned.swap_remove(i);
    self.track(|| unsafe { free(&mut o) });
    let gone = match &o {
      Own::Data(d, _) => d.ptr.is_null(),
      Own::Text(..) => true,
      Own::Nets(n, _) => n.ptr.is_null(),
      Own::Keys(k, _) => k.ptr.is_null(),
      Own::Info(p, _) => p.mnemonic.is_null(),
      Own::Error(p, _) => p.message.is_null()
    };
    check!(gone, "the pointer is not null after deletion");
    if !matches!(o, Own::Text(..)) {
      self.deleted.push(o);
    }
    Ok(())
  }

  /// delete something again that was deleted before
  pub fn delete_again(&mut self, i: usize) {
    let mut o = self.deleted.swap_remove(i);
    self.track(|| unsafe { free(&mut o) });
    self.deleted.push(o);
  }

  pub fn delete_manager(&mut self, i: usize) -> Result<(), String> {
    let mut h = self.managers[i];
    self.track(|| unsafe { delete_keychain_manager(&mut h) });
    check!(h.0.is_null(), "the manager is not null after deletion");
    self.managers[i] = h;
    Ok(())
  }
  pub fn delete_keychain(&mut self, i: usize) -> Result<(), String> {
    let mut h = self.keychains[i];
    self.track(|| unsafe { delete_keychain(&mut h) });
    check!(h.0.is_null(), "the keychain is not null after deletion");
    self.keychains[i] = h;
    Ok(())
  }
  /// delete things that are empty from the start
  pub fn delete_nothing(&self, k: u64) {
    let null = std::ptr::null();
    self.track(|| unsafe {
      match k {
        0 => delete_data(&mut CData { ptr: null, len: 0 }),
        1 => delete_error(&mut CError { kind: 0, message: std::ptr::null() }),
        2 => delete_key_backup(&mut CBackup { ptr: std::ptr::null(), count: 0 }),
        3 => delete_mnemonic_info(&mut CInfo { mnemonic: std::ptr::null(), language: 0 }),
        4 => delete_networks(&mut CNets { ptr: std::ptr::null(), count: 0 }),
        5 => delete_keychain(&mut Handle::default()),
        6 => delete_keychain_manager(&mut Handle::default()),
        _ => delete_string(std::ptr::null())
      }
    });
  }
  pub fn delete_everything(&mut self) -> Result<(), String> {
    while !self.owned.is_empty() {
      self.delete(self.owned.len() - 1)?;
    }
    for i in 0..self.managers.len() {
      self.delete_manager(i)?;
    }
    for i in 0..self.keychains.len() {
      self.delete_keychain(i)?;
    }
    Ok(())
  }
  pub fn delete_all(&mut self, s: &mut Src) -> Result<(), String> {
    while !self.owned.is_empty() {
      let i = s.idx(self.owned.len());
      self.delete(i)?;
    }
    for i in 0..self.managers.len() {
      self.delete_manager(i)?;
    }
    for i in 0..self.keychains.len() {
      self.delete_keychain(i)?;
    }
    Ok(())
  }
}

unsafe fn free(o: &mut Own) {
  match o {
    Own::Data(d, _) => delete_data(d),
    Own::Text(p, _) => delete_string(*p),
    Own::Nets(n, _) => delete_networks(n),
    Own::Keys(k, _) => delete_key_backup(k),
    Own::Info(p, _) => delete_mnemonic_info(p),
    Own::Error(p, _) => delete_error(p)
  }
}

// ---- generators ----

/// text without NUL, usually UTF-8
pub fn c_text(s: &mut Src, max: usize) -> Vec<u8> {
  let mut v: Vec<u8> = s.text(max).into_bytes();
  v.retain(|b| *b != 0);
  v
}

pub fn c_pass(s: &mut Src) -> Vec<u8> {
  match s.weighted(&[8, 4, 1]) {
    0 => (0..s.range(0, 6)).map(|_| b'a' + s.below(3) as u8).collect(),
    1 => c_text(s, 20),
    _ => {
      let mut v = c_text(s, 6);
      v.push(*s.choose(&[0x80u8, 0xff, 0xc3, 0xed, 0xf5]));
      v
    }
  }
}

pub fn c_net(s: &mut Src) -> u32 {
  match s.weighted(&[8, 1]) {
    0 => *s.choose(&COINS),
    _ => s.u32_any()
  }
}

pub fn c_path(s: &mut Src, n: u32) -> [u32; 5] {
  let k = COINS.iter().position(|c| *c == n).unwrap_or(0);
  let mut p = gen_path(s, k).0;
  if s.chance(1, 8) {
    p[s.idx(5)] = s.u32_any();
  }
  p
}

#[derive(Clone, Debug)]
pub struct Wallet {
  pub blob: Vec<u8>,
  pub pass: Vec<u8>
}

const SALT: [u8; 32] = [0x51; 32];

/// a stored wallet of any age written by an independent writer, sometimes with content a library would not write
pub fn gen_wallet(s: &mut Src) -> Wallet {
  let pass = (*s.choose(&["", "a", "pässwörd", "correct horse"])).to_string();
  let nonce = s.rand_n(12);
  let plain = gen_plain(s);
  Wallet { blob: crate::refimpl::aead::envelope_seal(&plain, &pass, &SALT, &nonce), pass: pass.into_bytes() }
}

fn gen_plain(s: &mut Src) -> Vec<u8> {
  use crate::refimpl::b64;
  use crate::refimpl::json::J;
  let mut p = Plain { version: s.range(1, 2), ..Default::default() };
  let seed = gen_seed(s);
  for i in 0..3 {
    if s.chance(2, 3) {
      p.keys.insert(COINS[i], ref_key_data(i, &seed));
    }
  }
  if s.chance(1, 6) {
    p.keys.insert(s.u32_any(), s.bytes(100));
  }
  if p.version == 2 {
    match s.weighted(&[3, 2, 1]) {
      0 => {
        let (l, _, t) = gen_phrase(s, 12);
        p.lang = Some(l);
        p.mnemonic = Some(t);
        p.seed = Some(seed);
      }
      1 => p.seed = Some(seed),
      _ => ()
    }
  }
  match s.weighted(&[10, 6]) {
    0 => return write_plain(&p),
    _ => ()
  }
  // text and structure a library would not have written
  let hostile = hostile_text(s);
  match s.below(6) {
    0 => {
      p.version = 2;
      p.mnemonic = Some(hostile);
      p.lang = Some(s.idx(8));
      write_plain(&p)
    }
    1 => {
      let k = *s.choose(&COINS);
      let d = s.bytes(100);
      p.keys.insert(k, d);
      write_plain(&p)
    }
    2 => {
      p.version = 2;
      p.seed = Some(s.bytes(80));
      write_plain(&p)
    }
    3 => {
      // one member with another value
      p.version = 2;
      let mut j = inner_json(&p);
      if let J::Obj(m) = &mut j {
        let i = s.idx(m.len());
        m[i].1 = match s.below(4) {
          0 => J::s(&hostile),
          1 => J::Null,
          2 => J::Arr(vec![J::s(&hostile)]),
          _ => J::Obj(vec![(hostile, J::Null)])
        };
      }
      wrap(J::n(2), J::s(&b64::encode(j.write().as_bytes())))
    }
    4 => {
      let v = s.below(4);
      let d = if s.bool() { J::s(&hostile) } else { J::s(&b64::encode(hostile.as_bytes())) };
      wrap(J::n(v), d)
    }
    _ => {
      if s.bool() {
        hostile.into_bytes()
      } else {
        s.bytes(200)
      }
    }
  }
}

fn wrap(v: crate::refimpl::json::J, d: crate::refimpl::json::J) -> Vec<u8> {
  crate::refimpl::json::J::Obj(vec![("version".into(), v), ("data".into(), d)]).write().into_bytes()
}

fn hostile_text(s: &mut Src) -> String {
  match s.weighted(&[3, 2, 1]) {
    0 => {
      let mut t = (*s.choose(&["", "English", "abandon", "x"])).to_string();
      t.push('\0');
      t.push_str(&s.text(6));
      t
    }
    1 => s.text(30),
    _ => (*s.choose(&["{", "[[[[[[[[", "\u{7f}", "%s%n%p", "null"])).to_string()
  }
}

/// the data argument of a call: a wallet, or what is left of one
pub fn gen_blob(s: &mut Src, wallets: &[Wallet]) -> (Vec<u8>, Vec<u8>) {
  let kind = if wallets.is_empty() { 3 } else { s.weighted(&[20, 2, 1, 1]) };
  match kind {
    0 => {
      let w = s.choose(wallets).clone();
      let pw = if s.chance(1, 8) { c_pass(s) } else { w.pass };
      (w.blob, pw)
    }
    1 => {
      let w = s.choose(wallets).clone();
      let n = s.idx(w.blob.len() + 1);
      (w.blob[..n].to_vec(), w.pass)
    }
    2 => {
      let mut w = s.choose(wallets).clone();
      let i = s.idx(w.blob.len());
      w.blob[i] ^= 1 << s.below(8);
      (w.blob, w.pass)
    }
    _ => (s.bytes(120), c_pass(s))
  }
}
